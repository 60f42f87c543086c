//! Stands in for shapes.rs where only the narrow worlds are explored (C19's reduced builds).
use mc::explore::{Ch, R};
pub fn run(_: usize, _: &mut Ch, _: usize) -> R {
    unreachable!()
}
pub fn faults(_: usize, _: &mut Ch) -> R {
    unreachable!()
}
pub fn borrows(_: usize, _: &mut Ch) -> R {
    unreachable!()
}
