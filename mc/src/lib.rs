//! Shared machinery of the model-checking harness. One binary per property lives in `src/bin`.
#![allow(clippy::all)]

pub mod explore;
pub mod full;
pub mod guard;
pub mod harness;
pub mod hist;
pub mod reg;
pub mod scale;
pub mod shape;
pub mod sys;
pub mod worlds;

#[global_allocator]
static GLOBAL: guard::Guard = guard::Guard;

/// The build this binary was compiled as, for reports.
pub fn build_name() -> String {
    let mut s = String::from(if cfg!(debug_assertions) { "debug-assertions" } else { "release" });
    if cfg!(feature = "ev") {
        s.push_str("+events");
    }
    if cfg!(feature = "comp32") {
        s.push_str("+32_components");
    }
    if cfg!(feature = "wrapping") {
        s.push_str("+wrapping_version");
    }
    s
}
