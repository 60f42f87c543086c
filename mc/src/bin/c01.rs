#[path = "../props/c01.rs"]
mod c01;
fn main() {
    mc::explore::main(c01::scenarios);
}
