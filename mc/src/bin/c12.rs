#[path = "../props/c12.rs"]
mod c12;
fn main() {
    mc::explore::main(c12::scenarios);
}
