#[path = "../props/c17.rs"]
mod c17;
fn main() {
    mc::explore::main(c17::scenarios);
}
