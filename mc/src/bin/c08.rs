#[path = "../props/c08.rs"]
mod c08;
fn main() {
    mc::explore::main(c08::scenarios);
}
