#[path = "../props/c07.rs"]
mod c07;
fn main() {
    mc::explore::main(c07::scenarios);
}
