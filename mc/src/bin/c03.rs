#[path = "../props/c03.rs"]
mod c03;
fn main() {
    mc::explore::main(c03::scenarios);
}
