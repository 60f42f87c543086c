#[path = "../props/c14.rs"]
mod c14;
fn main() {
    mc::explore::main(c14::scenarios);
}
