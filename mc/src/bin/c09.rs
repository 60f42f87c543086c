#[path = "../props/c09.rs"]
mod c09;
fn main() {
    mc::explore::main(c09::scenarios);
}
