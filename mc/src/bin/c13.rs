#[path = "../props/c13.rs"]
mod c13;
#[path = "../props/shapes.rs"]
mod shapes;
fn main() {
    mc::explore::main(c13::scenarios);
}
