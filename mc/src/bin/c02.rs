#[path = "../props/c02.rs"]
mod c02;
#[path = "../props/shapes.rs"]
mod shapes;
fn main() {
    mc::explore::main(c02::scenarios);
}
