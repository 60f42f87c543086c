#[path = "../props/c06.rs"]
mod c06;
#[path = "../props/shapes.rs"]
mod shapes;
fn main() {
    mc::explore::main(c06::scenarios);
}
