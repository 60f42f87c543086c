#[path = "../props/c10.rs"]
mod c10;
#[path = "../props/c12.rs"]
#[allow(dead_code)]
mod c12;
#[path = "../props/shapes.rs"]
#[allow(dead_code)]
mod shapes;
fn main() {
    mc::explore::main(c10::scenarios);
}
