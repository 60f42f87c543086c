#[path = "../props/c11.rs"]
mod c11;
#[path = "../props/shapes.rs"]
mod shapes;
fn main() {
    mc::explore::main(c11::scenarios);
}
