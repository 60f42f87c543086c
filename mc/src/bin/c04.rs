#[path = "../props/c04.rs"]
mod c04;
#[path = "../props/shapes.rs"]
mod shapes;
fn main() {
    mc::explore::main(c04::scenarios);
}
