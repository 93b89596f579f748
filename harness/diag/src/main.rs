include!("all.rs");
fn main() {
    vx::main(HARNESSES)
}
