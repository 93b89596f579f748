#![allow(dead_code)]
include!("all.rs");
fn main() {
    vx::main(HARNESSES)
}
