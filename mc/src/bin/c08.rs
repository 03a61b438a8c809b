// Generated by tools/gen_bins.py.
#![allow(dead_code, unused_imports)]
pub use mc::{engine, ensure, guard, num, Check};
#[path = "../checks/c01.rs"]
mod c01;
#[path = "../checks/c07.rs"]
mod c07;
#[path = "../checks/c08.rs"]
mod c08;
#[path = "../checks/design.rs"]
mod design;
#[global_allocator]
static ALLOC: guard::Guard = guard::Guard;
fn main() {
    mc::main_with(c08::check(), None)
}
