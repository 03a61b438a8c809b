// Generated by tools/gen_bins.py.
#![allow(dead_code, unused_imports)]
pub use mc::{engine, ensure, guard, num, Check};
#[path = "../checks/c01.rs"]
mod c01;
#[path = "../checks/c02.rs"]
mod c02;
#[path = "../checks/c03.rs"]
mod c03;
#[global_allocator]
static ALLOC: guard::Guard = guard::Guard;
fn main() {
    mc::main_with(c03::check(), None)
}
