// Generated by tools/gen_bins.py.
#![allow(dead_code, unused_imports)]
pub use mc::{engine, ensure, guard, num, Check};
#[path = "../checks/c01.rs"]
mod c01;
#[path = "../checks/c19.rs"]
mod c19;
#[path = "../checks/c20.rs"]
mod c20;
#[path = "../checks/c27.rs"]
mod c27;
#[global_allocator]
static ALLOC: guard::Guard = guard::Guard;
fn main() {
    mc::main_with(c27::check(), None)
}
