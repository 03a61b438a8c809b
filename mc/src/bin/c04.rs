// Generated by tools/gen_bins.py.
#![allow(dead_code, unused_imports)]
pub use mc::{engine, ensure, guard, num, Check};
#[path = "../checks/c04.rs"]
mod c04;
#[global_allocator]
static ALLOC: guard::Guard = guard::Guard;
fn main() {
    mc::main_with(c04::check(), None)
}
