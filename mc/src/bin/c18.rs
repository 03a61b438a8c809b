// Generated by tools/gen_bins.py.
#![allow(dead_code, unused_imports)]
pub use mc::{engine, ensure, guard, num, Check};
#[path = "../checks/c17.rs"]
mod c17;
#[path = "../checks/c18.rs"]
mod c18;
#[path = "../checks/c18_table.rs"]
mod c18_table;
#[global_allocator]
static ALLOC: guard::Guard = guard::Guard;
fn main() {
    mc::main_with(c18::check(), None)
}
