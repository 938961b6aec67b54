//! C25 without a number type of its own: allocations and waits are the scheduling points.
use mc::conc::explore_all;
use mc::engine::*;
use mc::sched::{self, point};
use renplex::math::cfloat::{Cf32, Cf64};
use std::alloc::{GlobalAlloc, Layout, System};

struct Alloc;
unsafe impl GlobalAlloc for Alloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { point(); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { point(); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 { sched::syscall_hook(n, a, b, c, d, e, f) }

fn main() {
  run("C25", &["thread-safe block functions", "preemptions at allocations and waits", "sequentially consistent memory"], |r| {
    explore_all::<Cf64>(r, true);
    explore_all::<Cf32>(r, false);
  });
}
