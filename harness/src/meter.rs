//! Measures the work of one thread: bytes allocated and CPU time.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! { static BYTES: Cell<u64> = const { Cell::new(0) }; }

pub struct Counting;

fn add(n: usize) {
  let _ = BYTES.try_with(|b| b.set(b.get().wrapping_add(n as u64)));
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    add(l.size());
    System.alloc(l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    add(l.size());
    System.alloc_zeroed(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    add(n);
    System.realloc(p, l, n)
  }
}

/// Bytes requested by this thread so far.
pub fn allocated() -> u64 {
  BYTES.with(|b| b.get())
}

#[repr(C)]
struct Timespec {
  s: i64,
  ns: i64,
}

extern "C" {
  fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}

/// CPU time of this thread in microseconds (CLOCK_THREAD_CPUTIME_ID).
pub fn cpu_us() -> u64 {
  let mut t = Timespec { s: 0, ns: 0 };
  unsafe { clock_gettime(3, &mut t) };
  t.s as u64 * 1_000_000 + t.ns as u64 / 1000
}
