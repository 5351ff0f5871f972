//! Scheduling points inside straight code. In the instrumented build of gpf and the simulator the
//! compiler calls these functions at every edge of the control flow and at every load and store;
//! this crate itself is not instrumented. Without instrumentation nothing calls them.
#![feature(thread_local)]
use std::cell::Cell;

/// points until the next call of `MEET`; 0 = off
#[thread_local]
static LEFT: Cell<u64> = Cell::new(0);
#[thread_local]
static MEET: Cell<Option<fn() -> u64>> = Cell::new(None);
#[thread_local]
static SEEN: Cell<u64> = Cell::new(0);

/// From now on `f` is called on this thread after `n` points; it returns the next `n` (0 = stop).
pub fn arm(n: u64, f: fn() -> u64) {
    MEET.set(Some(f));
    LEFT.set(n);
}
pub fn disarm() -> u64 {
    LEFT.set(0);
    MEET.set(None);
    SEEN.replace(0)
}

/// No points until `resume`.
pub fn pause() -> u64 {
    LEFT.replace(0)
}
pub fn resume(n: u64) {
    if MEET.get().is_some() {
        LEFT.set(n);
    }
}

#[inline(always)]
fn point() {
    let n = LEFT.get();
    if n == 0 {
        return;
    }
    SEEN.set(SEEN.get() + 1);
    if n > 1 {
        LEFT.set(n - 1);
        return;
    }
    meet();
}

#[cold]
#[inline(never)]
fn meet() {
    // no points while the scheduler runs
    LEFT.set(0);
    if let Some(f) = MEET.get() {
        let n = f();
        if MEET.get().is_some() {
            LEFT.set(n);
        }
    }
}

macro_rules! points {
    ($($n:ident($($a:ident: $t:ty),*);)*) => {
        $(#[no_mangle] pub extern "C" fn $n($($a: $t),*) { $(let _ = $a;)* point(); })*
    };
}
points! {
    __sanitizer_cov_trace_pc_guard(g: *mut u32);
    __sanitizer_cov_load1(p: *const u8);
    __sanitizer_cov_load2(p: *const u8);
    __sanitizer_cov_load4(p: *const u8);
    __sanitizer_cov_load8(p: *const u8);
    __sanitizer_cov_load16(p: *const u8);
    __sanitizer_cov_store1(p: *const u8);
    __sanitizer_cov_store2(p: *const u8);
    __sanitizer_cov_store4(p: *const u8);
    __sanitizer_cov_store8(p: *const u8);
    __sanitizer_cov_store16(p: *const u8);
}

use std::sync::atomic::{AtomicU64, Ordering};
static EDGES: AtomicU64 = AtomicU64::new(0);
/// number of instrumented edges linked in (0: not the instrumented build)
pub fn edges() -> u64 {
    EDGES.load(Ordering::Relaxed)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    EDGES.fetch_add((b as u64 - a as u64) / 4, Ordering::Relaxed);
}
