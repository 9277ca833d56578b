//! Counting allocator: per-thread counts of allocations and live/peak bytes, and a hard budget.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BUDGET: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = BUDGET.try_with(|b| {
            if v > b.get() {
                // Report from here: unwinding out of an allocator is not allowed.
                b.set(i64::MAX);
                crate::harness::emergency(
                    "runaway memory: live heap of the case exceeded its budget",
                );
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        let _ = BYTES.try_with(|a| a.set(a.get() + l.size() as u64));
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        let _ = BYTES.try_with(|a| a.set(a.get() + n as u64));
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}
/// The bytes ever allocated (all of them again when a block is resized).
pub fn bytes() -> u64 {
    BYTES.with(|a| a.get())
}
pub fn live() -> i64 {
    LIVE.with(|a| a.get())
}
pub fn peak() -> i64 {
    PEAK.with(|a| a.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())))
}
pub fn set_budget(bytes_above_now: i64) {
    let now = live();
    BUDGET.with(|b| b.set(now.saturating_add(bytes_above_now)));
}
pub fn clear_budget() {
    BUDGET.with(|b| b.set(i64::MAX));
}
