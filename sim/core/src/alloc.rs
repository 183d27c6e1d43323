//! Counts the memory that the simulated process holds; what the harness and the simulator hold is left out.
use crate::sim::live;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Meter;
static HELD: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

fn change(n: i64) {
    if live() {
        let now = HELD.fetch_add(n, Relaxed) + n;
        if now > PEAK.load(Relaxed) {
            PEAK.store(now, Relaxed);
        }
    }
}
/// The most that was held at any time since the start.
pub fn peak() -> u64 {
    PEAK.load(Relaxed) as u64
}
pub fn restart() {
    HELD.store(0, Relaxed);
    PEAK.store(0, Relaxed);
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            change(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            change(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        change(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            change(n as i64 - l.size() as i64);
        }
        q
    }
}
