//! Allocation metering: the largest single request and the most held at once.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub static BIGGEST: AtomicUsize = AtomicUsize::new(0);
struct Meter;
fn note(n: usize) {
    if n > BIGGEST.load(Relaxed) {
        BIGGEST.store(n, Relaxed);
    }
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Meter = Meter;
pub fn biggest() -> usize {
    BIGGEST.load(Relaxed)
}
