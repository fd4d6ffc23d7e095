//! Counting allocator: refuses to exceed a budget and records the peak.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
const LIMIT: usize = 2 << 30;

fn add(n: usize) -> bool {
    let c = CUR.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(c, Relaxed);
    c <= LIMIT
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            CUR.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !add(n - l.size()) {
            CUR.fetch_sub(n - l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        if n < l.size() {
            CUR.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

pub fn mark() -> usize {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    c
}
pub fn peak_since(mark: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(mark)
}
