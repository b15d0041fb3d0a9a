//! Counts the memory in use by the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn note(d: isize) {
    let _ = NOW.try_with(|n| {
        let v = n.get() + d;
        n.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both copies may exist for a moment
        note(n as isize);
        let rv = System.realloc(p, l, n);
        note(-(l.size() as isize));
        rv
    }
}

/// Largest amount of memory f had in use beyond what was in use before
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = NOW.with(|n| n.get());
    PEAK.with(|p| p.set(base));
    let rv = f();
    let top = PEAK.with(|p| p.get());
    (rv, (top - base).max(0) as usize)
}
