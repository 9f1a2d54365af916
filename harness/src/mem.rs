//! Counts what each thread has allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = NOW.try_with(|now| {
        let v = now.get() + n;
        now.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // counted as both being there at once
        add(n as isize);
        let r = System.realloc(p, l, n);
        add(-(l.size() as isize));
        r
    }
}

/// The most this thread held at once while `f` ran, above what it held before.
pub fn peak<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let before = NOW.with(|n| n.get());
    let outer = PEAK.with(|p| p.replace(before));
    let r = f();
    let top = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(outer.max(top)));
    (r, (top - before).max(0) as usize)
}
