//! Allocator wrapper: the largest single request a thread has made since the last reset.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
pub struct Watch;
fn note(n: usize) {
    let _ = LARGEST.try_with(|l| {
        if n > l.get() {
            l.set(n)
        }
    });
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        unsafe { System.realloc(p, l, n) }
    }
}
pub fn reset() {
    LARGEST.with(|l| l.set(0))
}
pub fn largest() -> usize {
    LARGEST.with(|l| l.get())
}
