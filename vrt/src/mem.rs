//! Counts heap blocks, so memory that is never given back is noticed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LEAKED: Cell<i64> = const { Cell::new(0) };
}

struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// Blocks allocated by this thread and not yet freed, without those the
/// generators leak on purpose.
pub fn live() -> i64 {
    LIVE.with(|c| c.get()) - LEAKED.with(|c| c.get())
}

/// Runs a generator whose blocks are leaked on purpose.
pub fn leaking<R>(f: impl FnOnce() -> R) -> R {
    let before = live();
    let r = f();
    let d = live() - before;
    LEAKED.with(|c| c.set(c.get() + d));
    r
}
