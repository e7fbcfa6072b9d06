//! Counting allocator: memory held and peak per thread, and a cap while the implementation runs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CAP: Cell<isize> = const { Cell::new(isize::MAX) };
    static HIT: Cell<bool> = const { Cell::new(false) };
    /// After so many allocator calls the hook runs once (0: never).
    static COUNTDOWN: Cell<u64> = const { Cell::new(0) };
    static HOOK: Cell<fn()> = const { Cell::new(nothing) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn nothing() {}

/// Lets `f` run at this thread's `n`-th allocator call from now on.
pub fn schedule(n: u64, f: fn()) {
    HOOK.with(|h| h.set(f));
    COUNTDOWN.with(|c| c.set(n));
}
/// Allocator calls of this thread so far.
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}

#[inline]
fn add(n: isize) -> bool {
    let _ = COUNTDOWN.try_with(|c| {
        CALLS.with(|c| c.set(c.get() + 1));
        match c.get() {
            0 => (),
            1 => {
                c.set(0);
                HOOK.with(|h| h.get())()
            }
            n => c.set(n - 1),
        }
    });
    CUR.try_with(|c| {
        let v = c.get() + n;
        if n > 0 && v > CAP.with(|c| c.get()) {
            HIT.with(|h| h.set(true));
            return false;
        }
        c.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // Counted as if old and new block existed at the same time, as they may.
        if !add(new as isize) {
            return std::ptr::null_mut();
        }
        add(-(l.size() as isize));
        unsafe { System.realloc(p, l, new) }
    }
}

/// Runs `f` and returns the peak of memory it held in addition to what was held before.
pub fn measure<T>(cap: usize, f: impl FnOnce() -> T) -> (T, usize) {
    let start = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(start));
    CAP.with(|c| c.set(start + cap as isize));
    let r = f();
    CAP.with(|c| c.set(isize::MAX));
    (r, (PEAK.with(|p| p.get()) - start) as usize)
}
