//! Allocator seam: counts, bounds and (when asked) offers a scheduling point per allocation.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static YIELD: Cell<bool> = const { Cell::new(false) };
    static IN: Cell<bool> = const { Cell::new(false) };
}

pub struct SimAlloc;

/// Exit status used when one operation claims more memory than its budget.
pub const RUNAWAY_EXIT: i32 = 97;

fn note(size: usize) {
    let _ = BYTES.try_with(|b| {
        let n = b.get().wrapping_add(size as u64);
        b.set(n);
        let over = LIMIT.try_with(|l| n > l.get()).unwrap_or(false);
        if over {
            let _ = LIMIT.try_with(|l| l.set(u64::MAX));
            std::process::exit(RUNAWAY_EXIT);
        }
    });
    let _ = COUNT.try_with(|c| c.set(c.get().wrapping_add(1)));
    let y = YIELD.try_with(|y| y.get()).unwrap_or(false);
    if y {
        let busy = IN.try_with(|i| i.replace(true)).unwrap_or(true);
        if !busy {
            crate::sched::point("alloc");
            let _ = IN.try_with(|i| i.set(false));
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Run `f` with an allocation budget; returns (result, bytes allocated).
pub fn budget<R>(limit: u64, f: impl FnOnce() -> R) -> (R, u64) {
    struct Reset(u64);
    impl Drop for Reset {
        fn drop(&mut self) {
            LIMIT.with(|l| l.set(self.0));
        }
    }
    let before = BYTES.with(|b| b.get());
    let old = LIMIT.with(|l| l.replace(before.saturating_add(limit)));
    let r = Reset(old);
    let out = f();
    drop(r);
    (out, BYTES.with(|b| b.get()) - before)
}
/// May this thread be preempted here?
pub fn yielding() -> bool {
    YIELD.try_with(|y| y.get()).unwrap_or(false)
}
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
/// Offer scheduling points inside allocations of this thread while `f` runs.
pub fn with_yields<R>(on: bool, f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            YIELD.with(|l| l.set(self.0));
        }
    }
    let _r = Reset(YIELD.with(|y| y.replace(on)));
    f()
}
/// Simulator bookkeeping must not be a scheduling point.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    with_yields(false, f)
}
