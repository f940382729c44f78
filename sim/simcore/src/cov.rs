//! Basic-block edges of the code under test: where it can be preempted, how much work it does, and
//! how much of it was reached. The compiler calls in here (see cov.sh) at every edge.
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize, Ordering::Relaxed};

thread_local! {
    /// edges taken by this thread
    static WORK: Cell<u64> = const { Cell::new(0) };
    /// edges until the next offer to switch; 0: never
    static LEFT: Cell<u32> = const { Cell::new(0) };
    /// what the gaps are drawn from, and their mean
    static GAPS: Cell<(u64, u32)> = const { Cell::new((0, 0)) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    /// the stack may grow down to here
    static FLOOR: Cell<usize> = const { Cell::new(0) };
    /// how far it grew
    static LOWEST: Cell<usize> = const { Cell::new(usize::MAX) };
}
static EDGES: AtomicU32 = AtomicU32::new(0);
/// one byte per edge, shared by all processes forked from here; null until `map`
static SEEN: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

/// Exit status used when one operation does more work than its budget.
pub const OVERWORK_EXIT: i32 = 98;
/// Exit status used when one operation needs more stack than its budget.
pub const DEEP_EXIT: i32 = 95;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    // SAFETY: the compiler's own table of guards
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            *p = EDGES.fetch_add(1, Relaxed) + 1;
            p = p.add(1);
        }
    }
}
static PCS: AtomicPtr<[usize; 2]> = AtomicPtr::new(std::ptr::null_mut());
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *mut [usize; 2], _stop: *mut [usize; 2]) {
    PCS.store(start, Relaxed);
}
/// (address, is the entry of a function) of an edge
pub fn pc(edge: usize) -> (usize, bool) {
    let p = PCS.load(Relaxed);
    if p.is_null() {
        return (0, false);
    }
    // SAFETY: the compiler's table has one entry per guard
    let [a, f] = unsafe { *p.add(edge - 1) };
    (a, f & 1 == 1)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let seen = SEEN.load(Relaxed);
    if !seen.is_null() {
        // SAFETY: the map has one byte per guard; racing writers all write 1
        unsafe { *seen.add(*guard as usize) = 1 }
    }
    let here = 0u8;
    let sp = std::hint::black_box(&raw const here) as usize;
    let _ = LOWEST.try_with(|l| {
        if sp < l.get() {
            l.set(sp);
            if sp < FLOOR.with(|f| f.get()) {
                FLOOR.with(|f| f.set(0));
                std::process::exit(DEEP_EXIT);
            }
        }
    });
    let _ = WORK.try_with(|w| {
        let n = w.get() + 1;
        w.set(n);
        if n > BUDGET.with(|b| b.get()) {
            BUDGET.with(|b| b.set(u64::MAX));
            std::process::exit(OVERWORK_EXIT);
        }
        if n & 0x3F_FFFF == 0 {
            crate::sched::rotate();
        }
    });
    let due = LEFT
        .try_with(|l| match l.get() {
            0 => false,
            1 => true,
            n => {
                l.set(n - 1);
                false
            }
        })
        .unwrap_or(false);
    if due {
        next_gap();
        if crate::alloc::yielding() {
            crate::sched::point("edge");
        }
    }
}
/// the program's writable static memory: what all threads share without asking
static STATICS: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
/// Find the static memory; accesses to it become scheduling points.
pub fn find_statics() {
    let Ok(exe) = std::env::current_exe() else { return };
    let exe = exe.to_string_lossy().into_owned();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let (mut lo, mut hi) = (0, 0);
    for l in maps.lines() {
        let mut f = l.split_whitespace();
        let (Some(range), Some(perm)) = (f.next(), f.next()) else { continue };
        let path = f.nth(3);
        let Some((a, b)) = range.split_once('-').and_then(|(a, b)| Some((usize::from_str_radix(a, 16).ok()?, usize::from_str_radix(b, 16).ok()?))) else { continue };
        if perm.starts_with("rw") && (path == Some(exe.as_str()) || path.is_none() && a == hi && hi != 0) {
            if lo == 0 {
                lo = a;
            }
            hi = b;
        }
    }
    STATICS[1].store(hi, Relaxed);
    STATICS[0].store(lo, Relaxed);
}
fn access(addr: usize) {
    if addr >= STATICS[1].load(Relaxed) || addr < STATICS[0].load(Relaxed) {
        return;
    }
    if GAPS.try_with(|g| g.get().1 != 0).unwrap_or(false) && crate::alloc::yielding() {
        crate::sched::point("static");
    }
}
macro_rules! accesses {
    ($($n:ident)*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $n(p: *const u8) {
            access(p as usize)
        }
    )*};
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
fn next_gap() {
    GAPS.with(|g| {
        let (mut s, mean) = g.get();
        if mean == 0 {
            LEFT.with(|l| l.set(0));
            return;
        }
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut x = s;
        x = (x ^ x >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ x >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^= x >> 31;
        g.set((s, mean));
        LEFT.with(|l| l.set(1 + (x % (2 * mean as u64)) as u32));
    })
}
/// From here on this thread offers to switch about every `mean` edges; 0: never.
pub fn preempt(seed: u64, mean: u32) {
    GAPS.with(|g| g.set((seed, mean)));
    next_gap();
}
/// Edges taken by this thread so far.
pub fn work() -> u64 {
    WORK.with(|w| w.get())
}
/// Run `f`; the process ends when it takes more edges than this. Returns the edges taken.
pub fn budget<R>(limit: u64, f: impl FnOnce() -> R) -> (R, u64) {
    struct Reset(u64);
    impl Drop for Reset {
        fn drop(&mut self) {
            BUDGET.with(|l| l.set(self.0));
        }
    }
    let before = work();
    let r = Reset(BUDGET.with(|b| b.replace(before.saturating_add(limit))));
    let out = f();
    drop(r);
    (out, work() - before)
}
/// Run `f`; the process ends when it takes more stack than this. Returns the stack taken.
pub fn stack<R>(limit: usize, f: impl FnOnce() -> R) -> (R, usize) {
    struct Reset(usize, usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            FLOOR.with(|l| l.set(self.0));
            LOWEST.with(|l| l.set(self.1.min(l.get())));
        }
    }
    let here = 0u8;
    let top = std::hint::black_box(&raw const here) as usize;
    let r = Reset(FLOOR.with(|b| b.replace(top.saturating_sub(limit))), LOWEST.with(|l| l.replace(usize::MAX)));
    let out = f();
    let low = LOWEST.with(|l| l.get());
    drop(r);
    (out, top.saturating_sub(low))
}
/// Remember edges in this memory (`edges()` + 1 bytes), which outlives everything.
pub fn map(p: *mut u8) {
    SEEN.store(p, Relaxed);
}
pub fn edges() -> usize {
    EDGES.load(Relaxed) as usize
}
