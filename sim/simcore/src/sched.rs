//! The scheduler. Tasks are OS threads, but only the holder of the baton runs; who gets it next is
//! decided here, from the seed or from a recorded list of decisions.
//!
//! Locks inside the code under test and its libraries end in the futex system call. `syscall` is
//! interposed: a holder about to sleep on a futex is a blocked task, a wake makes the longest waiting
//! task ready, and both are events of the simulation. Nothing depends on real time.
use crate::rng::Rng;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub const DEADLOCK_EXIT: i32 = 96;

#[derive(Clone, Debug)]
pub enum Chooser {
    /// switch with probability num/den at each point
    Seed { seed: u64, num: usize, den: usize },
    /// (point number, task) deviations from "keep running; on end lowest ready task"
    List(Vec<(u32, u8)>),
}
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub points: u32,
    pub switches: u32,
    pub blocked: u32,
    pub decisions: Vec<(u32, u8)>,
    /// hash over (point, from, to) of all switches
    pub shape: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// asleep on this futex since the given wait; timed waits may end on their own
    Blocked { addr: usize, since: u64, timed: bool },
    Done,
}
enum Pick {
    Rng(Rng, usize, usize),
    List(BTreeMap<u32, u8>),
}
struct State {
    current: usize,
    st: Vec<St>,
    waits: u64,
    timeouts: u64,
    started: usize,
    pick: Pick,
    rep: Report,
    limit: u32,
    done: bool,
}
struct Shared {
    m: Mutex<State>,
    cv: Vec<Condvar>,
    main: Condvar,
}
struct TaskCtx {
    sh: Arc<Shared>,
    me: usize,
}
thread_local! {
    static CUR: Cell<*const TaskCtx> = const { Cell::new(std::ptr::null()) };
    static IN_POINT: Cell<bool> = const { Cell::new(false) };
}

/// A scheduling point. Free when no simulated task runs on this thread.
pub fn point(label: &'static str) {
    let p = match CUR.try_with(|c| c.get()) {
        Ok(p) if !p.is_null() => p,
        _ => return,
    };
    if IN_POINT.with(|c| c.replace(true)) {
        return;
    }
    // SAFETY: the context outlives the task body running on this thread.
    let t = unsafe { &*p };
    let mut g = t.sh.m.lock().unwrap_or_else(|e| e.into_inner());
    g.rep.points += 1;
    let n = g.rep.points;
    if n < g.limit {
        let next = choose(&mut g, t.me, false, label == "static");
        if next != t.me {
            hand_over(t, &mut g, next);
            g = wait_for(t, g);
        }
    }
    drop(g);
    IN_POINT.with(|c| c.set(false));
}

/// The running task has kept the processor for very long: it may be waiting, spinning, for another one.
pub fn rotate() {
    let Some(t) = running() else { return };
    IN_POINT.with(|c| c.set(true));
    let mut g = t.sh.m.lock().unwrap_or_else(|e| e.into_inner());
    let n = g.st.len();
    if let Some(next) = (1..n).map(|i| (t.me + i) % n).find(|i| g.st[*i] == St::Ready) {
        g.rep.points += 1;
        hand_over(t, &mut g, next);
        g = wait_for(t, g);
    }
    drop(g);
    IN_POINT.with(|c| c.set(false));
}

fn hand_over(t: &TaskCtx, g: &mut MutexGuard<'_, State>, next: usize) {
    let (p, from) = (g.rep.points, t.me);
    g.rep.switches += 1;
    g.rep.shape = (g.rep.shape ^ ((p as u64) << 16 | (from as u64) << 8 | next as u64)).wrapping_mul(0x100_0000_01b3).rotate_left(5);
    g.current = next;
    t.sh.cv[next].notify_one();
}
fn wait_for<'a>(t: &'a TaskCtx, mut g: MutexGuard<'a, State>) -> MutexGuard<'a, State> {
    while g.current != t.me {
        g = t.sh.cv[t.me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
    g
}
fn choose(g: &mut MutexGuard<'_, State>, me: usize, ended: bool, shared: bool) -> usize {
    let ready: Vec<usize> = (0..g.st.len()).filter(|i| g.st[*i] == St::Ready).collect();
    let n = g.rep.points;
    let default = if ended { ready.first().copied().unwrap_or(usize::MAX) } else { me };
    if ready.is_empty() {
        return default;
    }
    let pick = match &mut g.pick {
        Pick::Rng(r, num, den) => {
            // where threads touch the same memory, a switch is worth the most
            if ended || r.chance(*num, *den) || shared && r.chance(1, 3) {
                ready[r.below(ready.len())]
            } else {
                default
            }
        }
        Pick::List(l) => match l.get(&n) {
            Some(t) if ready.contains(&(*t as usize)) => *t as usize,
            _ => default,
        },
    };
    if pick != default {
        g.rep.decisions.push((n, pick as u8));
    }
    pick
}

/// No task is ready: a timed wait ends by its timeout, or nothing can proceed any more.
fn expire(g: &mut MutexGuard<'_, State>) -> usize {
    let timed = (0..g.st.len()).filter_map(|i| match g.st[i] {
        St::Blocked { since, timed: true, .. } => Some((since, i)),
        _ => None,
    });
    match timed.min() {
        Some((_, i)) => {
            g.st[i] = St::Ready;
            g.timeouts |= 1 << i;
            i
        }
        None => {
            eprintln!("DEADLOCK: no task can proceed");
            std::process::exit(DEADLOCK_EXIT);
        }
    }
}
fn running() -> Option<&'static TaskCtx> {
    match CUR.try_with(|c| c.get()) {
        // SAFETY: the context outlives the task body running on this thread.
        Ok(p) if !p.is_null() && !IN_POINT.with(|c| c.get()) => Some(unsafe { &*p }),
        _ => None,
    }
}
enum Woken {
    Yes,
    Changed,
    TimedOut,
}
fn futex_wait(t: &TaskCtx, addr: *const AtomicU32, expected: u32, timed: bool) -> Woken {
    // SAFETY: the caller waits on this word, so it is valid for the whole call.
    if unsafe { &*addr }.load(SeqCst) != expected {
        return Woken::Changed;
    }
    IN_POINT.with(|c| c.set(true));
    let mut g = t.sh.m.lock().unwrap_or_else(|e| e.into_inner());
    g.waits += 1;
    g.rep.points += 1;
    g.rep.blocked += 1;
    g.st[t.me] = St::Blocked { addr: addr as usize, since: g.waits, timed };
    let mut next = choose(&mut g, t.me, true, false);
    if next == usize::MAX {
        next = expire(&mut g);
    }
    if next != t.me {
        hand_over(t, &mut g, next);
        g = wait_for(t, g);
    }
    let late = g.timeouts & (1 << t.me) != 0;
    g.timeouts &= !(1 << t.me);
    drop(g);
    IN_POINT.with(|c| c.set(false));
    if late { Woken::TimedOut } else { Woken::Yes }
}
fn futex_wake(t: &TaskCtx, addr: usize, count: usize) -> usize {
    IN_POINT.with(|c| c.set(true));
    let mut g = t.sh.m.lock().unwrap_or_else(|e| e.into_inner());
    let mut n = 0;
    while n < count {
        let first = (0..g.st.len())
            .filter_map(|i| match g.st[i] {
                St::Blocked { addr: a, since, .. } if a == addr => Some((since, i)),
                _ => None,
            })
            .min();
        let Some((_, i)) = first else { break };
        g.st[i] = St::Ready;
        n += 1;
    }
    drop(g);
    IN_POINT.with(|c| c.set(false));
    n
}

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    // SAFETY: passes a system call through unchanged.
    unsafe {
        core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
fn errno(code: i32) -> i64 {
    unsafe extern "C" {
        fn __errno_location() -> *mut i32;
    }
    // SAFETY: the C library's thread-local error number.
    unsafe { *__errno_location() = code };
    -1
}
const FUTEX: i64 = 202;
const EAGAIN: i32 = 11;
const ETIMEDOUT: i32 = 110;

/// The only thread of this process runs the code under test: whoever sleeps on a lock sleeps for good.
pub fn on_my_own(yes: bool) {
    LONE.with(|l| l.set(yes));
}
thread_local! { static LONE: Cell<bool> = const { Cell::new(false) }; }

/// Every futex operation of std's and the libraries' locks comes through here.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == FUTEX {
        if let Some(t) = running() {
            match b & 0x7f & !0x80 {
                0 | 9 => {
                    return match futex_wait(t, a as *const AtomicU32, c as u32, d != 0) {
                        Woken::Yes => 0,
                        Woken::Changed => errno(EAGAIN),
                        Woken::TimedOut => errno(ETIMEDOUT),
                    };
                }
                1 | 10 => {
                    let woken = futex_wake(t, a, c & 0x7fff_ffff);
                    let rest = (c & 0x7fff_ffff).saturating_sub(woken);
                    // threads outside the simulation may wait too
                    // SAFETY: the caller's own arguments.
                    let more = if rest > 0 { unsafe { raw(n, a, b, rest, d, e, f) }.max(0) } else { 0 };
                    return woken as i64 + more as i64;
                }
                _ => {}
            }
        } else if matches!(b & 0x7f & !0x80, 0 | 9) && LONE.try_with(|l| l.get()).unwrap_or(false) {
            // SAFETY: the caller waits on this word, so it is valid for the whole call.
            if unsafe { &*(a as *const AtomicU32) }.load(SeqCst) != c as u32 {
                return errno(EAGAIN);
            }
            if d != 0 {
                return errno(ETIMEDOUT);
            }
            eprintln!("DEADLOCK: no task can proceed");
            std::process::exit(DEADLOCK_EXIT);
        }
    }
    // SAFETY: the caller's own arguments.
    let r = unsafe { raw(n, a, b, c, d, e, f) };
    if r < 0 && r > -4096 { errno(-r as i32) } else { r as i64 }
}
/// A spinning task gives way.
#[unsafe(no_mangle)]
pub extern "C" fn sched_yield() -> i32 {
    if running().is_some() {
        point("yield");
    } else {
        // SAFETY: no arguments.
        unsafe { raw(24, 0, 0, 0, 0, 0, 0) };
    }
    0
}

pub type Task = Box<dyn FnOnce() + Send + 'static>;

/// Run the tasks to completion under the chooser. `limit`: after this many points no more switches.
pub fn run_tasks(tasks: Vec<Task>, chooser: &Chooser, limit: u32) -> Report {
    let n = tasks.len();
    if n == 0 {
        return Report::default();
    }
    let sh = Arc::new(Shared {
        m: Mutex::new(State {
            current: usize::MAX,
            st: vec![St::Ready; n],
            waits: 0,
            timeouts: 0,
            started: 0,
            pick: match chooser {
                Chooser::Seed { seed, num, den } => Pick::Rng(Rng::new(*seed), *num, *den),
                Chooser::List(l) => Pick::List(l.iter().copied().collect()),
            },
            rep: Report::default(),
            limit,
            done: false,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        main: Condvar::new(),
    });
    let mut hs = Vec::new();
    for (me, body) in tasks.into_iter().enumerate() {
        let sh = sh.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    let ctx = Box::new(TaskCtx { sh: sh.clone(), me });
                    {
                        let mut g = sh.m.lock().unwrap_or_else(|e| e.into_inner());
                        g.started += 1;
                        sh.main.notify_one();
                        let _g = wait_for(&ctx, g);
                    }
                    CUR.with(|c| c.set(&*ctx));
                    body();
                    // end of task: must hold the baton to end deterministically
                    IN_POINT.with(|c| c.set(true));
                    let mut g = sh.m.lock().unwrap_or_else(|e| e.into_inner());
                    CUR.with(|c| c.set(std::ptr::null()));
                    g.rep.points += 1;
                    g.st[me] = St::Done;
                    let next = choose(&mut g, me, true, false);
                    if next != usize::MAX {
                        hand_over(&ctx, &mut g, next);
                    } else if g.st.iter().all(|s| *s == St::Done) {
                        g.done = true;
                        sh.main.notify_one();
                    } else {
                        let next = expire(&mut g);
                        hand_over(&ctx, &mut g, next);
                    }
                })
                .expect("spawn"),
        );
    }
    let mut g = sh.m.lock().unwrap_or_else(|e| e.into_inner());
    while g.started < n {
        g = sh.main.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    let first = choose(&mut g, 0, true, false);
    g.current = first;
    sh.cv[first].notify_one();
    while !g.done {
        g = sh.main.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    let rep = g.rep.clone();
    drop(g);
    for h in hs {
        let _ = h.join();
    }
    rep
}

/// Is a simulated task running on this thread?
pub fn active() -> bool {
    CUR.try_with(|c| !c.get().is_null()).unwrap_or(false)
}
