//! Executing a plan in a process of its own.
use crate::acts::{self, Cx, Index, Stats};
use crate::plan::*;
use crate::proc::{End, Progress, isolated};
use kit::simcore::sched::{self, Chooser, Task};
use kit::simcore::{LogHash, alloc, cov};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct BadOut {
    pub task: usize,
    pub op: usize,
    pub class: String,
    pub msg: String,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunOut {
    pub hash: u64,
    pub bads: Vec<BadOut>,
    pub counts: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub points: u32,
    pub switches: u32,
    pub blocked: u32,
    pub shape: u64,
    pub decisions: Vec<(u32, u8)>,
    pub lines: Vec<String>,
}
/// CPU seconds a whole run may take
pub const CPU_S: u64 = 25;
/// real seconds after which a run that does not even use the CPU is given up
pub const WALL_S: u32 = 75;
const MAX_POINTS: u32 = 400_000;

fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
/// the outcome an operation has in a process that has done nothing else
fn solo(ix: &Index, sub: &str, how: &crate::how::How, show: Option<Show>, id: u64) -> String {
    let (v, e) = isolated(CPU_S, || {
        // SAFETY: plain libc call
        unsafe { libc::alarm(WALL_S) };
        sched::on_my_own(true);
        let st = Stats::default();
        let cx = Cx { ix, st: &st, id, yields: false, alone: None };
        match ix.get(sub) {
            Some(s) => acts::alone(&cx, s, &Act::Alone { how: how.clone(), inside: None, show: show.clone() }).into_bytes(),
            None => vec![],
        }
    });
    match e {
        End::Exit(0) => String::from_utf8_lossy(&v).into_owned(),
        e => format!("died alone: {e:?}"),
    }
}
fn baselines(ix: &Index, p: &Plan) -> Vec<Vec<Vec<String>>> {
    let mut memo: BTreeMap<String, String> = BTreeMap::new();
    let mut get = |sub: &str, how: &crate::how::How, show: Option<Show>, id: u64| -> String {
        let k = format!("{sub}|{id}|{how:?}|{show:?}");
        if let Some(v) = memo.get(&k) {
            return v.clone();
        }
        let v = solo(ix, sub, how, show, id);
        memo.insert(k, v.clone());
        v
    };
    p.tasks
        .iter()
        .map(|t| {
            t.iter()
                .map(|o| match &o.act {
                    Act::Alone { how, inside, show } => {
                        let calm = show.as_ref().map(|x| Show { nest: None, ..x.clone() });
                        let mut v = vec![get(&o.sub, how, calm, o.id)];
                        if let Some((n, h)) = inside {
                            let b = get(n, h, None, o.id ^ 0x5A5A);
                            v.push(format!("{}; inside it: {b}", v[0]));
                        }
                        if let Some(Show { nest: Some((_, n, h)), .. }) = show {
                            let b = get(n, h, Some(acts::PLAIN), o.id ^ 0xA5A5);
                            let more: Vec<String> = v.iter().map(|x| format!("{x}; inside its rendering: {b}")).collect();
                            v.extend(more);
                        }
                        v
                    }
                    _ => vec![],
                })
                .collect()
        })
        .collect()
}
/// Execute in this process.
pub fn here(ix: &'static Index, p: &Plan, pr: &'static Progress, keep_lines: bool) -> RunOut {
    let plan: &'static Plan = leak(p.clone());
    let alone: &'static Vec<Vec<Vec<String>>> = leak(if plan.property == "C10" { baselines(ix, plan) } else { vec![] });
    let st: &'static Stats = leak(Stats::default());
    type Log = Mutex<(Vec<(usize, usize)>, Vec<Vec<String>>, Vec<BadOut>)>;
    let log: &'static Log = leak(Mutex::new((vec![], vec![vec![]; plan.tasks.len()], vec![])));
    let yields = plan.sched != Sched::Inline;
    let body = move |k: usize| {
        if let (true, Some((seed, mean))) = (yields, plan.edges) {
            cov::preempt(seed ^ (k as u64 + 1).wrapping_mul(0x9E37_79B9), mean);
        }
        for (i, op) in plan.tasks[k].iter().enumerate() {
            pr.set(k, i as u32 + 1);
            let want = alone.get(k).and_then(|v| v.get(i)).filter(|v| !v.is_empty()).map(|v| v.as_slice());
            let cx = Cx { ix, st, id: op.id, yields, alone: want };
            // operations catch what the code under test does; this is for the harness itself
            let done = catch_unwind(AssertUnwindSafe(|| acts::exec(&cx, op)));
            alloc::quiet(|| {
                let mut g = log.lock().unwrap_or_else(|e| e.into_inner());
                g.0.push((k, i));
                match done {
                    Ok(d) => {
                        g.1[k].push(d.line);
                        if let Some(b) = d.bad {
                            g.2.push(BadOut { task: k, op: i, class: b.class, msg: b.msg });
                        }
                    }
                    Err(e) => {
                        let t = crate::how::panic_text(e);
                        g.2.push(BadOut { task: k, op: i, class: "panic outside of a delivery".into(), msg: format!("{} {}: {t}", op.sub, op.act.name()) });
                    }
                }
            });
            sched::point("op");
        }
        pr.set(k, 0);
    };
    let rep = match &plan.sched {
        Sched::Inline => {
            sched::on_my_own(true);
            (0..plan.tasks.len()).for_each(body);
            sched::on_my_own(false);
            sched::Report::default()
        }
        s => {
            let tasks: Vec<Task> = (0..plan.tasks.len()).map(|k| Box::new(move || body(k)) as Task).collect();
            let ch = match s {
                Sched::Seed { seed, num, den } => Chooser::Seed { seed: *seed, num: *num, den: *den },
                Sched::List(l) => Chooser::List(l.clone()),
                Sched::Inline => unreachable!(),
            };
            sched::run_tasks(tasks, &ch, MAX_POINTS)
        }
    };
    let mut g = log.lock().unwrap_or_else(|e| e.into_inner());
    let mut h = LogHash::default();
    for (k, i) in &g.0 {
        h.add(&format!("{k}.{i}"));
    }
    for t in &g.1 {
        for l in t {
            h.add(l);
        }
    }
    h.add(&format!("{:x}", rep.shape));
    let (counts, states) = st.snapshot();
    RunOut {
        hash: h.0,
        bads: std::mem::take(&mut g.2),
        counts,
        states: states.into_iter().collect(),
        points: rep.points,
        switches: rep.switches,
        blocked: rep.blocked,
        shape: rep.shape,
        decisions: if keep_lines { rep.decisions } else { vec![] },
        lines: if keep_lines { g.1.iter().enumerate().flat_map(|(k, v)| v.iter().map(move |l| format!("task {k}: {l}"))).collect() } else { vec![] },
    }
}
/// Execute in a fresh process; a death is an outcome.
pub fn forked(ix: &'static Index, p: &Plan, pr: &'static Progress, keep_lines: bool) -> RunOut {
    pr.clear();
    let (v, e) = isolated(CPU_S, || {
        // SAFETY: plain libc call
        unsafe { libc::alarm(WALL_S) };
        crate::proc::randomness(p.seed | 1);
        serde_json::to_vec(&here(ix, p, pr, keep_lines)).unwrap_or_default()
    });
    let why = match &e {
        End::Exit(0) => match serde_json::from_slice(&v) {
            Ok(o) => return o,
            Err(x) => format!("broken report: {x}"),
        },
        End::Exit(sched::DEADLOCK_EXIT) => "deadlock: no validation can proceed".into(),
        End::Exit(cov::OVERWORK_EXIT) => "works out of proportion to the payload".into(),
        End::Exit(cov::DEEP_EXIT) => "needs stack out of proportion to the payload".into(),
        End::Exit(alloc::RUNAWAY_EXIT) => "claims memory out of proportion to the payload".into(),
        End::Exit(n) => format!("the process exited with {n}"),
        End::Signal(libc::SIGXCPU) | End::Signal(libc::SIGKILL) => "computes without end".into(),
        End::Signal(libc::SIGALRM) => "waits without end".into(),
        End::Signal(libc::SIGSEGV) => "memory fault or stack overflow".into(),
        End::Signal(libc::SIGABRT) => "the process aborted".into(),
        End::Signal(n) => format!("the process died of signal {n}"),
    };
    let mut out = RunOut::default();
    for (k, t) in p.tasks.iter().enumerate() {
        let i = pr.get(k) as usize;
        if i > 0 && i <= t.len() {
            out.bads.push(BadOut { task: k, op: i - 1, class: format!("no answer: {why}"), msg: format!("{} {} {}", t[i - 1].sub, t[i - 1].act.name(), short(&format!("{:?}", t[i - 1].act))) });
        }
    }
    if out.bads.is_empty() {
        out.bads.push(BadOut { task: 0, op: 0, class: format!("no answer: {why}"), msg: String::new() });
    }
    out
}
pub fn short(s: &str) -> String {
    let mut t: String = s.chars().take(1200).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    t
}
