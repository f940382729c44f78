//! Minimising a plan that breaks a property: every candidate is executed in a fresh process, and kept if the
//! same thing still breaks.
use crate::acts::Index;
use crate::plan::*;
use crate::proc::Progress;
use crate::run::forked;
use serde_json::Value;
use std::time::{Duration, Instant};

pub struct Budget {
    pub trials: u32,
    pub until: Instant,
}
pub struct Shrinker<'a> {
    pub ix: &'static Index,
    pub pr: &'static Progress,
    pub class: &'a str,
    pub b: Budget,
}
fn ddmin<T: Clone>(items: &mut Vec<T>, test: &mut dyn FnMut(&[T]) -> bool) -> bool {
    let mut any = false;
    let mut n = 2;
    if !items.is_empty() && test(&[]) {
        items.clear();
        return true;
    }
    while items.len() > 1 {
        let size = items.len().div_ceil(n);
        let mut cut = false;
        let mut i = 0;
        while i < items.len() {
            let mut rest = items.clone();
            rest.drain(i..(i + size).min(items.len()));
            if !rest.is_empty() && test(&rest) {
                *items = rest;
                cut = true;
                any = true;
            } else {
                i += size;
            }
        }
        if cut {
            n = 2.max(n - 1);
        } else if size == 1 {
            break;
        } else {
            n = (n * 2).min(items.len());
        }
    }
    any
}
impl Shrinker<'_> {
    fn bad(&mut self, p: &Plan) -> bool {
        if self.b.trials == 0 || Instant::now() > self.b.until {
            return false;
        }
        self.b.trials -= 1;
        forked(self.ix, p, self.pr, false).bads.iter().any(|b| b.class == self.class)
    }
    pub fn run(&mut self, mut p: Plan, task: usize, op: usize) -> Plan {
        p.env.clear();
        // the failing operation alone
        if let Some(o) = p.tasks.get(task).and_then(|t| t.get(op)) {
            let q = Plan { sched: Sched::Inline, tasks: vec![vec![o.clone()]], ..p.clone() };
            if self.bad(&q) {
                return self.payloads(q);
            }
        }
        if p.sched != Sched::Inline {
            let q = Plan { sched: Sched::Inline, ..p.clone() };
            if self.bad(&q) {
                p = q;
            } else if p.edges.is_some() {
                let q = Plan { edges: None, ..p.clone() };
                if self.bad(&q) {
                    p = q;
                }
            }
        }
        // fewer operations
        let mut all: Vec<(usize, Op)> = p.tasks.iter().enumerate().flat_map(|(k, t)| t.iter().map(move |o| (k, o.clone()))).collect();
        let n = p.tasks.len();
        let build = |p: &Plan, ops: &[(usize, Op)]| {
            let mut tasks = vec![vec![]; n];
            ops.iter().for_each(|(k, o)| tasks[*k].push(o.clone()));
            tasks.retain(|t: &Vec<Op>| !t.is_empty());
            Plan { tasks, ..p.clone() }
        };
        // the schedule is drawn anew for a shorter plan: try a few
        let base = p.clone();
        let mut seed = match base.sched {
            Sched::Seed { seed, .. } => seed,
            _ => 0,
        };
        ddmin(&mut all, &mut |ops| {
            if ops.is_empty() {
                return false;
            }
            let tries = if matches!(base.sched, Sched::Seed { .. }) { 4 } else { 1 };
            for i in 0..tries {
                let mut q = build(&base, ops);
                if let Sched::Seed { seed: s, .. } = &mut q.sched {
                    *s = seed.wrapping_add(i);
                }
                if self.bad(&q) {
                    seed = seed.wrapping_add(i);
                    return true;
                }
            }
            false
        });
        p = build(&base, &all);
        if let Sched::Seed { seed: s, .. } = &mut p.sched {
            *s = seed;
            p = self.schedule(p);
        }
        self.payloads(p)
    }
    /// the schedule as an explicit list of decisions, as short as possible
    fn schedule(&mut self, p: Plan) -> Plan {
        let d = forked(self.ix, &p, self.pr, true).decisions;
        let listed = Plan { sched: Sched::List(d.clone()), ..p.clone() };
        if !self.bad(&listed) {
            return p;
        }
        let mut d = d;
        ddmin(&mut d, &mut |x| self.bad(&Plan { sched: Sched::List(x.to_vec()), ..p.clone() }));
        Plan { sched: Sched::List(d), ..p }
    }
    fn payloads(&mut self, p: Plan) -> Plan {
        let mut v = serde_json::to_value(&p.tasks).unwrap_or(Value::Null);
        let mut spots = vec![];
        // the payloads of a group must stay the same payload: only whole deliveries are removed there
        fn find(v: &Value, path: &mut Vec<Step>, spots: &mut Vec<Vec<Step>>, group: bool) {
            match v {
                Value::Array(a) => {
                    if !group || matches!(path.last(), Some(Step::K(k)) if k == "hows") {
                        spots.push(path.clone());
                    }
                    for (i, x) in a.iter().enumerate() {
                        path.push(Step::I(i));
                        find(x, path, spots, group);
                        path.pop();
                    }
                }
                Value::Object(m) => {
                    for (k, x) in m {
                        path.push(Step::K(k.clone()));
                        find(x, path, spots, group || k == "Agree");
                        path.pop();
                    }
                }
                Value::String(s) if s.len() > 1 && !group && !matches!(path.last(), Some(Step::K(k)) if k == "sub" || k == "gate" || k == "fmt") => spots.push(path.clone()),
                _ => (),
            }
        }
        #[derive(Clone, Debug)]
        enum Step {
            I(usize),
            K(String),
        }
        fn at<'a>(v: &'a mut Value, path: &[Step]) -> Option<&'a mut Value> {
            let mut v = v;
            for s in path {
                v = match s {
                    Step::I(i) => v.get_mut(*i)?,
                    Step::K(k) => v.get_mut(k)?,
                };
            }
            Some(v)
        }
        for _ in 0..2 {
            spots.clear();
            find(&v, &mut vec![], &mut spots, false);
            let mut changed = false;
            // an array may shift while an outer one shrinks: paths that no longer fit are skipped
            for path in spots.clone() {
                let Some(x) = at(&mut v, &path) else { continue };
                match x.clone() {
                    Value::Array(mut a) if !a.is_empty() && path.len() > 1 => {
                        let cur = v.clone();
                        changed |= ddmin(&mut a, &mut |items| {
                            let mut w = cur.clone();
                            if let Some(s) = at(&mut w, &path) {
                                *s = Value::Array(items.to_vec());
                            }
                            self.try_value(&p, &w)
                        });
                        if let Some(s) = at(&mut v, &path) {
                            *s = Value::Array(a);
                        }
                    }
                    Value::String(t) => {
                        let cur = v.clone();
                        let mut cs: Vec<char> = t.chars().collect();
                        changed |= ddmin(&mut cs, &mut |items| {
                            let mut w = cur.clone();
                            if let Some(s) = at(&mut w, &path) {
                                *s = Value::String(items.iter().collect());
                            }
                            self.try_value(&p, &w)
                        });
                        if let Some(s) = at(&mut v, &path) {
                            *s = Value::String(cs.into_iter().collect());
                        }
                    }
                    _ => (),
                }
            }
            if !changed {
                break;
            }
        }
        match serde_json::from_value(v) {
            Ok(tasks) => Plan { tasks, ..p },
            Err(_) => p,
        }
    }
    fn try_value(&mut self, p: &Plan, v: &Value) -> bool {
        match serde_json::from_value::<Vec<Vec<Op>>>(v.clone()) {
            Ok(tasks) if tasks.iter().any(|t| !t.is_empty()) => self.bad(&Plan { tasks, ..p.clone() }),
            _ => false,
        }
    }
}
pub fn budget(slow: bool) -> Budget {
    if slow { Budget { trials: 24, until: Instant::now() + Duration::from_secs(120) } } else { Budget { trials: 500, until: Instant::now() + Duration::from_secs(30) } }
}
