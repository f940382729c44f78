//! The command line: searching, minimising, replaying, reporting.
use crate::acts::Index;
use crate::generate;
use crate::how::{How, deliver};
use crate::plan::*;
use crate::proc::Progress;
use crate::run::{RunOut, forked, short};
use kit::simcore::cov;
use crate::shrink::{Shrinker, budget};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Found {
    seed: u64,
    task: usize,
    op: usize,
    class: String,
    msg: String,
}
/// what a worker found out
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Tally {
    runs: u64,
    ops: u64,
    sim_us: u64,
    scheduled: u64,
    points: u64,
    /// basic-block edges of the code under test that were taken
    edges: BTreeSet<u32>,
    switches: u64,
    blocked: u64,
    again: u64,
    differed: Vec<u64>,
    counts: BTreeMap<String, u64>,
    env: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    shapes: BTreeSet<u64>,
    found: Vec<Found>,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    wall_ms: u64,
    stopped_early: bool,
    /// states known after each tenth of the runs
    growth: Vec<usize>,
}
#[derive(Deserialize)]
struct Known {
    property: String,
    class: Option<String>,
    what: String,
    #[serde(default)]
    fixed: Option<String>,
}
/// what a replay file holds
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    msg: String,
    seed: u64,
    plan: Plan,
}
struct Tier {
    runs: u64,
    cap: Duration,
}
fn tier(prop: &str, thorough: bool) -> Tier {
    // sized on 8 cores; the same seeds are explored whatever the machine, unless it is far slower
    let quick = match prop {
        "C01" => 20_000,
        "C02" => 30_000,
        "C03" => 24_000,
        "C04" => 14_000,
        "C05" => 16_000,
        "C06" => 16_000,
        "C07" => 14_000,
        "C08" => 16_000,
        "C09" => 30_000,
        "C10" => 18_000,
        "C11" => 16_000,
        "C12" => 22_000,
        "C13" => 24_000,
        _ => 20_000,
    };
    if thorough { Tier { runs: quick * 20, cap: Duration::from_secs(720) } } else { Tier { runs: quick, cap: Duration::from_secs(150) } }
}
fn root() -> PathBuf {
    std::env::var_os("VSIM_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}
fn prop(name: &str) -> &'static str {
    match generate::PROPS.iter().find(|p| **p == name) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {name}");
            std::process::exit(2)
        }
    }
}
fn base_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn seed_of(base: u64, i: u64) -> u64 {
    base.wrapping_mul(0x1_0000_0000).wrapping_add(i)
}
/// initialise what is expensive and shared, so that every run need not; C10 looks at initialisation itself
fn prewarm(ix: &Index, p: &str) {
    if p == "C10" {
        return;
    }
    for k in ["phone", "regex", "domain", "email", "http_url", "semver"] {
        for i in ix.kind.get(k).into_iter().flatten() {
            let s = &ix.list[*i];
            deliver(s, &How::Text { gate: kit::Gate::ParseStr, views: vec!["+886912345678".into()], panic_at: None }, 0, false);
            deliver(s, &How::Text { gate: kit::Gate::ParseStr, views: vec!["a@b.cc".into()], panic_at: None }, 0, false);
        }
    }
}
fn work(ix: &'static Index, p: &'static str, base: u64, first: u64, step: u64, total: u64, cap: Duration) -> Tally {
    let pr: &'static Progress = Box::leak(Box::new(Progress::new()));
    let seen = crate::proc::shared(cov::edges() + 1);
    cov::map(seen);
    prewarm(ix, p);
    let t0 = Instant::now();
    let mut t = Tally::default();
    let mut i = first;
    while i < total {
        if t0.elapsed() > cap {
            t.stopped_early = true;
            break;
        }
        let seed = seed_of(base, i);
        let plan = generate::plan(ix, p, seed);
        let out = forked(ix, &plan, pr, false);
        t.runs += 1;
        t.ops += plan.tasks.iter().map(|t| t.len() as u64).sum::<u64>();
        t.sim_us += plan.sim_us;
        if plan.sched != Sched::Inline {
            t.scheduled += 1;
            t.shapes.insert(out.shape);
        }
        t.points += out.points as u64;
        t.switches += out.switches as u64;
        t.blocked += out.blocked as u64;
        for (k, v) in &plan.env {
            *t.env.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &out.counts {
            *t.counts.entry(k.clone()).or_default() += v;
        }
        t.states.extend(&out.states);
        for b in &out.bads {
            let n = t.classes.entry(b.class.clone()).or_default();
            *n += 1;
            if *n <= 3 {
                t.found.push(Found { seed, task: b.task, op: b.op, class: b.class.clone(), msg: short(&b.msg) });
            }
        }
        // a simulator that is not repeatable proves nothing: look again now and then
        if out.bads.is_empty() && t.runs % 61 == 7 {
            t.again += 1;
            if forked(ix, &plan, pr, false).hash != out.hash {
                t.differed.push(seed);
            }
        }
        if t.samples.len() < 2 && t.runs % 37 == 1 {
            let line = |o: &RunOut| o.lines.iter().take(3).map(|l| l.chars().take(300).collect::<String>()).collect::<Vec<_>>();
            t.samples.push(serde_json::json!({ "seed": seed, "operations": plan.tasks.iter().map(|t| t.len()).collect::<Vec<_>>(), "schedule": format!("{:?}", plan.sched), "history": line(&forked(ix, &plan, pr, true)) }));
        }
        if t.runs % (total / step / 10).max(1) == 0 {
            t.growth.push(t.states.len());
        }
        // for trials of the harness itself: the first violation will do, anywhere
        if let Some(f) = std::env::var_os("VSIM_FAST") {
            if t.classes.keys().any(|c| !c.starts_with("known:")) {
                let _ = std::fs::write(&f, "");
            }
            if t.runs % 8 == 0 && std::path::Path::new(&f).exists() || !t.found.is_empty() && std::path::Path::new(&f).exists() {
                t.stopped_early = true;
                break;
            }
        }
        // enough evidence: minimising matters more
        if t.classes.iter().any(|(c, n)| !c.starts_with("known:") && *n >= 6) && t0.elapsed() > Duration::from_secs(10) || t.classes.keys().any(|c| c.starts_with("no answer: ") && (c.contains("without end") || c.contains("deadlock"))) {
            t.stopped_early = true;
            break;
        }
        i += step;
    }
    t.wall_ms = t0.elapsed().as_millis() as u64;
    // SAFETY: the mapping has that many bytes
    t.edges = (1..=cov::edges() as u32).filter(|i| unsafe { *seen.add(*i as usize) } != 0).collect();
    t
}
fn merge(a: &mut Tally, b: Tally) {
    a.runs += b.runs;
    a.ops += b.ops;
    a.sim_us += b.sim_us;
    a.scheduled += b.scheduled;
    a.points += b.points;
    a.edges.extend(b.edges);
    a.switches += b.switches;
    a.blocked += b.blocked;
    a.again += b.again;
    a.differed.extend(b.differed);
    for (k, v) in b.counts {
        *a.counts.entry(k).or_default() += v;
    }
    for (k, v) in b.env {
        *a.env.entry(k).or_default() += v;
    }
    for (k, v) in b.classes {
        *a.classes.entry(k).or_default() += v;
    }
    a.states.extend(b.states);
    a.shapes.extend(b.shapes);
    a.found.extend(b.found);
    a.samples.extend(b.samples);
    a.wall_ms = a.wall_ms.max(b.wall_ms);
    a.stopped_early |= b.stopped_early;
    if a.growth.is_empty() {
        a.growth = b.growth;
    }
}
fn known(p: &str) -> Vec<Known> {
    let f = root().join("known_findings.json");
    let all: Vec<Known> = match std::fs::read_to_string(&f) {
        Ok(s) => serde_json::from_str(&s).unwrap_or_else(|e| {
            eprintln!("{}: {e}", f.display());
            std::process::exit(2)
        }),
        Err(_) => vec![],
    };
    all.into_iter().filter(|k| k.property == p && k.fixed.is_none()).collect()
}
fn check(ix: &'static Index, p: &'static str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let base = base_seed();
    let mut tr = tier(p, thorough);
    if let Some(n) = std::env::var("VSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        tr.runs = n;
    }
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16) as u64;
    let me = std::env::current_exe().expect("own path");
    let kids: Vec<_> = (0..workers)
        .map(|w| {
            Command::new(&me)
                .args(["work", p, &base.to_string(), &w.to_string(), &workers.to_string(), &tr.runs.to_string(), &tr.cap.as_secs().to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .spawn()
                .expect("worker")
        })
        .collect();
    let mut all = Tally::default();
    let mut broken = 0;
    let readers: Vec<_> = kids
        .into_iter()
        .map(|mut k| {
            std::thread::spawn(move || {
                let mut s = String::new();
                let _ = k.stdout.take().expect("pipe").read_to_string(&mut s);
                let ok = k.wait().is_ok_and(|s| s.success());
                (s, ok)
            })
        })
        .collect();
    for r in readers {
        match r.join() {
            Ok((s, true)) => match serde_json::from_str::<Tally>(&s) {
                Ok(t) => merge(&mut all, t),
                Err(_) => broken += 1,
            },
            _ => broken += 1,
        }
    }
    if broken > 0 {
        eprintln!("{broken} worker(s) gave no answer");
        return 2;
    }
    if let Some(f) = std::env::var_os("VSIM_EDGES") {
        // which edges were taken, for whoever wants to know what was not; addresses relative to a known function
        let zero = cov::__sanitizer_cov_pcs_init as *const () as usize;
        let s: String = (1..=cov::edges()).map(|i| format!("{} {} {}\n", cov::pc(i).0 as i64 - zero as i64, cov::pc(i).1 as u8, all.edges.contains(&(i as u32)) as u8)).collect();
        let _ = std::fs::write(f, s);
    }
    let known = known(p);
    let is_known = |c: &str| known.iter().any(|k| k.class.as_deref() == Some(c));
    for k in &known {
        let n = k.class.as_ref().and_then(|c| all.classes.get(c)).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={p} {} (seen {n} times in this search)", k.what);
    }
    let mut fresh: Vec<Found> = all.found.iter().filter(|f| !is_known(&f.class)).cloned().collect();
    fresh.sort_by_key(|f| (f.class.clone(), f.seed));
    fresh.dedup_by_key(|f| f.class.clone());
    let mut violations = vec![];
    let pr: &'static Progress = Box::leak(Box::new(Progress::new()));
    if !fresh.is_empty() {
        prewarm(ix, p);
    }
    for f in fresh.iter().take(4) {
        let slow = f.class.contains("without end") || f.class.contains("deadlock");
        let plan = generate::plan(ix, p, f.seed);
        let mut b = budget(slow);
        b.until = b.until.min(t0 + Duration::from_secs(330));
        if std::env::var_os("VSIM_FAST").is_some() {
            b.trials = 0;
        }
        let mut sh = Shrinker { ix, pr, class: &f.class, b };
        let small = sh.run(plan.clone(), f.task, f.op);
        let again = forked(ix, &small, pr, true);
        let (small, msg) = match again.bads.iter().find(|b| b.class == f.class) {
            Some(b) => (small, b.msg.clone()),
            None => (plan, f.msg.clone()),
        };
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{p}-{}-{}.json", f.seed, violations.len()));
        let rep = Replay { property: p.into(), class: f.class.clone(), msg: msg.clone(), seed: f.seed, plan: small };
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap_or_default());
        println!("VIOLATION property={p} replay={}", path.display());
        println!("  {} (seed {}, seen {} times)", f.class, f.seed, all.classes.get(&f.class).copied().unwrap_or(1));
        println!("  {}", short(&msg));
        violations.push(serde_json::json!({ "class": f.class, "seed": f.seed, "replay": path.display().to_string(), "what": short(&msg) }));
    }
    evidence(p, thorough, base, &all, &known, &violations, t0.elapsed());
    println!("{p}: {} runs, {} operations, {} deliveries, {} states, {} interleavings, {:.1} s; repeated {} runs, {} differed", all.runs, all.ops, all.counts.get("deliveries").unwrap_or(&0), all.states.len(), all.shapes.len(), t0.elapsed().as_secs_f64(), all.again, all.differed.len());
    if !all.differed.is_empty() {
        println!("  runs that did not repeat exactly: {:?}", &all.differed[..all.differed.len().min(5)]);
    }
    if fresh.is_empty() { 0 } else { 1 }
}
fn evidence(p: &str, thorough: bool, base: u64, t: &Tally, known: &[Known], violations: &[serde_json::Value], wall: Duration) {
    let pick = |pre: &str| -> BTreeMap<String, u64> { t.counts.iter().chain(&t.env).filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (k[pre.len()..].to_string(), *v)).collect() };
    let hours = (t.wall_ms as f64 / 3_600_000.0).max(1e-9);
    let e = serde_json::json!({
        "property": p,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": t.counts.get("deliveries").copied().unwrap_or(0),
            "distinct_nontrivial": t.states.len(),
            "rule": "one evaluation is one delivery of a payload to an entry point of the real code whose outcome was judged; distinct states are distinct (type configuration, entry point with representation, width, chunking and stream behaviour, class of outcome) combinations reached, deliveries that no entry point could take are not counted",
            "samples": t.samples.iter().take(6).collect::<Vec<_>>(),
            "simulated_runs": t.runs,
            "seeds": format!("{}..{}", seed_of(base, 0), seed_of(base, t.runs.saturating_sub(1))),
            "runs_per_hour": (t.runs as f64 / hours) as u64,
            "operations": t.ops,
            "simulated_seconds": t.sim_us / 1_000_000,
            "runs_under_the_scheduler": t.scheduled,
            "distinct_interleavings": t.shapes.len(),
            "scheduling_points": t.points,
            "basic_block_edges_of_the_code_under_test": { "reached": t.edges.len(), "of": cov::edges() },
            "context_switches": t.switches,
            "tasks_found_blocked_in_a_foreign_lock": t.blocked,
            "faults_injected": pick("fault:"),
            "network": pick("net:"),
            "payload_damage_on_the_wire": pick("wire:"),
            "operations_by_kind": pick("op:"),
            "disk": pick("disk:"),
            "web": pick("web:"),
            "views_shown": pick("views shown:"),
            "runs_executed_twice": t.again,
            "runs_that_did_not_repeat": t.differed,
            "states_after_each_tenth_of_worker_0": t.growth,
            "stopped_early": t.stopped_early,
            "outcome_classes_of_violations": t.classes,
            "real_components": "validators and validators-derive (every derived type under test), the third-party parsers they use, serde_json, ciborium and bincode, axum's router and body reader, rocket's form decoder, std's Once/Mutex",
            "stubbed_components": "network, disk, byte streams, text and byte sinks, the self-describing serde format, callers' sources and collections, task scheduling, system randomness; axum's Json, Form and Query extractors are re-implemented on its body reader (their helper crates are not installed)",
            "known_findings": known.iter().map(|k| k.what.clone()).collect::<Vec<_>>(),
        },
        "wall_s": wall.as_secs_f64(),
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(x) = std::fs::write(dir.join(format!("{p}.json")), serde_json::to_string_pretty(&e).unwrap_or_default()) {
        eprintln!("evidence: {x}");
    }
}
fn show(o: &RunOut) {
    for l in &o.lines {
        println!("{l}");
    }
    println!("hash {:016x}; {} points, {} switches, {} blocked, shape {:x}", o.hash, o.points, o.switches, o.blocked, o.shape);
    for b in &o.bads {
        println!("BROKEN task {} op {}: {}\n  {}", b.task, b.op, b.class, b.msg);
    }
}
pub fn main(ix: &'static Index) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map_or("", |s| s.as_str());
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    match arg(1) {
        "check" => {
            let t = if arg(3) == "--tier" { arg(4).to_string() } else { std::env::var("VERIF_TIER").unwrap_or_default() };
            check(ix, prop(arg(2)), t == "thorough")
        }
        "work" => {
            let t = work(ix, prop(arg(2)), num(3), num(4), num(5), num(6), Duration::from_secs(num(7)));
            println!("{}", serde_json::to_string(&t).unwrap_or_default());
            0
        }
        "run" => {
            let p = prop(arg(2));
            let pr: &'static Progress = Box::leak(Box::new(Progress::new()));
            prewarm(ix, p);
            let plan = generate::plan(ix, p, num(3));
            if arg(4) == "--plan" {
                println!("{}", serde_json::to_string_pretty(&plan).unwrap_or_default());
            }
            let o = forked(ix, &plan, pr, true);
            show(&o);
            (!o.bads.is_empty()) as i32
        }
        "replay" => {
            let s = std::fs::read_to_string(arg(2)).unwrap_or_default();
            let r: Replay = match serde_json::from_str(&s) {
                Ok(r) => r,
                Err(e) => {
                    eprintln!("{}: {e}", arg(2));
                    return 2;
                }
            };
            let pr: &'static Progress = Box::leak(Box::new(Progress::new()));
            prewarm(ix, prop(&r.property));
            let o = forked(ix, &r.plan, pr, true);
            show(&o);
            if o.bads.iter().any(|b| b.class == r.class) {
                println!("VIOLATION property={} replay={}", r.property, arg(2));
                1
            } else {
                println!("does not break: {}", r.class);
                0
            }
        }
        _ => {
            eprintln!("vsim check <property> [--tier quick|thorough] | run <property> <seed> [--plan] | replay <file>");
            2
        }
    }
}
