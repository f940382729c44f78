//! The simulated network, run while a plan is made: clients send, messages are lost, delayed, duplicated and
//! overtaken, links go down and come back, clients retry until they have an answer.
use kit::simcore::Rng;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

pub struct Weather {
    pub base: u64,
    pub jitter: u64,
    pub loss: usize,
    pub dup: usize,
    pub slow: usize,
    /// windows during which nothing gets through
    pub down: Vec<(u64, u64)>,
    pub timeout: u64,
    /// the client's clock runs at this many thousandths of real speed
    pub skew: u64,
}
impl Weather {
    pub fn any(r: &mut Rng) -> Weather {
        let calm = r.chance(1, 4);
        let mut down = vec![];
        if !calm && r.chance(1, 4) {
            let a = r.below(400_000) as u64;
            down.push((a, a + r.below(1_500_000) as u64));
        }
        Weather {
            base: r.range(50, 20_000) as u64,
            jitter: r.range(1, 60_000) as u64,
            loss: if calm { 0 } else { r.below(25) },
            dup: if calm { 0 } else { r.below(20) },
            slow: if calm { 0 } else { r.below(10) },
            down,
            timeout: r.range(80_000, 400_000) as u64,
            skew: if calm { 1000 } else { r.range(700, 1400) as u64 },
        }
    }
}
pub struct Arrival {
    pub t: u64,
    pub msg: usize,
    pub copy: u32,
    pub via: Vec<String>,
}
#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Send { msg: usize, attempt: u32 },
    Arrive { msg: usize, attempt: u32, dup: bool, slow: bool },
    Ack { msg: usize },
    Timeout { msg: usize, attempt: u32 },
}
/// Route `n` messages, sent one after another by `clients` clients. Every message arrives at least once if the
/// weather lets a retry through; the order of arrival is the network's.
pub fn route(r: &mut Rng, n: usize, w: &Weather, env: &mut BTreeMap<String, u64>) -> Vec<Arrival> {
    let mut q: BinaryHeap<Reverse<(u64, u64, Ev)>> = BinaryHeap::new();
    let mut seq = 0u64;
    let mut push = |q: &mut BinaryHeap<Reverse<(u64, u64, Ev)>>, t: u64, e: Ev| {
        seq += 1;
        q.push(Reverse((t, seq, e)));
    };
    let mut t = 0;
    for msg in 0..n {
        push(&mut q, t, Ev::Send { msg, attempt: 0 });
        t += r.below(40_000) as u64;
    }
    let mut count = |k: &str| *env.entry(format!("net:{k}")).or_default() += 1;
    let mut acked = vec![false; n];
    let mut out: Vec<Arrival> = vec![];
    let mut copies = vec![0u32; n];
    let mut newest = 0usize;
    while let Some(Reverse((now, _, ev))) = q.pop() {
        let down = w.down.iter().any(|(a, b)| now >= *a && now < *b);
        match ev {
            Ev::Send { msg, attempt } => {
                count(if attempt == 0 { "sent" } else { "retried" });
                push(&mut q, now + (w.timeout << attempt.min(4)) * 1000 / w.skew, Ev::Timeout { msg, attempt });
                if down {
                    count("lost in a partition");
                    continue;
                }
                if r.chance(w.loss, 100) {
                    count("lost");
                    continue;
                }
                let slow = r.chance(w.slow, 100);
                let d = w.base + r.below(w.jitter as usize) as u64 + if slow { r.range(100_000, 3_000_000) as u64 } else { 0 };
                push(&mut q, now + d, Ev::Arrive { msg, attempt, dup: false, slow });
                if r.chance(w.dup, 100) {
                    count("duplicated");
                    let d2 = d + r.below(w.jitter as usize * 2) as u64;
                    push(&mut q, now + d2, Ev::Arrive { msg, attempt, dup: true, slow });
                }
            }
            Ev::Arrive { msg, attempt, dup, slow } => {
                copies[msg] += 1;
                let mut via = vec![];
                if dup {
                    via.push("duplicate".to_string());
                }
                if attempt > 0 {
                    via.push(format!("retry {attempt}"));
                }
                if slow {
                    count("stalled");
                    via.push("stalled".into());
                }
                if msg < newest {
                    count("reordered");
                    via.push("overtaken".into());
                }
                newest = newest.max(msg);
                out.push(Arrival { t: now, msg, copy: copies[msg], via });
                if down || r.chance(w.loss, 100) {
                    count("ack lost");
                } else {
                    push(&mut q, now + w.base + r.below(w.jitter as usize) as u64, Ev::Ack { msg });
                }
            }
            Ev::Ack { msg } => acked[msg] = true,
            Ev::Timeout { msg, attempt } => {
                if !acked[msg] && attempt < 5 {
                    push(&mut q, now, Ev::Send { msg, attempt: attempt + 1 });
                }
            }
        }
    }
    out
}
