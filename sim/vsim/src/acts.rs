//! Executing one operation and judging what came of it.
use crate::how::*;
use crate::plan::*;
use crate::web;
use kit::simcore::{alloc, cov};
use kit::simcore::de::{DeCtx, SimErr};
use kit::simcore::io::{SimDisk, SimFmt, SimWriter};
use kit::simcore::ser::SerCtx;
use kit::simcore::tok::{StrMode, Tok, W};
use kit::simcore::{Fault, hash_str};
use kit::{DynVal, Fmt, Gate, Obs, Out, RecOut, Spec, Stream, Subject};
use model::expect::{Exp, expect};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

pub struct Index {
    pub list: Vec<Subject>,
    pub by: HashMap<&'static str, usize>,
    /// subjects of each kind
    pub kind: BTreeMap<&'static str, Vec<usize>>,
}
impl Index {
    pub fn new(list: Vec<Subject>) -> Index {
        let by = list.iter().enumerate().map(|(i, s)| (s.name, i)).collect();
        let mut kind: BTreeMap<&'static str, Vec<usize>> = BTreeMap::new();
        for (i, s) in list.iter().enumerate() {
            kind.entry(s.spec.kind()).or_default().push(i);
        }
        Index { list, by, kind }
    }
    pub fn get(&self, n: &str) -> Option<&Subject> {
        self.by.get(n).map(|i| &self.list[*i])
    }
}
#[derive(Default)]
pub struct Stats(Mutex<(BTreeMap<String, u64>, BTreeSet<u64>)>);
impl Stats {
    pub fn n(&self, k: &str, n: u64) {
        alloc::quiet(|| {
            let mut g = self.0.lock().unwrap();
            match g.0.get_mut(k) {
                Some(v) => *v += n,
                None => {
                    g.0.insert(k.to_string(), n);
                }
            }
        })
    }
    pub fn state(&self, parts: &str) {
        alloc::quiet(|| {
            self.0.lock().unwrap().1.insert(hash_str(parts));
        })
    }
    pub fn snapshot(&self) -> (BTreeMap<String, u64>, BTreeSet<u64>) {
        self.0.lock().unwrap().clone()
    }
}
pub struct Cx<'a> {
    pub ix: &'a Index,
    pub st: &'a Stats,
    pub id: u64,
    pub yields: bool,
    /// C10: the outcome this operation has all alone
    pub alone: Option<&'a [String]>,
}
/// A broken property: a stable name for what broke, and the story.
#[derive(Clone, Debug)]
pub struct Bad {
    pub class: String,
    pub msg: String,
}
pub struct Done {
    pub line: String,
    pub bad: Option<Bad>,
}
fn bad(class: impl Into<String>, msg: impl Into<String>) -> Bad {
    Bad { class: class.into(), msg: msg.into() }
}
/// the name of a reason, without its details
pub fn reason_name(d: &str) -> &str {
    let e = d.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(d.len());
    &d[..e]
}
pub fn outcome_class(o: &Obs) -> String {
    match o {
        Obs::Val(_) => "value".into(),
        Obs::Unit => "accepted".into(),
        Obs::Rej(d, _) => reason_name(d).to_string(),
        Obs::Custom(s) => format!("refused:{}", s.chars().filter(|c| c.is_alphabetic() || *c == ' ').take(24).collect::<String>()),
        Obs::Type => "form".into(),
        Obs::Fault(k) => k.split('#').next().unwrap_or("fault").to_string(),
        Obs::NA => "none".into(),
        Obs::Broken(_) => "broken".into(),
        Obs::Panic(_) => "panic".into(),
    }
}
pub fn gate_name(h: &How) -> String {
    match h {
        How::Text { gate, .. } | How::Bytes { gate, .. } => format!("{gate:?}"),
        How::Scalar { gate, s } => format!("{gate:?}/{}", match s {
            Sc::U(_, w) | Sc::I(_, w) => format!("{w:?}"),
            s => format!("{s:?}").split('(').next().unwrap_or("").to_string(),
        }),
        How::Json { gate, .. } => format!("json{gate:?}"),
        How::Coll { parse, .. } => format!("coll{parse}"),
        How::De { cap, human, tok, chunk, .. } => format!("de{}{}{}/{}", *cap as u8, *human as u8, (*chunk != WHOLE) as u8, tok_name(tok)),
        How::Real { fmt, cap, data, chunk, eintr, .. } => format!("{fmt:?}{}{}{}{}", *cap as u8, (*chunk != WHOLE) as u8, (*eintr > 0) as u8, matches!(data, Data::Raw(_)) as u8),
    }
}
fn tok_name(t: &Tok) -> String {
    match t {
        Tok::U(_, w) | Tok::N(_, w) => format!("{w:?}"),
        Tok::Str(_, m) => format!("s{m:?}"),
        Tok::Bytes(_, m) => format!("b{m:?}"),
        t => format!("{t:?}").chars().take_while(|c| c.is_alphabetic()).collect(),
    }
}
impl Cx<'_> {
    /// deliver, count, remember the state reached
    fn go(&self, s: &Subject, h: &How) -> (Result<Out, String>, Ran) {
        let (o, r) = deliver_raw(s, h, self.id, self.yields);
        self.st.n("deliveries", 1);
        if r.fired {
            self.st.n("fault:call-back or transport failure", 1);
        }
        if !matches!(r.obs, Obs::NA) {
            self.st.state(&format!("{}|{}|{}", s.name, gate_name(h), outcome_class(&r.obs)));
        }
        (o, r)
    }
    fn run(&self, s: &Subject, h: &How) -> Ran {
        self.go(s, h).1
    }
}
/// an unexpected end of the call itself breaks every property
fn answered(s: &Subject, h: &How, o: &Obs) -> Option<Bad> {
    match o {
        Obs::Panic(p) => Some(bad("no answer", format!("{} {} panicked: {p}", s.name, show_how(h)))),
        Obs::Broken(p) => Some(bad("unfaithful wrapper", format!("{} {}: {p}", s.name, show_how(h)))),
        _ => None,
    }
}
pub fn exec(cx: &Cx<'_>, op: &Op) -> Done {
    let s = match cx.ix.get(&op.sub) {
        Some(s) => s,
        None if matches!(op.act, Act::Disk(_) | Act::Laws { .. } | Act::Web(_)) => &cx.ix.list[0],
        None => return Done { line: "no such type".into(), bad: None },
    };
    cx.st.n(&format!("op:{}", op.act.name()), 1);
    let mut log = String::new();
    let r = match &op.act {
        Act::Judge(h) => judge_op(cx, s, h, &mut log),
        Act::Agree { hows } => agree(cx, s, hows, &mut log),
        Act::Cut { how, at } => cut(cx, s, how, at, &mut log),
        Act::Record(r) => record(cx, s, r, &mut log),
        Act::Laws { a, b } => laws(cx, *a, *b, &mut log),
        Act::Disk(steps) => disk(cx, steps, &mut log),
        Act::Relay { how, hops } => relay(cx, s, how, hops, &mut log),
        Act::Alone { .. } => {
            log = alone(cx, s, &op.act);
            match cx.alone {
                Some(want) if !want.iter().any(|w| *w == log) => {
                    Err(bad("outcome depends on the company", format!("{}: {log}\n  but all alone: {}", op.sub, want.join(" or "))))
                }
                _ => Ok(()),
            }
        }
        Act::Shift(h) => shift(cx, s, h, &mut log),
        Act::Sink { how, what, at, fault } => sink(cx, s, how, *what, at, *fault, &mut log),
        Act::Hostile(h) => hostile(cx, s, h, &mut log),
        Act::Web(reqs) => web::serve(cx, reqs, &mut log),
    };
    Done { line: log, bad: r.err() }
}
type R = Result<(), Bad>;
fn note(log: &mut String, s: &Subject, h: &How, o: &Obs) {
    alloc::quiet(|| {
        if !log.is_empty() {
            log.push_str("; ");
        }
        log.push_str(&format!("{} {} -> {}", s.name, show_how(h), show_obs(o)));
    })
}

// ------------------------------------------------------------------ C01-C04
fn judge_op(cx: &Cx<'_>, s: &Subject, h: &How, log: &mut String) -> R {
    let ran = cx.run(s, h);
    note(log, s, h, &ran.obs);
    if let Some(b) = answered(s, h, &ran.obs) {
        return Err(b);
    }
    let Some(e) = expected(s, h) else { return Ok(()) };
    if let Err(m) = judge(s, h, &e, &ran.obs) {
        return Err(bad(m.split(':').next().unwrap_or("").to_string(), m));
    }
    reason_text(cx, s, h, &ran.obs)
}
/// A refusal that comes as a bare text must be the text of the typed reason.
fn reason_text(cx: &Cx<'_>, s: &Subject, h: &How, o: &Obs) -> R {
    let Obs::Custom(t) = o else { return Ok(()) };
    let twin = match h {
        How::De { cap: false, human, tok, .. } => How::De { cap: true, human: *human, tok: tok.clone(), chunk: WHOLE, fail: None },
        How::Real { fmt, cap: false, data, .. } => How::Real { fmt: *fmt, cap: true, data: data.clone(), chunk: WHOLE, eintr: 0, fail: None },
        How::Text { gate: Gate::FormValue, views, .. } => How::Text { gate: Gate::ParseStr, views: views.clone(), panic_at: None },
        _ => return Ok(()),
    };
    if matches!(expected(s, h), Some(Exp::FormOr(_))) {
        return Ok(());
    }
    match &deliver(s, &twin, cx.id, cx.yields).obs {
        Obs::Rej(_, d) if same_reason(s, t, d) => Ok(()),
        // a representation refused on the way, for both
        Obs::Custom(d) if d == t && json_like(s) => Ok(()),
        // a format's own refusal of a negative number, for both
        Obs::Custom(d) if d == t && matches!((&s.spec, h), (Spec::Bit { .. } | Spec::Byte { .. }, How::Real { data: Data::Tok(Tok::N(..)), .. })) => Ok(()),
        // byte and bit read a text for both, and report their own format errors
        x => Err(bad("reason lost on the way", format!("{} {} -> refused with {t:?}, but typed: {}", s.name, show_how(h), show_obs(x)))),
    }
}

/// Is this text of a format's error the typed reason? (The inner type of a URL adds the payload to its own.)
fn same_reason(s: &Subject, text: &str, display: &str) -> bool {
    text == display || (matches!(s.spec, Spec::Url) && text.strip_prefix(display).is_some_and(|t| t.starts_with(": ")))
}
/// The canonical text of a domain drops the root dot, by design: equality of what comes back is up to it.
fn modulo_root(s: &Subject, v: &kit::View) -> kit::View {
    let mut v = v.clone();
    if matches!(s.spec, Spec::Domain { .. }) {
        for (k, x) in &mut v.0 {
            match *k {
                // shown quoted
                "domain" => {
                    if let Some(t) = x.strip_suffix(".\"") {
                        *x = format!("{t}\"");
                    }
                }
                "fq" => *x = "false".into(),
                _ => (),
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C05
fn json_like(s: &Subject) -> bool {
    matches!(s.spec, Spec::Json | Spec::JsonT { .. })
}
fn agree(cx: &Cx<'_>, s: &Subject, hows: &[How], log: &mut String) -> R {
    #[derive(Clone)]
    struct Ans {
        h: How,
        o: Obs,
    }
    let mut first: Option<Ans> = None;
    let mut value: Option<Ans> = None;
    let mut typed: Option<Ans> = None;
    let mut text: Option<Ans> = None;
    for h in hows {
        let ran = cx.run(s, h);
        note(log, s, h, &ran.obs);
        if let Some(b) = answered(s, h, &ran.obs) {
            return Err(b);
        }
        let o = ran.obs;
        let e = expected(s, h);
        match &e {
            Some(Exp::Form) => {
                if let Err(m) = judge(s, h, &Exp::Form, &o) {
                    return Err(bad("a representation was reinterpreted", m));
                }
                continue;
            }
            Some(Exp::FormOr(_)) if matches!(o, Obs::Type) => continue,
            // a bare text may itself be the format's way to refuse a representation
            Some(Exp::FormOr(_)) if matches!(o, Obs::Custom(_)) => continue,
            _ => (),
        }
        if matches!(o, Obs::NA) {
            continue;
        }
        let a = Ans { h: h.clone(), o };
        let ok = |o: &Obs| matches!(o, Obs::Val(_) | Obs::Unit);
        let clash = |b: &Ans, what: &str| {
            Err(bad(what, format!("{}: {} -> {}\n  but {} -> {}", s.name, show_how(&b.h), show_obs(&b.o), show_how(&a.h), show_obs(&a.o))))
        };
        if let Some(f) = &first {
            if ok(&f.o) != ok(&a.o) {
                return clash(f, "gateways disagree on acceptance");
            }
        }
        let loose = json_like(s);
        match &a.o {
            Obs::Val(v) => {
                if let Some(x) = &value {
                    let near = inexact(v) || matches!(&x.o, Obs::Val(w) if inexact(w));
                    if x.o != Obs::Val(v.clone()) && !near {
                        return clash(x, "gateways disagree on the value");
                    }
                } else {
                    value = Some(a.clone());
                }
            }
            Obs::Rej(d, p) if !loose => {
                if let Some(x) = &typed {
                    if x.o != Obs::Rej(d.clone(), p.clone()) {
                        return clash(x, "gateways disagree on the reason");
                    }
                } else {
                    typed = Some(a.clone());
                }
                if let Some(x) = &text {
                    if !matches!(&x.o, Obs::Custom(t) if same_reason(s, t, p)) {
                        return clash(x, "gateways disagree on the reason");
                    }
                }
            }
            Obs::Custom(p) if !loose => {
                if let Some(x) = &text {
                    let close = matches!(s.spec, Spec::Url) && matches!(&x.o, Obs::Custom(t) if same_reason(s, t, p) || same_reason(s, p, t));
                    if x.o != Obs::Custom(p.clone()) && !close {
                        return clash(x, "gateways disagree on the reason");
                    }
                } else {
                    text = Some(a.clone());
                }
                if let Some(Ans { o: Obs::Rej(_, q), .. }) = &typed {
                    if !same_reason(s, p, q) {
                        return clash(typed.as_ref().unwrap(), "gateways disagree on the reason");
                    }
                }
            }
            _ => (),
        }
        if first.is_none() {
            first = Some(a);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06
fn fault_text(k: Fault, id: u64) -> Option<String> {
    match k {
        Fault::Io => Some(format!("sim-io-{id}")),
        Fault::Cancel => Some(format!("sim-cancel-{id}")),
        _ => None,
    }
}
/// Does this prefix hold a whole document? (Bincode has no way to tell.)
fn complete(f: Fmt, d: &[u8]) -> Option<bool> {
    match f {
        Fmt::Cbor => Some(ciborium::from_reader::<serde::de::IgnoredAny, _>(d).is_ok()),
        Fmt::Bincode => None,
        _ => Some(serde_json::from_slice::<serde::de::IgnoredAny>(d).is_ok()),
    }
}
fn cut(cx: &Cx<'_>, s: &Subject, h: &How, at: &[(u32, Fault)], log: &mut String) -> R {
    let (first, clean) = cx.go(s, h);
    note(log, s, h, &clean.obs);
    if let Some(b) = answered(s, h, &clean.obs) {
        return Err(b);
    }
    if matches!(clean.obs, Obs::NA) {
        return Ok(());
    }
    let mut fired = 0u64;
    for (n, k) in at {
        let (hurt, len) = match h {
            How::De { cap, human, tok, chunk, .. } => (How::De { cap: *cap, human: *human, tok: tok.clone(), chunk: *chunk, fail: Some((*n % clean.steps.max(1), *k)) }, 0),
            How::Real { fmt, cap, data, chunk, eintr, .. } => {
                let len = match data {
                    Data::Raw(b) => b.len(),
                    Data::Tok(t) => encode(*fmt, t).map_or(0, |b| b.len()),
                };
                (How::Real { fmt: *fmt, cap: *cap, data: data.clone(), chunk: *chunk, eintr: *eintr, fail: Some((*n as usize % (len + 1), *k)) }, len)
            }
            _ => return Ok(()),
        };
        let (o, r) = cx.go(s, &hurt);
        let what = || format!("{} {} -> {}; undisturbed -> {}", s.name, show_how(&hurt), show_obs(&r.obs), show_obs(&clean.obs));
        if r.fired {
            fired += 1;
            cx.st.n(&format!("fault:{k:?}"), 1);
        }
        match &hurt {
            How::De { .. } => {
                if !r.fired {
                    // every step below the clean number of steps is reached
                    return Err(bad("delivery took another course", what()));
                }
                let ok = match k {
                    Fault::Panic => r.obs == Obs::Panic(format!("sim#{}", cx.id)),
                    _ => matches!(&o, Ok(Out::Xport(SimErr::Fault(kk, id))) if kk == k && *id == cx.id),
                };
                if !ok {
                    return Err(bad("a delivery failure became something else", what()));
                }
            }
            How::Real { fmt, cap, data, fail: Some((pos, _)), .. } => match k {
                Fault::Eof if r.fired => {
                    let whole = match data {
                        Data::Raw(b) => b.clone(),
                        Data::Tok(t) => encode(*fmt, t).unwrap_or_default(),
                    };
                    let _ = len;
                    let short = How::Real { fmt: *fmt, cap: *cap, data: Data::Raw(whole[..*pos].to_vec()), chunk: WHOLE, eintr: 0, fail: None };
                    let want = deliver(s, &short, cx.id, cx.yields).obs;
                    // nothing may be made of half a document
                    // (bincode asks for what it needs and no more)
                    let half = !complete(*fmt, &whole[..*pos]).unwrap_or(false);
                    if half && !matches!(&o, Ok(Out::Xport(SimErr::Type(_)))) && !(json_like(s) && matches!((&r.obs, &clean.obs), (Obs::Custom(_), Obs::Custom(_)))) {
                        return Err(bad("a delivery failure became something else", format!("{}\n  the document breaks off in the middle", what())));
                    }
                    if want != r.obs {
                        return Err(bad("a delivery failure became something else", format!("{}\n  a document that just ends there -> {}", what(), show_obs(&want))));
                    }
                }
                _ if r.fired => {
                    let ok = match k {
                        Fault::Panic => r.obs == Obs::Panic(format!("sim#{}", cx.id)),
                        _ => {
                            let t = fault_text(*k, cx.id).unwrap_or_default();
                            // a representation refused before the failure stays refused
                            matches!(&o, Ok(Out::Xport(SimErr::Type(m))) if m.starts_with("io:") && m.contains(&t)) || matches!((&clean.obs, &r.obs), (Obs::Type, Obs::Type))
                        }
                    };
                    if !ok {
                        return Err(bad("a delivery failure became something else", what()));
                    }
                }
                _ => {
                    if r.obs != clean.obs {
                        return Err(bad("an undisturbed delivery changed", what()));
                    }
                }
            },
            _ => (),
        }
        // a healthy retry is as if nothing had happened
        let again = cx.run(s, h);
        if again.obs != clean.obs {
            return Err(bad("a retry after a failure differs", format!("{}; retry -> {}", what(), show_obs(&again.obs))));
        }
    }
    if let Ok(o) = &first {
        if o.obs() != clean.obs {
            return Err(bad("an earlier value changed", format!("{} {}: {} -> {}", s.name, show_how(h), show_obs(&clean.obs), show_obs(&o.obs()))));
        }
    }
    alloc::quiet(|| log.push_str(&format!(" (cut {fired} times)")));
    Ok(())
}

// ------------------------------------------------------------------ C07
fn rec_tok(r: &Rec, odd: bool) -> Tok {
    let mut f: Vec<(Tok, Tok)> = vec![
        (Tok::str("id"), Tok::u(r.id as u128)),
        (Tok::str("first"), r.first.clone()),
        (Tok::str("list"), Tok::Seq(r.list.clone())),
        (
            Tok::str("opt"),
            match &r.opt {
                Some(t) => Tok::Some(Box::new(t.clone())),
                None => Tok::None,
            },
        ),
        (Tok::str("last"), r.last.clone()),
        (Tok::str("tail"), Tok::str(r.tail.clone())),
    ];
    let mut out = vec![];
    for i in &r.order {
        out.push(std::mem::replace(&mut f[*i as usize % 6], (Tok::Unit, Tok::Unit)));
    }
    if let (Some((at, t)), true) = (&r.extra, odd) {
        out.insert(at % (out.len() + 1), (Tok::str("unknown"), t.clone()));
    }
    Tok::Map(out)
}
fn rec_bytes(r: &Rec, f: Fmt) -> Option<Vec<u8>> {
    if f != Fmt::Bincode {
        return encode(f, &rec_tok(r, true));
    }
    let one = |t: &Tok| bincode::serialize(&TokSer(t)).ok();
    let mut v = one(&Tok::U(r.id as u128, W::U64))?;
    v.extend(one(&r.first)?);
    v.extend((r.list.len() as u64).to_le_bytes());
    for t in &r.list {
        v.extend(one(t)?);
    }
    match &r.opt {
        None => v.push(0),
        Some(t) => {
            v.push(1);
            v.extend(one(t)?);
        }
    }
    v.extend(one(&r.last)?);
    v.extend(one(&Tok::str(r.tail.clone()))?);
    Some(v)
}
/// serde's buffer for captured input has no 128-bit integers
fn wide(t: &Tok) -> bool {
    matches!(t, Tok::U(_, W::U128) | Tok::N(_, W::I128))
}
fn binary_unit(s: &Subject, r: &Rec) -> bool {
    matches!(s.spec, Spec::Bit { .. } | Spec::Byte { .. }) && !r.human
}
fn record(cx: &Cx<'_>, s: &Subject, r: &Rec, log: &mut String) -> R {
    let Some(rich) = s.rich else { return Ok(()) };
    let mut fields = r.order.clone();
    fields.sort();
    if fields != [0, 1, 2, 3, 4, 5] {
        return Ok(());
    }
    // what each field is worth on its own
    let solo = |t: &Tok, cap: bool| -> Obs {
        let h = match r.fmt {
            None => How::De { cap, human: r.human, tok: t.clone(), chunk: WHOLE, fail: None },
            Some(fmt) => How::Real { fmt, cap, data: Data::Tok(t.clone()), chunk: WHOLE, eintr: 0, fail: None },
        };
        deliver(s, &h, cx.id, false).obs
    };
    let mut caps = vec![&r.first];
    caps.extend(r.list.iter());
    caps.push(&r.last);
    let mut want: Vec<Obs> = vec![];
    for t in &caps {
        let (b, c) = (solo(t, false), solo(t, true));
        let ok = match (&b, &c) {
            (Obs::Val(x), Obs::Val(y)) => x == y,
            (Obs::Custom(x), Obs::Rej(_, y)) => same_reason(s, x, y) || matches!((&s.spec, t), (Spec::Bit { .. }, Tok::U(n, _)) if *n > u64::MAX as u128),
            // a representation the type cannot carry: nothing to capture. (A text read on the way may be
            // something the captured side can still judge.)
            (Obs::Type, _) => true,
            (Obs::Custom(_), Obs::Type) => json_like(s) || binary_unit(s, r) || wide(t),
            // a text where a format without texts for them has a number
            (Obs::Val(_), Obs::Type) => binary_unit(s, r) || wide(t),
            (Obs::Custom(x), Obs::Custom(y)) => x == y && (json_like(s) || matches!(s.spec, Spec::Length { .. }) || matches!((&s.spec, t), (Spec::Bit { .. } | Spec::Byte { .. }, Tok::N(..)))),
            (Obs::Panic(_), _) | (_, Obs::Panic(_)) => false,
            _ => false,
        };
        if !ok {
            return Err(bad("captured verdict differs from the bare one", format!("{} {:?} {t:?}: bare {}, captured {}", s.name, r.fmt, show_obs(&b), show_obs(&c))));
        }
        want.push(c);
    }
    let want_opt = r.opt.as_ref().map(|t| solo(t, false));
    let legible = want.iter().all(|o| matches!(o, Obs::Val(_) | Obs::Rej(..)));
    let opt_ok = want_opt.as_ref().is_none_or(|o| matches!(o, Obs::Val(_)));
    let run = |fail: Option<(u32, Fault)>| -> (Result<Result<RecOut, SimErr>, String>, bool, u32) {
        match r.fmt {
            None => {
                let t = rec_tok(r, true);
                let c = DeCtx { human: r.human, chunk: r.chunk, fail_at: fail, fault_id: cx.id, ..Default::default() };
                let o = catch_unwind(AssertUnwindSafe(|| alloc::with_yields(cx.yields, || (rich.rec_sim)(&t, &c)))).map_err(panic_text);
                (o, c.fired.get(), c.step.get())
            }
            Some(f) => {
                let Some(b) = rec_bytes(r, f) else { return (Ok(Err(SimErr::Type("cannot encode".into()))), false, 0) };
                let st = Stream { chunk: r.chunk, eintr_every: r.eintr, fail_at: fail.map(|(n, k)| (n as usize % (b.len() + 1), k)), id: cx.id };
                let mut fired = false;
                let mut eintrs = 0;
                let o = catch_unwind(AssertUnwindSafe(|| {
                    alloc::with_yields(cx.yields, || {
                        let (o, l) = (rich.rec)(f, &b, st, r.flat);
                        fired = l.fired;
                        eintrs = l.eintrs;
                        o
                    })
                }))
                .map_err(panic_text);
                cx.st.n("fault:interrupted read", eintrs as u64);
                let fired = fired || matches!(&o, Err(p) if *p == format!("sim#{}", cx.id));
                (o, fired, b.len() as u32)
            }
        }
    };
    let story = |o: &Result<Result<RecOut, SimErr>, String>| format!("{} record {:?} -> {o:?}", s.name, r);
    let check = |o: &Result<Result<RecOut, SimErr>, String>| -> R {
        match o {
            Err(_) => Err(bad("no answer", story(o))),
            Ok(Ok(x)) => {
                if !legible || !opt_ok {
                    // a representation nobody can carry must fail the record
                    let forced = want.iter().any(|o| matches!(o, Obs::Type)) || want_opt.as_ref().is_some_and(|o| !matches!(o, Obs::Val(_)));
                    if forced {
                        return Err(bad("a record with an unreadable field was admitted", story(&Ok(Ok(x.clone())))));
                    }
                    return Ok(());
                }
                if x.caps != want || x.id != r.id || x.tail != r.tail || x.opt != want_opt {
                    return Err(bad("a field of the record was disturbed", format!("{}\n  on their own: {want:?} / {want_opt:?}", story(&Ok(Ok(x.clone()))))));
                }
                Ok(())
            }
            Ok(Err(e)) => {
                if legible && opt_ok {
                    return Err(bad("an invalid captured field failed the record", format!("{}\n  on their own: {want:?} / {want_opt:?}", story(&Ok(Err(e.clone()))))));
                }
                Ok(())
            }
        }
    };
    if r.fmt.is_some_and(|f| rec_bytes(r, f).is_none()) {
        return Ok(());
    }
    let (clean, _, steps) = run(None);
    alloc::quiet(|| log.push_str(&format!("{} record {:?} -> {}", s.name, r.fmt, match &clean {
        Ok(Ok(o)) => format!("{:?}", o),
        Ok(Err(e)) => format!("{e:?}"),
        Err(p) => p.clone(),
    })));
    cx.st.n("deliveries", caps.len() as u64 + 1);
    cx.st.state(&format!("rec|{}|{:?}|{}|{}", s.name, r.fmt, want.iter().map(outcome_class).collect::<Vec<_>>().join(","), matches!(clean, Ok(Ok(_)))));
    check(&clean)?;
    if let Some((n, k)) = r.fail {
        let (o, fired, _) = run(Some((n % steps.max(1), k)));
        if fired {
            cx.st.n(&format!("fault:{k:?}"), 1);
            let ok = match (k, r.fmt) {
                (Fault::Panic, _) => matches!(&o, Err(p) if *p == format!("sim#{}", cx.id)),
                (_, None) => matches!(&o, Ok(Err(SimErr::Fault(kk, id))) if *kk == k && *id == cx.id),
                (Fault::Eof, Some(f)) => match &o {
                    Err(_) => false,
                    Ok(Ok(_)) => complete(f, &rec_bytes(r, f).unwrap_or_default()[..(n % steps.max(1)) as usize]) != Some(false),
                    Ok(Err(_)) => true,
                },
                (_, Some(_)) => matches!(&o, Ok(Err(SimErr::Type(m))) if m.starts_with("io:") && m.contains(&fault_text(k, cx.id).unwrap_or_default()))
                    // the document had been refused already when the format looked for its end
                    || matches!((&o, &clean), (Ok(Err(a)), Ok(Err(b))) if format!("{a:?}") == format!("{b:?}")),
            };
            if !ok {
                return Err(bad("a captured field swallowed a delivery failure", story(&o)));
            }
        } else {
            check(&o)?;
        }
        let (o, _, _) = run(None);
        check(&o)?;
    }
    Ok(())
}
fn laws(cx: &Cx<'_>, a: (bool, i8), b: (bool, i8), log: &mut String) -> R {
    use std::hash::{Hash, Hasher};
    type W8 = validators::Result<i8, u8>;
    let std = |x: (bool, i8)| -> Result<i8, u8> { if x.0 { Ok(x.1) } else { Err(x.1 as u8) } };
    let (sa, sb) = (std(a), std(b));
    let (wa, wb): (W8, W8) = (W8::new(sa), sb.into());
    let hash = |x: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x(&mut h);
        h.finish()
    };
    let copy = wa;
    let cl = Clone::clone(&wa);
    let mut m = wa;
    *m = sb;
    let checks: [(&str, bool); 16] = [
        ("eq", (wa == wb) == (sa == sb)),
        ("partial_cmp", wa.partial_cmp(&wb) == sa.partial_cmp(&sb)),
        ("cmp", wa.cmp(&wb) == sa.cmp(&sb)),
        ("hash", (hash(&|h| wa.hash(h)) == hash(&|h| wb.hash(h))) == (sa == sb) || sa != sb),
        ("copy", copy.into_std_result() == sa),
        ("clone", cl.into_std_result() == sa && cl == wa),
        ("clone hash", hash(&|h| cl.hash(h)) == hash(&|h| wa.hash(h))),
        ("as_std_result", *wa.as_std_result() == sa),
        ("into_std_result", wa.into_std_result() == sa),
        ("from", W8::from(sb).into_std_result() == sb),
        ("into", Result::<i8, u8>::from(wb) == sb),
        ("deref", *wa == sa && wa.is_ok() == sa.is_ok()),
        ("deref_mut", *m == sb),
        ("debug", format!("{wa:?}") == format!("{sa:?}") && format!("{wb:#?}") == format!("{sb:#?}")),
        ("ne", (wa != wb) == (sa != sb)),
        ("order", (wa < wb) == (sa < sb) && (wa >= wb) == (sa >= sb)),
    ];
    cx.st.state(&format!("laws|{a:?}|{b:?}"));
    log.push_str(&format!("laws {sa:?} {sb:?}"));
    match checks.iter().find(|c| !c.1) {
        Some((n, _)) => Err(bad("the wrapper is not the result it wraps", format!("{n}: {sa:?} / {sb:?} vs {wa:?} / {wb:?}"))),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ C08
/// Types whose stored form is not what they read (recorded as known findings): what reading it back must do.
fn asymmetric(s: &Subject) -> bool {
    matches!(s.spec, Spec::Phone { .. } | Spec::Base { decoded: true, .. })
}
fn json_tok(v: &serde_json::Value) -> Tok {
    use serde_json::Value as V;
    match v {
        V::Null => Tok::Unit,
        V::Bool(b) => Tok::Bool(*b),
        V::String(s) => Tok::str(s.clone()),
        V::Number(n) => {
            if let Some(u) = n.as_u64() {
                Tok::U(u as u128, W::U64)
            } else if let Some(i) = n.as_i64() {
                Tok::N(i as i128, W::I64)
            } else {
                Tok::F64(n.as_f64().unwrap_or(f64::NAN).to_bits())
            }
        }
        V::Array(a) => Tok::Seq(a.iter().map(json_tok).collect()),
        V::Object(m) => Tok::Map(m.iter().map(|(k, v)| (Tok::str(k.clone()), json_tok(v))).collect()),
    }
}
fn cbor_tok(v: &ciborium::Value) -> Option<Tok> {
    use ciborium::Value as V;
    Some(match v {
        V::Null => Tok::Unit,
        V::Bool(b) => Tok::Bool(*b),
        V::Text(s) => Tok::str(s.clone()),
        V::Bytes(b) => Tok::Bytes(b.clone(), StrMode::Transient),
        V::Float(f) => Tok::f64(*f),
        V::Integer(i) => {
            let i = i128::from(*i);
            if i >= 0 { Tok::u(i as u128) } else { Tok::i(i) }
        }
        _ => return None,
    })
}
/// Read one stored document back.
fn load(cx: &Cx<'_>, s: &Subject, f: Fmt, b: &[u8]) -> (Result<Out, String>, Ran) {
    if s.rich.is_some() {
        return cx.go(s, &How::Real { fmt: f, cap: false, data: Data::Raw(b.to_vec()), chunk: 16, eintr: 3, fail: None });
    }
    // types without a compiled reader for the real formats: the document is parsed and handed over piece by piece
    match serde_json::from_slice::<serde_json::Value>(b) {
        Ok(v) => cx.go(s, &How::De { cap: false, human: true, tok: json_tok(&v), chunk: 16, fail: None }),
        Err(e) => (Ok(Out::Xport(SimErr::Type(format!("syntax:{e}")))), Ran { obs: Obs::Type, fired: false, steps: 0, shown: vec![], lens: vec![] }),
    }
}
fn store(s: &Subject, v: &dyn DynVal, f: Fmt) -> Option<Vec<u8>> {
    let mut b = vec![];
    if s.rich.is_some() {
        v.write(f, &mut b).ok()?;
    } else {
        let t = v.ser(&SerCtx::default()).ok()?;
        b = serde_json::to_vec(&TokSer(&t)).ok()?;
    }
    Some(b)
}
/// can this format give the type back what it was given (formats without type tags cannot answer
/// "whatever you have", and JSON cannot hold everything)
fn carries(s: &Subject, f: Fmt, view: &kit::View) -> bool {
    let nonfinite = view.0.iter().any(|(k, v)| *k == "f" && (v == "NaN" || v.contains("inf")));
    match f {
        Fmt::Bincode if s.rich.is_some() => tagless(s) || matches!(s.spec, Spec::Bit { .. } | Spec::Byte { .. }),
        Fmt::Cbor if s.rich.is_some() => !json_like(s) || !inexact(view),
        _ => {
            // without a compiled reader the document is parsed without knowing the type: 64-bit integers only
            !nonfinite && !inexact(view) && !((s.rich.is_none() || f == Fmt::JsonValue) && beyond64(view))
        }
    }
}
/// beyond 64 bits
fn beyond64(view: &kit::View) -> bool {
    view.0.iter().any(|(k, v)| *k == "n" && v.parse::<u64>().is_err() && v.parse::<i64>().is_err())
}
/// JSON's "whatever you have" knows integers of 64 bits only, and that is what the integer types ask for
fn known_wide(s: &Subject, f: Fmt, view: &kit::View, o: &Obs) -> Option<String> {
    let int = matches!(s.spec, Spec::SInt { bits: 128, .. } | Spec::UInt { bits: 128, .. });
    (int && matches!(f, Fmt::JsonStr | Fmt::JsonSlice | Fmt::JsonReader) && beyond64(view) && *o == Obs::Type).then(|| format!("known:128-bit number in JSON:{}", s.spec.kind()))
}
/// Some numbers JSON parsing itself (serde_json's default float parsing) gives back one unit off.
fn inexact(view: &kit::View) -> bool {
    view.0.iter().filter(|(k, _)| *k == "f" || *k == "json").any(|(_, v)| {
        v.split(|c: char| !(c.is_ascii_digit() || matches!(c, '.' | '-' | '+' | 'e' | 'E'))).any(|t| match (t.parse::<f64>(), serde_json::from_str::<f64>(t)) {
            (Ok(a), Ok(b)) => a.to_bits() != b.to_bits(),
            _ => false,
        })
    })
}
fn satisfies(s: &Subject, v: &dyn DynVal, view: &kit::View) -> Option<bool> {
    if asymmetric(s) {
        return None;
    }
    let t = v.ser(&SerCtx::default()).ok()?;
    match expect(&s.spec, &t, true) {
        Exp::V(m) | Exp::FormOr(m) => Some(matches!(m, model::Verdict::Ok(v) if modulo_root(s, &v) == modulo_root(s, view))),
        Exp::Form => None,
    }
}
fn disk(cx: &Cx<'_>, steps: &[Step], log: &mut String) -> R {
    struct Entry<'a> {
        s: &'a Subject,
        fmt: Fmt,
        off: usize,
        bytes: Vec<u8>,
        view: kit::View,
        debug: String,
    }
    let mut d = SimDisk::default();
    let mut recs: Vec<Entry<'_>> = vec![];
    let read = |d: &SimDisk, recs: &[Entry<'_>], log: &mut String| -> R {
        let mut img = d.durable.clone();
        img.extend_from_slice(&d.cache);
        for e in recs {
            let end = (e.off + e.bytes.len()).min(img.len());
            let now = &img[e.off.min(img.len())..end];
            let intact = now == e.bytes.as_slice();
            let (out, ran) = load(cx, e.s, e.fmt, now);
            alloc::quiet(|| log.push_str(&format!("; read {} {:?} {} -> {}", e.s.name, e.fmt, if intact { "intact" } else { "damaged" }, show_obs(&ran.obs))));
            let what = |m: &str| format!("{} stored as {:?} {:?} (value [{}]): {m}: {} -> {}", e.s.name, e.fmt, String::from_utf8_lossy(&e.bytes), e.view, String::from_utf8_lossy(now), show_obs(&ran.obs));
            if let Obs::Panic(_) | Obs::Broken(_) = ran.obs {
                return Err(bad("no answer", what("read back")));
            }
            cx.st.n(if intact { "disk:intact record read" } else { "disk:damaged record read" }, 1);
            if intact {
                if asymmetric(e.s) {
                    let as_known = match &e.s.spec {
                        // the stored bytes are read as if they were the encoded text
                        Spec::Base { .. } => known_base(e.s, e.fmt, now, &ran.obs),
                        _ => matches!(&out, Ok(Out::Xport(SimErr::Type(_)))) || matches!(ran.obs, Obs::Type | Obs::Custom(_)),
                    };
                    if as_known {
                        return Err(bad(format!("known:stored form is not the form read:{}", e.s.spec.kind()), what("read back intact")));
                    }
                    return Err(bad("a stored value changed", what("read back intact")));
                }
                match &ran.obs {
                    Obs::Val(v) if modulo_root(e.s, v) == modulo_root(e.s, &e.view) => {
                        let v2 = v;
                        if let Ok(Out::Val(v)) = &out {
                            let dbg = kit::debug_of(|w| v.debug(w));
                            // sets and maps may print in another order
                            if dbg != e.debug && *v2 == e.view && !matches!(e.s.spec, Spec::Length { .. } | Spec::Phone { .. }) {
                                return Err(bad("a stored value changed", format!("{}: {} -> {dbg}", what("read back intact"), e.debug)));
                            }
                        }
                    }
                    o => match known_wide(e.s, e.fmt, &e.view, o) {
                        Some(c) => return Err(bad(c, what("read back intact"))),
                        None => return Err(bad("a stored value changed", what("read back intact"))),
                    },
                }
            } else if let Obs::Val(v) = &ran.obs {
                // whatever the medium made of it, the type's rules hold
                let h = match e.fmt {
                    Fmt::Cbor if e.s.rich.is_some() => {
                        ciborium::from_reader::<ciborium::Value, _>(now).ok().and_then(|v| cbor_tok(&v)).map(|t| How::Real { fmt: Fmt::Cbor, cap: false, data: Data::Tok(t), chunk: WHOLE, eintr: 0, fail: None })
                    }
                    Fmt::Bincode if e.s.rich.is_some() => bincode::deserialize::<String>(now).ok().map(|t| How::De { cap: false, human: false, tok: Tok::str(t), chunk: WHOLE, fail: None }).filter(|_| tagless(e.s)),
                    _ => serde_json::from_slice::<serde_json::Value>(now).ok().map(|v| How::De { cap: false, human: true, tok: json_tok(&v), chunk: WHOLE, fail: None }),
                };
                if let Some(h) = h {
                    if let Some(x) = expected(e.s, &h) {
                        if let Err(m) = judge(e.s, &h, &x, &ran.obs) {
                            return Err(bad("a damaged record became a value the type would not admit", format!("{}\n  {m}", what("read back damaged"))));
                        }
                    }
                }
                if let Ok(Out::Val(x)) = &out {
                    if satisfies(e.s, &**x, v) == Some(false) {
                        return Err(bad("a damaged record became a value the type would not admit", what("read back damaged")));
                    }
                }
            }
        }
        Ok(())
    };
    for st in steps {
        match st {
            Step::Put { sub, how, fmt } => {
                let Some(s) = cx.ix.get(sub) else { continue };
                let (o, r) = cx.go(s, how);
                let Ok(Out::Val(v)) = o else { continue };
                let Obs::Val(view) = r.obs else { continue };
                if !carries(s, *fmt, &view) {
                    continue;
                }
                let Some(b) = store(s, &*v, *fmt) else {
                    alloc::quiet(|| log.push_str(&format!("; {sub} cannot be stored as {fmt:?}")));
                    cx.st.n("disk:not storable", 1);
                    // an admitted value always has a serialized form
                    if *fmt != Fmt::Bincode && !asymmetric(s) {
                        return Err(bad("an admitted value cannot be stored", format!("{} {:?} value [{view}]", s.name, fmt)));
                    }
                    continue;
                };
                let off = d.durable.len() + d.cache.len();
                alloc::quiet(|| log.push_str(&format!("; put {sub} {} bytes", b.len())));
                d.append(&b);
                recs.push(Entry { s, fmt: *fmt, off, bytes: b, debug: kit::debug_of(|w| v.debug(w)), view });
                cx.st.n("disk:put", 1);
            }
            Step::Sync => {
                d.sync();
                cx.st.n("disk:sync", 1);
            }
            Step::Crash { keep, garble } => {
                let unsynced = d.cache.len();
                d.crash(if unsynced == 0 { 0 } else { keep % (unsynced + 1) });
                if let Some((p, v)) = garble {
                    // only what had not been synced may be garbage
                    let lost_from = d.durable.len().saturating_sub(keep % (unsynced + 1));
                    let tail = d.durable.len() - lost_from;
                    if tail > 0 && unsynced > 0 {
                        let i = lost_from + p % tail;
                        d.durable[i] = *v;
                        cx.st.n("fault:garbled sector", 1);
                    }
                }
                cx.st.n("fault:crash", 1);
                // records of which nothing is left are gone; the others are read, torn or not
                let n = d.durable.len();
                let before = recs.len();
                recs.retain(|e| e.off < n);
                cx.st.n("fault:lost write", (before - recs.len()) as u64);
                if recs.last().is_some_and(|e| e.off + e.bytes.len() > n) {
                    cx.st.n("fault:torn write", 1);
                    // nothing may follow a torn record: start a new extent
                    d.append(b"\0");
                    d.sync();
                    let last = recs.pop().unwrap();
                    let (o, ran) = load(cx, last.s, last.fmt, &d.durable[last.off..n]);
                    alloc::quiet(|| log.push_str(&format!("; torn {} -> {}", last.s.name, show_obs(&ran.obs))));
                    if let Obs::Panic(_) = ran.obs {
                        return Err(bad("no answer", format!("{} reading a torn record {:?}", last.s.name, &d.durable[last.off..n])));
                    }
                    if let (Ok(Out::Val(x)), Obs::Val(v)) = (&o, &ran.obs) {
                        if satisfies(last.s, &**x, v) == Some(false) {
                            return Err(bad("a damaged record became a value the type would not admit", format!("{} torn {:?} -> {}", last.s.name, String::from_utf8_lossy(&d.durable[last.off..n]), show_obs(&ran.obs))));
                        }
                    }
                }
            }
            Step::Flip { pos, bit } => {
                let n = d.durable.len();
                if n > 0 {
                    d.flip(pos % n, *bit);
                    cx.st.n("fault:flipped bit", 1);
                }
            }
            Step::Byte { pos, v } => {
                let n = d.durable.len();
                if n > 0 {
                    d.durable[pos % n] = *v;
                    cx.st.n("fault:replaced byte", 1);
                }
            }
            Step::Read => read(&d, &recs, log)?,
        }
    }
    read(&d, &recs, log)
}
/// the raw bytes a decoded type stores are read back as an encoded text: exactly that, nothing else
fn known_base(s: &Subject, f: Fmt, stored: &[u8], o: &Obs) -> bool {
    let raw: Option<Vec<u8>> = match f {
        Fmt::Cbor => match ciborium::from_reader::<ciborium::Value, _>(stored) {
            Ok(ciborium::Value::Bytes(b)) => Some(b),
            _ => None,
        },
        Fmt::Bincode => None,
        _ => None,
    };
    match raw {
        Some(b) => match (model::judge_bytes(&s.spec, &b), o) {
            (model::Verdict::Ok(v), Obs::Val(w)) => v == *w,
            (model::Verdict::Bad(_), Obs::Custom(_)) => true,
            _ => false,
        },
        // JSON stores a list of numbers, which the type refuses as a representation
        None => matches!(o, Obs::Type),
    }
}

// ------------------------------------------------------------------ C09
fn relay(cx: &Cx<'_>, s: &Subject, h: &How, hops: &[Hop], log: &mut String) -> R {
    let (o, r) = cx.go(s, h);
    note(log, s, h, &r.obs);
    if let Some(b) = answered(s, h, &r.obs) {
        return Err(b);
    }
    let (Ok(Out::Val(mut v)), Obs::Val(view)) = (o, r.obs) else { return Ok(()) };
    if json_like(s) && inexact(&view) {
        return Ok(());
    }
    let forms = |v: &dyn DynVal| -> (Vec<(&'static str, String)>, Option<Tok>) { (v.texts(), v.ser(&SerCtx::default()).ok()) };
    let (t0, s0) = forms(&*v);
    // renderings obey the type's own rules and denote the value
    for (n, t) in &t0 {
        let m = model::judge_text(&s.spec, t);
        if !matches!(&m, model::Verdict::Ok(v) if modulo_root(s, v) == modulo_root(s, &view)) {
            return Err(bad("a canonical rendering does not denote the value", format!("{} value [{view}] renders as {n} {t:?}, which reads {}", s.name, show_exp(&Exp::V(m)))));
        }
    }
    let json = json_like(s);
    for hop in hops {
        let (how, form): (How, String) = match hop {
            Hop::Text { n, how } => {
                let t = v.texts();
                if t.is_empty() || s.text.is_none() {
                    continue;
                }
                let (name, t) = t[n % t.len()].clone();
                let form = format!("{name} {t:?}");
                (
                    match how {
                        TextIn::De if !json => How::De { cap: false, human: true, tok: Tok::Str(t, StrMode::Owned), chunk: 3, fail: None },
                        TextIn::Form => How::Text { gate: Gate::FormValue, views: vec![t], panic_at: None },
                        TextIn::Param => How::Text { gate: Gate::Param, views: vec![t], panic_at: None },
                        TextIn::ParseOwned => How::Text { gate: Gate::ParseString, views: vec![t], panic_at: None },
                        _ => How::Text { gate: Gate::ParseStr, views: vec![t], panic_at: None },
                    },
                    form,
                )
            }
            Hop::Ser { human, chunk } => match v.ser(&SerCtx { human: *human, ..Default::default() }) {
                Ok(t) => {
                    let form = format!("serialized {t:?}");
                    (How::De { cap: false, human: *human, tok: t, chunk: *chunk, fail: None }, form)
                }
                Err(e) => return Err(bad("an admitted value has no serialized form", format!("{} [{view}] -> {e}", s.name))),
            },
            Hop::Real { fmt, chunk } => {
                if s.rich.is_none() || !carries(s, *fmt, &view) {
                    continue;
                }
                let mut b = vec![];
                match v.write(*fmt, &mut b) {
                    Ok(()) => {
                        let form = format!("{fmt:?} {:?}", String::from_utf8_lossy(&b));
                        (How::Real { fmt: *fmt, cap: false, data: Data::Raw(b), chunk: *chunk, eintr: 2, fail: None }, form)
                    }
                    Err(e) => {
                        if *fmt == Fmt::Bincode {
                            continue;
                        }
                        return Err(bad("an admitted value has no serialized form", format!("{} [{view}] as {fmt:?} -> {e}", s.name)));
                    }
                }
            }
            Hop::Copy => {
                v = v.dup();
                if modulo_root(s, &v.view()) != modulo_root(s, &view) {
                    return Err(bad("a copy differs", format!("{} [{view}] -> [{}]", s.name, v.view())));
                }
                continue;
            }
        };
        let (o, r) = cx.go(s, &how);
        alloc::quiet(|| log.push_str(&format!("; {form} -> {}", show_obs(&r.obs))));
        let what = || format!("{} value [{view}] relayed as {form} -> {}", s.name, show_obs(&r.obs));
        if let Some(b) = answered(s, &how, &r.obs) {
            return Err(b);
        }
        if asymmetric(s) {
            let (bytes, fmt) = match &how {
                How::Real { fmt, data: Data::Raw(b), .. } => (b.clone(), *fmt),
                _ => (vec![], Fmt::JsonStr),
            };
            let as_known = match (&s.spec, &how) {
                (Spec::Base { .. }, How::De { tok: Tok::Bytes(b, _), .. }) => match (model::judge_bytes(&s.spec, b), &r.obs) {
                    (model::Verdict::Ok(v), Obs::Val(w)) => v == *w,
                    (model::Verdict::Bad(_), Obs::Custom(_)) => true,
                    _ => false,
                },
                (Spec::Base { .. }, How::Real { .. }) => known_base(s, fmt, &bytes, &r.obs),
                _ => matches!(r.obs, Obs::Type | Obs::Custom(_)),
            };
            return Err(if as_known {
                bad(format!("known:stored form is not the form read:{}", s.spec.kind()), what())
            } else {
                bad("a rendering is not accepted as the same value", what())
            });
        }
        match (o, &r.obs) {
            (Ok(Out::Val(n)), Obs::Val(w)) if modulo_root(s, w) == modulo_root(s, &view) => {
                let (t, sr) = forms(&*n);
                // hash tables have no order
                let unordered = matches!(s.spec, Spec::Length { .. });
                if t != t0 || sr != s0 && !unordered {
                    return Err(bad("a relayed value renders differently", format!("{}: {t0:?} {s0:?} -> {t:?} {sr:?}", what())));
                }
                v = n;
            }
            (_, o) => {
                if let How::Real { fmt, .. } = &how {
                    if let Some(c) = known_wide(s, *fmt, &view, o) {
                        return Err(bad(c, what()));
                    }
                }
                return Err(bad("a rendering is not accepted as the same value", what()));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
/// How a nested delivery is rendered.
pub const PLAIN: Show = Show { what: 0, fail: None, nest: None };
/// What a sink received, or how it ended.
fn rendered(o: &Result<Out, String>, x: &Show, id: u64, yields: bool, hook: Option<(u32, Box<dyn FnOnce()>)>) -> String {
    /// calls back at one of its steps
    struct Calling<'a>(&'a mut SimFmt, Option<(u32, Box<dyn FnOnce()>)>, u32);
    impl std::fmt::Write for Calling<'_> {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if matches!(&self.1, Some((at, _)) if *at == self.2) {
                self.1.take().unwrap().1();
            }
            self.2 += 1;
            self.0.write_str(s)
        }
    }
    match (o, x.what) {
        (Ok(Out::Val(v)), w @ 0..=1) => {
            let c = SerCtx { human: w == 0, fail_at: x.fail, fault_id: id, ..Default::default() };
            *c.nested.borrow_mut() = hook;
            let t = catch_unwind(AssertUnwindSafe(|| alloc::with_yields(yields, || v.ser(&c)))).map_err(panic_text);
            alloc::quiet(|| format!("{t:?}"))
        }
        (Ok(Out::Val(_) | Out::Rej(_)), w) => {
            let mut f = SimFmt::new(x.fail.map_or(usize::MAX / 2, |f| f.0 as usize));
            f.panic_id = matches!(x.fail, Some((_, Fault::Panic))).then_some(id);
            let mut c = Calling(&mut f, hook, 0);
            let t = catch_unwind(AssertUnwindSafe(|| {
                alloc::with_yields(yields, || match (o, w) {
                    (Ok(Out::Val(v)), 2) => v.debug(&mut c),
                    (Ok(Out::Val(v)), _) => v.wrap_debug(&mut c),
                    (Ok(Out::Rej(e)), 2) => e.debug(&mut c),
                    (Ok(Out::Rej(e)), 3) => e.wrap_debug(&mut c),
                    (Ok(Out::Rej(e)), _) => e.display(&mut c),
                    _ => Ok(()),
                })
            }))
            .map_err(panic_text);
            alloc::quiet(|| format!("{t:?} {:?}", f.got))
        }
        _ => String::new(),
    }
}
/// The complete outcome of an operation as a text.
pub fn alone(cx: &Cx<'_>, s: &Subject, a: &Act) -> String {
    let Act::Alone { how, inside, show } = a else { return String::new() };
    type Slot = std::sync::Arc<Mutex<Option<String>>>;
    // what is done in a call-back
    let inner = |n: &str, h: &How, id: u64, x: Option<Show>| -> (Slot, Option<Box<dyn FnOnce()>>) {
        let slot = Slot::default();
        let Some(p) = cx.ix.get(n).map(|s| s as *const Subject as usize) else { return (slot, None) };
        let (h, keep) = (h.clone(), slot.clone());
        let f: Box<dyn FnOnce()> = Box::new(move || {
            // SAFETY: the index lives as long as the process
            let s: &Subject = unsafe { &*(p as *const Subject) };
            let (o, r) = deliver_raw(s, &h, id, false);
            let mut t = show_all(&r.obs);
            if let Some(x) = x {
                t.push_str(&format!("; shown: {}", rendered(&o, &x, id, false, None)));
            }
            *keep.lock().unwrap() = Some(t);
        });
        (slot, Some(f))
    };
    let first = inside.as_ref().map(|(n, h)| inner(n, h, cx.id ^ 0x5A5A, None));
    let (slot, f) = first.unwrap_or_default();
    if let Some(f) = f {
        NESTED.with(|n| *n.borrow_mut() = Some(f));
    }
    let (o, r) = cx.go(s, how);
    NESTED.with(|n| n.borrow_mut().take());
    let nested = slot.lock().unwrap().take();
    let mut shown = None;
    let mut deeper = None;
    if let Some(x) = show {
        let (slot, f) = x.nest.as_ref().map(|(_, n, h)| inner(n, h, cx.id ^ 0xA5A5, Some(PLAIN))).unwrap_or_default();
        let hook = x.nest.as_ref().map(|n| n.0).zip(f);
        shown = Some(rendered(&o, x, cx.id, cx.yields, hook));
        deeper = slot.lock().unwrap().take();
    }
    alloc::quiet(|| {
        let mut t = format!("{} {} -> {}", s.name, show_how(how), show_all(&r.obs));
        if let Some(x) = &shown {
            t.push_str(&format!("; shown: {x}"));
        }
        if let (Some(x), Some((n, h))) = (&nested, inside) {
            t.push_str(&format!("; inside it: {n} {} -> {x}", show_how(h)));
        }
        if let (Some(x), Some(Show { nest: Some((_, n, h)), .. })) = (&deeper, show) {
            t.push_str(&format!("; inside its rendering: {n} {} -> {x}", show_how(h)));
        }
        t
    })
}
fn show_all(o: &Obs) -> String {
    match o {
        Obs::Val(v) => format!("value [{v}]"),
        o => format!("{o:?}"),
    }
}

// ------------------------------------------------------------------ C11
fn shift(cx: &Cx<'_>, s: &Subject, h: &How, log: &mut String) -> R {
    let ran = cx.run(s, h);
    note(log, s, h, &ran.obs);
    if let Some(b) = answered(s, h, &ran.obs) {
        return Err(b);
    }
    if matches!(ran.obs, Obs::NA) {
        return Ok(());
    }
    let shown: Vec<usize> = {
        let mut x = ran.shown.clone();
        x.dedup();
        x
    };
    cx.st.n(&format!("views shown:{}", if shown.len() > 1 { "several" } else { "one" }), 1);
    let verdicts: Vec<model::Verdict> = match h {
        How::Text { views, .. } => shown.iter().map(|i| model::judge_text(&s.spec, &views[*i])).collect(),
        How::Bytes { views, .. } => shown.iter().map(|i| model::judge_bytes(&s.spec, &views[*i])).collect(),
        How::Coll { tok, .. } => {
            let Spec::Length { min, max, coll } = s.spec else { return Ok(()) };
            let Some((n, view)) = model::coll_items(coll, tok) else { return Ok(()) };
            let mut l = ran.lens.clone();
            if l.is_empty() {
                l.push(n);
            }
            if l.len() > 1 {
                cx.st.n("lengths shown:several", 1);
            }
            l.iter()
                .map(|n| {
                    let w = model::judge_len(min, max, *n);
                    if w.is_empty() { model::Verdict::Ok(view.clone()) } else { model::Verdict::Bad(w) }
                })
                .collect()
        }
        _ => return Ok(()),
    };
    let ok = match &ran.obs {
        Obs::Val(v) => verdicts.iter().any(|m| *m == model::Verdict::Ok(v.clone())),
        Obs::Unit => verdicts.iter().any(|m| m.is_ok()),
        Obs::Rej(d, _) => verdicts.iter().any(|m| m.allows(d)),
        Obs::Custom(_) | Obs::Type => verdicts.iter().any(|m| !m.is_ok()),
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        let l: Vec<String> = verdicts.iter().map(|m| show_exp(&Exp::V(m.clone()))).collect();
        Err(bad("the verdict is about no view the source showed", format!("{} {} -> {}; shown {:?}{:?}: {}", s.name, show_how(h), show_obs(&ran.obs), shown, ran.lens, l.join(" / "))))
    }
}

// ------------------------------------------------------------------ C12
fn sink(cx: &Cx<'_>, s: &Subject, h: &How, what: Sink, at: &[u32], fault: Fault, log: &mut String) -> R {
    let (o, r) = cx.go(s, h);
    note(log, s, h, &r.obs);
    if let Some(b) = answered(s, h, &r.obs) {
        return Err(b);
    }
    let Ok(o) = o else { return Ok(()) };
    enum Thing {
        V(Box<dyn DynVal>),
        E(Box<dyn kit::DynErr>),
    }
    let thing = match o {
        Out::Val(v) => Thing::V(v),
        Out::Rej(e) => Thing::E(e),
        _ => return Ok(()),
    };
    let before = match &thing {
        Thing::V(v) => Some(v.view()),
        _ => None,
    };
    // a text sink: run(w)
    let text = |w: &mut dyn std::fmt::Write| -> std::fmt::Result {
        match (&thing, what) {
            (Thing::V(v), Sink::WrapDebug) => v.wrap_debug(w),
            // the host in it, displayed
            (Thing::V(v), Sink::Display) => v.display(w).unwrap_or_else(|| v.debug(w)),
            (Thing::V(v), _) => v.debug(w),
            (Thing::E(e), Sink::Display) => e.display(w),
            (Thing::E(e), Sink::WrapDebug) => e.wrap_debug(w),
            (Thing::E(e), _) => e.debug(w),
        }
    };
    let ctx = |m: &str| format!("{} {} -> {}; {what:?} into a sink with {fault:?}: {m}", s.name, show_how(h), show_obs(&r.obs));
    match (what, &thing) {
        (Sink::Write(f), Thing::V(v)) if s.rich.is_some() => {
            let mut full = vec![];
            if v.write(f, &mut full).is_err() {
                return Ok(());
            }
            for (i, n) in at.iter().enumerate() {
                let pos = *n as usize % (full.len() + 2);
                let mut w = SimWriter { chunk: [0, 1, 3][i % 3], eintr_every: [0, 2, 1][(i / 3) % 3], fail_at: Some((pos, fault)), id: cx.id, heals: n % 2 == 1, ..Default::default() };
                let out = catch_unwind(AssertUnwindSafe(|| alloc::with_yields(cx.yields, || v.write(f, &mut w)))).map_err(panic_text);
                cx.st.n("fault:short write", w.shorts as u64);
                cx.st.n("fault:interrupted write", w.eintrs as u64);
                if !full.starts_with(&w.got) {
                    return Err(bad("a failing sink got a corrupted rendering", ctx(&format!("failed at {pos}: got {:?} of {:?}", String::from_utf8_lossy(&w.got), String::from_utf8_lossy(&full)))));
                }
                let fired = w.fired || matches!(&out, Err(p) if *p == format!("sim#{}", cx.id));
                if fired {
                    cx.st.n(&format!("fault:sink {fault:?}"), 1);
                }
                let ok = match (&out, fired) {
                    (Ok(Ok(())), false) => w.got == full,
                    (Ok(Err(e)), true) => match fault_text(fault, cx.id) {
                        Some(t) => format!("{e:?}").contains(&t),
                        None => true,
                    },
                    (Err(_), true) => fault == Fault::Panic,
                    _ => false,
                };
                if !ok {
                    return Err(bad("a sink's failure was not returned", ctx(&format!("failed at {pos} (fired {fired}): {out:?}, got {} of {} bytes", w.got.len(), full.len()))));
                }
                let mut again = vec![];
                if v.write(f, &mut again).is_err() || again != full {
                    return Err(bad("a retry into a healthy sink differs", ctx(&format!("{:?} -> {:?}", String::from_utf8_lossy(&full), String::from_utf8_lossy(&again)))));
                }
            }
        }
        (Sink::Ser { human }, Thing::V(v)) => {
            let c = SerCtx { human, ..Default::default() };
            let full = v.ser(&c);
            let steps = c.step.get();
            let Ok(full) = full else { return Ok(()) };
            for n in at {
                let c = SerCtx { human, fail_at: Some((n % (steps + 1), fault)), fault_id: cx.id, ..Default::default() };
                let out = catch_unwind(AssertUnwindSafe(|| alloc::with_yields(cx.yields, || v.ser(&c)))).map_err(panic_text);
                if c.fired.get() {
                    cx.st.n(&format!("fault:sink {fault:?}"), 1);
                }
                let ok = match (&out, c.fired.get()) {
                    (Ok(Ok(t)), false) => *t == full,
                    (Ok(Err(SimErr::Fault(k, id))), true) => *k == fault && *id == cx.id,
                    (Err(p), true) => fault == Fault::Panic && *p == format!("sim#{}", cx.id),
                    _ => false,
                };
                if !ok {
                    return Err(bad("a sink's failure was not returned", ctx(&format!("step {}: {out:?}", n % (steps + 1)))));
                }
                match v.ser(&SerCtx { human, ..Default::default() }) {
                    Ok(t) if t == full => (),
                    x => return Err(bad("a retry into a healthy sink differs", ctx(&format!("{full:?} -> {x:?}")))),
                }
            }
        }
        (Sink::Write(_) | Sink::Ser { .. }, _) => (),
        _ => {
            let mut full = String::new();
            if text(&mut full).is_err() {
                return Err(bad("a healthy sink was failed", ctx("")));
            }
            // displays of wrapped third-party reasons are theirs; ours must report the sink's failure
            for (i, n) in at.iter().enumerate() {
                let cap = *n as usize % (full.len() + 2);
                let mut w = SimFmt::new(cap);
                w.heals = (*n as usize / (full.len() + 2) + i) % 2 == 1;
                if fault == Fault::Panic {
                    w.panic_id = Some(cx.id);
                }
                let out = catch_unwind(AssertUnwindSafe(|| alloc::with_yields(cx.yields, || text(&mut w)))).map_err(panic_text);
                let fired = w.fired.get();
                if fired {
                    cx.st.n(&format!("fault:sink {fault:?}"), 1);
                }
                if !full.starts_with(&w.got) {
                    return Err(bad("a failing sink got a corrupted rendering", ctx(&format!("full at {cap}: got {:?} of {full:?}", w.got))));
                }
                let ok = match (&out, fired) {
                    (Ok(Ok(())), false) => w.got == full,
                    (Ok(Err(_)), true) => fault != Fault::Panic,
                    (Err(p), true) => fault == Fault::Panic && *p == format!("sim#{}", cx.id),
                    _ => false,
                };
                if !ok {
                    return Err(bad("a sink's failure was not returned", ctx(&format!("full at {cap} (fired {fired}): {out:?}, got {:?} of {full:?}", w.got))));
                }
                let mut again = String::new();
                if text(&mut again).is_err() || again != full {
                    return Err(bad("a retry into a healthy sink differs", ctx(&format!("{full:?} -> {again:?}"))));
                }
            }
        }
    }
    if let (Thing::V(v), Some(b)) = (&thing, &before) {
        if v.view() != *b {
            return Err(bad("rendering changed the value", ctx(&format!("[{b}] -> [{}]", v.view()))));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C13
fn size(h: &How) -> usize {
    fn tok(t: &Tok) -> usize {
        match t {
            Tok::Str(s, _) => s.len(),
            Tok::Bytes(b, _) => b.len(),
            Tok::Seq(v) => v.iter().map(|t| 16 + tok(t)).sum(),
            Tok::Map(v) => v.iter().map(|(k, t)| 32 + tok(k) + tok(t)).sum(),
            Tok::Some(t) | Tok::Newtype(t) => 16 + tok(t),
            _ => 16,
        }
    }
    match h {
        How::Text { views, .. } => views.iter().map(|v| v.len()).max().unwrap_or(0),
        How::Bytes { views, .. } => views.iter().map(|v| v.len()).max().unwrap_or(0),
        How::Json { text, .. } => text.len() * 8,
        How::Coll { tok: t, .. } | How::De { tok: t, .. } | How::Real { data: Data::Tok(t), .. } => tok(t),
        How::Real { data: Data::Raw(b), .. } => b.len() * 8,
        How::Scalar { .. } => 16,
    }
}
/// `f` may claim only so much memory (bytes, in total) and stack and do only so much work (basic-block edges
/// in the library and the types derived with it) as is in proportion to a payload of this size. About ten times
/// what the present code needs at most.
fn bounded<R>(s: &Subject, n: usize, times: u64, f: impl FnOnce() -> R) -> R {
    let n = n as u64;
    let bytes = match s.spec.kind() {
        // the phone number library compiles a country's patterns when it first meets the country
        "phone" => (256 << 20) + 2048 * n,
        // the caller's pattern is compiled on first use, its caches grow with the text
        "regex" => (8 << 20) + 8192 * n,
        // serde reserves room for what the document's header announces, up to 1 MB of items, which a hash table doubles
        "length" | "json" => (4 << 20) + 2048 * n,
        _ => (256 << 10) + 2048 * n,
    };
    // nested documents are parsed by recursion (to a limit of the parser's own)
    let stack = match s.spec.kind() {
        "json" | "length" => 1 << 20,
        _ => 256 << 10,
    };
    cov::stack(stack + 8 * n as usize, || cov::budget((300_000 + 400 * n) * times, || alloc::budget(bytes * times, f).0).0).0
}
fn hostile(cx: &Cx<'_>, s: &Subject, h: &How, log: &mut String) -> R {
    let n = size(h);
    let (o, r) = bounded(s, n, 1, || cx.go(s, h));
    note(log, s, h, &r.obs);
    match &r.obs {
        Obs::Panic(p) if *p == format!("sim#{}", cx.id) && r.fired => {
            // the caller's own panic came out; the next validation works
            let calm = match h {
                How::Text { gate, views, .. } => How::Text { gate: *gate, views: views.clone(), panic_at: None },
                How::Bytes { gate, views, .. } => How::Bytes { gate: *gate, views: views.clone(), panic_at: None },
                How::De { cap, human, tok, chunk, .. } => How::De { cap: *cap, human: *human, tok: tok.clone(), chunk: *chunk, fail: None },
                How::Real { fmt, cap, data, chunk, eintr, .. } => How::Real { fmt: *fmt, cap: *cap, data: data.clone(), chunk: *chunk, eintr: *eintr, fail: None },
                h => h.clone(),
            };
            let again = bounded(s, n, 1, || cx.run(s, &calm));
            if let Some(b) = answered(s, &calm, &again.obs) {
                return Err(bad("not usable after a caller's panic", b.msg));
            }
            if let (How::Text { .. } | How::Bytes { .. }, Some(e)) = (&calm, expected(s, &calm)) {
                if let Err(m) = judge(s, &calm, &e, &again.obs) {
                    return Err(bad("not usable after a caller's panic", m));
                }
            }
            return Ok(());
        }
        o => {
            if let Some(b) = answered(s, h, o) {
                return Err(b);
            }
        }
    }
    // every rendering of what came out
    let render = |f: &dyn Fn()| catch_unwind(AssertUnwindSafe(|| bounded(s, n, 4, f))).map_err(panic_text);
    if let Ok(o) = &o {
        let done = render(&|| {
            let mut t = String::new();
            match o {
                Out::Val(v) => {
                    let _ = v.debug(&mut t);
                    let _ = v.texts();
                    let _ = v.ser(&SerCtx::default());
                    let _ = v.ser(&SerCtx { human: false, ..Default::default() });
                    let _ = v.dup();
                }
                Out::Rej(e) => {
                    let _ = e.debug(&mut t);
                    let _ = e.display(&mut t);
                }
                _ => (),
            }
        });
        if let Err(p) = done {
            return Err(bad("rendering panicked", format!("{} {} -> {}: {p}", s.name, show_how(h), show_obs(&r.obs))));
        }
    }
    if let Ok(Out::Rej(e)) = o {
        let got = catch_unwind(AssertUnwindSafe(|| {
            let d = kit::debug_of(|w| e.display(w));
            (d, kit::web::drain(e.respond()))
        }));
        match got {
            Err(p) => return Err(bad("rendering panicked", format!("{} {} as a response: {}", s.name, show_how(h), panic_text(p)))),
            Ok((d, (c, b))) => {
                if !(400..500).contains(&c) || String::from_utf8_lossy(&b) != d {
                    return Err(bad("the response to a refusal is not its reason", format!("{} {}: {c} {:?} for {d:?}", s.name, show_how(h), String::from_utf8_lossy(&b))));
                }
            }
        }
    }
    Ok(())
}
