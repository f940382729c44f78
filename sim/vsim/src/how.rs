//! One delivery of one payload through one gateway of one type, and what came back.
use kit::simcore::alloc;
use kit::simcore::de::DeCtx;
use kit::simcore::tok::{StrMode, Tok, W};
use kit::simcore::{Fault, SimPanic};
use kit::{Fmt, Gate, NumGate, Obs, Out, Scalar, Src, SrcLog, Stream, Subject};
use model::expect::{Exp, expect};
use serde::{Deserialize, Serialize};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// a scalar call, stored exactly
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sc {
    U(#[serde(with = "kit::simcore::tok::as_text")] u128, W),
    I(#[serde(with = "kit::simcore::tok::as_text")] i128, W),
    Usize(u64),
    Isize(i64),
    F32(u32),
    F64(u64),
    Bool(bool),
    Char(char),
}
impl Sc {
    pub fn scalar(self) -> Scalar {
        match self {
            Sc::U(v, w) => Scalar::U(v, w),
            Sc::I(v, w) => Scalar::I(v, w),
            Sc::Usize(v) => Scalar::Usize(v as usize),
            Sc::Isize(v) => Scalar::Isize(v as isize),
            Sc::F32(b) => Scalar::F32(f32::from_bits(b)),
            Sc::F64(b) => Scalar::F64(f64::from_bits(b)),
            Sc::Bool(b) => Scalar::Bool(b),
            Sc::Char(c) => Scalar::Char(c),
        }
    }
}
pub const WHOLE: usize = usize::MAX;
fn whole() -> usize {
    WHOLE
}
fn is_whole(x: &usize) -> bool {
    *x == WHOLE
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
    /// `views`: what the source shows on successive reads (one: a constant source)
    Text { gate: Gate, views: Vec<String>, #[serde(default, skip_serializing_if = "Option::is_none")] panic_at: Option<usize> },
    Bytes { gate: Gate, views: Vec<Vec<u8>>, #[serde(default, skip_serializing_if = "Option::is_none")] panic_at: Option<usize> },
    Scalar { gate: NumGate, s: Sc },
    Json { gate: NumGate, text: String },
    Coll { parse: bool, tok: Tok, lens: Vec<usize> },
    De { cap: bool, human: bool, tok: Tok, #[serde(default = "whole", skip_serializing_if = "is_whole")] chunk: usize, #[serde(default, skip_serializing_if = "Option::is_none")] fail: Option<(u32, Fault)> },
    Real { fmt: Fmt, cap: bool, data: Data, #[serde(default = "whole", skip_serializing_if = "is_whole")] chunk: usize, #[serde(default)] eintr: u32, #[serde(default, skip_serializing_if = "Option::is_none")] fail: Option<(usize, Fault)> },
}
/// content of a document in a real format
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Data {
    Tok(Tok),
    Raw(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Ran {
    pub obs: Obs,
    /// the injected failure happened
    pub fired: bool,
    /// steps of the simulated deserializer
    pub steps: u32,
    pub shown: Vec<usize>,
    pub lens: Vec<usize>,
}
/// serializes a token into a real format
pub struct TokSer<'a>(pub &'a Tok);
impl Serialize for TokSer<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match self.0 {
            Tok::Unit => s.serialize_unit(),
            Tok::None => s.serialize_none(),
            Tok::Some(t) => s.serialize_some(&TokSer(t)),
            Tok::Newtype(t) => s.serialize_newtype_struct("N", &TokSer(t)),
            Tok::Bool(b) => s.serialize_bool(*b),
            Tok::Char(c) => s.serialize_char(*c),
            Tok::U(v, w) => match w {
                W::U8 => s.serialize_u8(*v as u8),
                W::U16 => s.serialize_u16(*v as u16),
                W::U32 => s.serialize_u32(*v as u32),
                W::U64 => s.serialize_u64(*v as u64),
                W::U128 => s.serialize_u128(*v),
                W::I8 => s.serialize_i8(*v as i8),
                W::I16 => s.serialize_i16(*v as i16),
                W::I32 => s.serialize_i32(*v as i32),
                W::I64 => s.serialize_i64(*v as i64),
                W::I128 => s.serialize_i128(*v as i128),
            },
            Tok::N(v, w) => match w {
                W::I8 => s.serialize_i8(*v as i8),
                W::I16 => s.serialize_i16(*v as i16),
                W::I32 => s.serialize_i32(*v as i32),
                W::I64 => s.serialize_i64(*v as i64),
                _ => s.serialize_i128(*v),
            },
            Tok::F32(b) => s.serialize_f32(f32::from_bits(*b)),
            Tok::F64(b) => s.serialize_f64(f64::from_bits(*b)),
            Tok::Str(x, _) => s.serialize_str(x),
            Tok::Bytes(x, _) => s.serialize_bytes(x),
            Tok::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for t in v {
                    q.serialize_element(&TokSer(t))?;
                }
                q.end()
            }
            Tok::Map(v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    q.serialize_entry(&TokSer(k), &TokSer(x))?;
                }
                q.end()
            }
        }
    }
}
pub fn encode(f: Fmt, t: &Tok) -> Option<Vec<u8>> {
    match f {
        Fmt::Cbor => {
            let mut v = vec![];
            ciborium::into_writer(&TokSer(t), &mut v).ok()?;
            Some(v)
        }
        Fmt::Bincode => bincode::serialize(&TokSer(t)).ok(),
        _ => serde_json::to_vec(&TokSer(t)).ok(),
    }
}
pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(SimPanic(id)) = p.downcast_ref::<SimPanic>() {
        format!("sim#{id}")
    } else if let Some(s) = p.downcast_ref::<&str>() {
        format!("panicked: {s}")
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("panicked: {s}")
    } else {
        "panicked".into()
    }
}
thread_local! { pub static NESTED: std::cell::RefCell<Option<Box<dyn FnOnce()>>> = const { std::cell::RefCell::new(None) }; }

thread_local! { static SHELF: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(vec![]) }; }
/// One buffer after the other is read into the same memory, as a server does with its requests.
fn shelf<'a>(views: impl Iterator<Item = &'a [u8]>) -> Vec<Vec<u8>> {
    let mut v = SHELF.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let mut n = 0;
    for x in views {
        if v.len() <= n {
            v.push(Vec::with_capacity(256));
        }
        v[n].clear();
        v[n].extend_from_slice(x);
        n += 1;
    }
    v.truncate(n);
    v
}
fn put_back(v: Vec<Vec<u8>>) {
    if v.iter().all(|x| x.capacity() < 0x10000) {
        SHELF.with(|s| *s.borrow_mut() = v);
    }
}

/// Deliver, keeping the raw outcome (value or refusal) for whoever needs it.
pub fn deliver_raw(s: &Subject, h: &How, id: u64, yields: bool) -> (Result<Out, String>, Ran) {
    let mut ran = Ran { obs: Obs::NA, fired: false, steps: 0, shown: vec![], lens: vec![] };
    let nested = NESTED.with(|n| n.borrow_mut().take());
    let go = |f: &mut dyn FnMut() -> Out| -> Result<Out, String> { catch_unwind(AssertUnwindSafe(|| alloc::with_yields(yields, f))).map_err(panic_text) };
    let out = match h {
        How::Text { views, .. } if views.is_empty() => Ok(Out::NA),
        How::Bytes { views, .. } if views.is_empty() => Ok(Out::NA),
        How::Text { gate, views, panic_at } => {
            let v = shelf(views.iter().map(|s| s.as_bytes()));
            let log = SrcLog::default();
            let mut nest = nested;
            let o = go(&mut || match s.text {
                Some(f) => {
                    let mut src = Src::new(&v, &log);
                    src.panic_at = panic_at.map(|n| (n, id));
                    *src.nested.borrow_mut() = nest.take().map(|f| f as Box<dyn FnOnce()>);
                    f(*gate, src)
                }
                None => Out::NA,
            });
            ran.shown = log.shown.into_inner();
            put_back(v);
            ran.fired = panic_at.is_some_and(|n| ran.shown.len() == n && matches!(o, Err(_)));
            o
        }
        How::Bytes { gate, views, panic_at } => {
            let v = shelf(views.iter().map(|s| s.as_slice()));
            let log = SrcLog::default();
            let o = go(&mut || match s.bytes {
                Some(f) => {
                    let mut src = Src::new(&v, &log);
                    src.panic_at = panic_at.map(|n| (n, id));
                    f(*gate, src)
                }
                None => Out::NA,
            });
            ran.shown = log.shown.into_inner();
            put_back(v);
            ran.fired = panic_at.is_some_and(|n| ran.shown.len() == n && matches!(o, Err(_)));
            o
        }
        How::Scalar { gate, s: sc } => go(&mut || s.call_scalar(*gate, sc.scalar())),
        How::Json { gate, text } => match serde_json::from_str::<serde_json::Value>(text) {
            Ok(v) => go(&mut || s.json.map_or(Out::NA, |f| f(*gate, v.clone()))),
            Err(_) => Ok(Out::NA),
        },
        How::Coll { parse, tok, lens } => {
            kit::OWN_LENS.with(|l| *l.borrow_mut() = lens.iter().copied().collect());
            kit::OWN_SHOWN.with(|l| l.borrow_mut().clear());
            let ctx = DeCtx::default();
            let o = go(&mut || s.coll.map_or(Out::NA, |f| f(*parse, tok, &ctx)));
            kit::OWN_LENS.with(|l| l.borrow_mut().clear());
            ran.lens = kit::OWN_SHOWN.with(|l| l.borrow().clone());
            o
        }
        How::De { cap, human, tok, chunk, fail } => {
            let ctx = DeCtx { human: *human, chunk: *chunk, fail_at: *fail, fault_id: id, ..Default::default() };
            if let Some(f) = nested {
                *ctx.nested.borrow_mut() = Some((1, f));
            }
            kit::OWN_SHOWN.with(|l| l.borrow_mut().clear());
            let o = go(&mut || if *cap { (s.de_cap)(tok, &ctx) } else { (s.de)(tok, &ctx) });
            ran.fired = ctx.fired.get();
            ran.steps = ctx.step.get();
            o
        }
        How::Real { fmt, cap, data, chunk, eintr, fail } => {
            let enc;
            let bytes: Option<&[u8]> = match data {
                Data::Raw(b) => Some(b),
                Data::Tok(t) => {
                    enc = encode(*fmt, t);
                    enc.as_deref()
                }
            };
            match (bytes, s.rich) {
                (Some(b), Some(r)) => {
                    let st = Stream { chunk: *chunk, eintr_every: *eintr, fail_at: *fail, id };
                    let mut fired = false;
                    let o = go(&mut || {
                        let (o, l) = (r.from)(*fmt, b, st, *cap);
                        fired = l.fired;
                        o
                    });
                    ran.fired = fired || matches!(&o, Err(p) if *p == format!("sim#{id}"));
                    o
                }
                _ => Ok(Out::NA),
            }
        }
    };
    // views are taken outside of the library, but value inspection itself may call it: guard as well
    ran.obs = match &out {
        Ok(o) => match catch_unwind(AssertUnwindSafe(|| o.obs())) {
            Ok(o) => o,
            Err(p) => Obs::Panic(format!("while showing the outcome: {}", panic_text(p))),
        },
        Err(p) => Obs::Panic(p.clone()),
    };
    (out, ran)
}
pub fn deliver(s: &Subject, h: &How, id: u64, yields: bool) -> Ran {
    deliver_raw(s, h, id, yields).1
}

/// What the reference says about a delivery without failures and with constant sources.
pub fn expected(s: &Subject, h: &How) -> Option<Exp> {
    let spec = &s.spec;
    Some(match h {
        How::Text { views, .. } => {
            s.text?;
            Exp::V(model::judge_text(spec, views.first()?))
        }
        How::Bytes { views, .. } => {
            s.bytes?;
            Exp::V(model::judge_bytes(spec, views.first()?))
        }
        How::Scalar { s: sc, .. } => Exp::V(model::judge_scalar(spec, sc.scalar())?),
        How::Json { text, .. } => {
            s.json?;
            Exp::V(model::judge_json(spec, &serde_json::from_str(text).ok()?))
        }
        How::Coll { tok, .. } => expect(spec, tok, true),
        How::De { tok, human, .. } => expect(spec, tok, *human),
        How::Real { fmt, data: Data::Tok(t), .. } => {
            s.rich?;
            real_expected(s, *fmt, t)?
        }
        How::Real { .. } => return None,
    })
}
/// which kinds a format without type tags can carry
pub fn tagless(s: &Subject) -> bool {
    matches!(s.spec.kind(), "text" | "line" | "regex" | "host" | "ip" | "ipv4" | "ipv6" | "mac_address" | "uuid" | "email" | "http_url" | "http_ftp_url" | "url" | "phone" | "semver" | "semver_req")
}
fn real_expected(s: &Subject, f: Fmt, t: &Tok) -> Option<Exp> {
    use kit::Spec;
    match f {
        Fmt::Bincode => match t {
            Tok::Str(..) if tagless(s) => Some(expect(&s.spec, t, false)),
            Tok::U(_, W::U128) if matches!(s.spec, Spec::Byte { .. } | Spec::Bit { .. }) => Some(expect(&s.spec, t, false)),
            _ => None,
        },
        Fmt::Cbor => {
            let t = match t {
                // delivered as the narrowest float; integers as 64-bit or big
                Tok::F32(b) => Tok::F64((f32::from_bits(*b) as f64).to_bits()),
                Tok::Char(_) | Tok::Some(_) | Tok::Newtype(_) | Tok::Seq(_) | Tok::Map(_) | Tok::Unit | Tok::None => return None,
                // a byte string is read as a sequence where one is asked for
                Tok::Bytes(..) if matches!(s.spec, Spec::Length { .. }) => return None,
                Tok::U(v, _) if *v > u64::MAX as u128 => return None,
                Tok::N(v, _) if *v < -(1i128 << 64) => return None,
                Tok::U(v, _) if matches!(s.spec, Spec::Byte { .. } | Spec::Bit { .. }) => Tok::U(*v, W::U128),
                t => t.clone(),
            };
            if matches!(s.spec, Spec::Json | Spec::JsonT { .. }) {
                return None;
            }
            Some(expect(&s.spec, &t, false))
        }
        _ => {
            // ask the format itself what it makes of the document
            let text = encode(f, t)?;
            let v: serde_json::Value = serde_json::from_slice(&text).ok()?;
            let t = match v {
                serde_json::Value::String(s) => Tok::str(s),
                serde_json::Value::Bool(b) => Tok::Bool(b),
                serde_json::Value::Number(n) => {
                    if let Some(u) = n.as_u64() {
                        Tok::U(u as u128, W::U64)
                    } else if let Some(i) = n.as_i64() {
                        Tok::N(i as i128, W::I64)
                    } else {
                        Tok::F64(n.as_f64()?.to_bits())
                    }
                }
                // some collections read null as empty, from some sources
                serde_json::Value::Null if matches!(s.spec, Spec::Length { .. }) => return None,
                serde_json::Value::Null => Tok::Unit,
                v if matches!(s.spec, Spec::Json | Spec::JsonT { .. }) => return Some(Exp::FormOr(model::judge_json(&s.spec, &v))),
                _ => return None,
            };
            let e = expect(&s.spec, &t, true);
            Some(match e {
                // the reason's own text reads like a refused representation
                Exp::V(v) if matches!(s.spec, Spec::Json | Spec::JsonT { .. }) => Exp::FormOr(v),
                e => e,
            })
        }
    }
}
/// Compare an outcome with what the reference demands. `shown` text of a refusal that carries only text is
/// compared with the captured form of the same delivery.
pub fn judge(s: &Subject, h: &How, exp: &Exp, obs: &Obs) -> Result<(), String> {
    use model::Verdict;
    let bad = |why: &str| Err(format!("{why}: {} {} -> {} but the declared rules say {}", s.name, show_how(h), show_obs(obs), show_exp(exp)));
    let v = match exp {
        Exp::Form => {
            return match obs {
                Obs::Type | Obs::Custom(_) | Obs::NA => Ok(()),
                Obs::Panic(_) | Obs::Broken(_) => bad("no answer"),
                Obs::Rej(..) => bad("a representation the type cannot carry was judged"),
                _ => bad("a representation the type cannot carry became a value"),
            };
        }
        Exp::FormOr(v) => {
            if matches!(obs, Obs::Type) {
                return Ok(());
            }
            v
        }
        Exp::V(v) => v,
    };
    match (v, obs) {
        (_, Obs::NA) => Ok(()),
        (_, Obs::Panic(_)) => bad("no answer"),
        (_, Obs::Broken(_)) => bad("unfaithful wrapper"),
        (Verdict::Ok(w), Obs::Val(o)) => {
            if w == o {
                Ok(())
            } else {
                bad("the value is not what the payload denotes")
            }
        }
        (Verdict::Ok(_), Obs::Unit) => Ok(()),
        (Verdict::Ok(_), _) => bad("an acceptable payload was refused"),
        (Verdict::Bad(_), Obs::Val(_) | Obs::Unit) => bad("a payload that breaks a declared rule was admitted"),
        (Verdict::Bad(_), Obs::Rej(d, _)) => {
            if v.allows(d) {
                Ok(())
            } else {
                bad("the reason is not a rule the payload breaks")
            }
        }
        (Verdict::Bad(_), Obs::Custom(_)) => Ok(()),
        (Verdict::Bad(_), Obs::Type) => {
            if matches!(exp, Exp::V(_)) {
                bad("a payload the type can carry was refused as a representation")
            } else {
                Ok(())
            }
        }
        (Verdict::Bad(_), Obs::Fault(_)) => bad("a failure nobody injected"),
    }
}
fn cut(s: String) -> String {
    if s.len() > 300 { format!("{}…({} bytes)", &s[..model::gen_::floor(&s, 300)], s.len()) } else { s }
}
pub fn show_how(h: &How) -> String {
    cut(match h {
        How::Text { gate, views, .. } => format!("{gate:?}{views:?}"),
        How::Bytes { gate, views, .. } => format!("{gate:?}{:?}", views.iter().map(|v| String::from_utf8_lossy(v).into_owned()).collect::<Vec<_>>()),
        How::De { cap, human, tok, chunk, fail } => format!("De(captured={cap},human={human},chunk={},fail={fail:?}) {tok:?}", if *chunk == WHOLE { "whole".into() } else { chunk.to_string() }),
        How::Real { fmt, cap, data: Data::Raw(b), chunk, eintr, fail } => format!("{fmt:?}(captured={cap},chunk={},eintr={eintr},fail={fail:?}) {:?}", if *chunk == WHOLE { "whole".into() } else { chunk.to_string() }, String::from_utf8_lossy(b)),
        h => format!("{h:?}"),
    })
}
pub fn show_obs(o: &Obs) -> String {
    cut(match o {
        Obs::Val(v) => format!("value [{v}]"),
        Obs::Unit => "accepted".into(),
        Obs::Rej(d, _) => format!("refusal {d}"),
        Obs::Custom(s) => format!("refusal {s:?}"),
        Obs::Type => "representation refused".into(),
        o => format!("{o:?}"),
    })
}
pub fn show_exp(e: &Exp) -> String {
    use model::Verdict;
    let v = |v: &Verdict| match v {
        Verdict::Ok(v) => format!("value [{v}]"),
        Verdict::Bad(r) => format!("refusal for one of {r:?}"),
    };
    cut(match e {
        Exp::V(x) => v(x),
        Exp::Form => "representation refused".into(),
        Exp::FormOr(x) => format!("representation refused, or {}", v(x)),
    })
}
pub fn tstr(s: &str) -> Tok {
    Tok::Str(s.into(), StrMode::Transient)
}
