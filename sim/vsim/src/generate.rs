//! From a seed to a plan: who sends what to whom, what the world does to it, and who runs when.
use crate::acts::Index;
use crate::how::*;
use crate::mk;
use crate::net::{Weather, route};
use crate::plan::*;
use kit::simcore::tok::{StrMode, Tok, W, WIDTHS};
use kit::simcore::{Fault, Rng};
use kit::{Fmt, Gate, NumGate, Spec, Subject};
use model::gen_;
use std::collections::BTreeMap;

pub const C01: [&str; 10] = ["text", "line", "regex", "length", "base32", "base64", "base64_url", "base32_decoded", "base64_decoded", "base64_url_decoded"];
pub const C02: [&str; 6] = ["unsigned_integer", "signed_integer", "number", "boolean", "bit", "byte"];
pub const C03: [&str; 7] = ["domain", "host", "ip", "ipv4", "ipv6", "mac_address", "uuid"];
pub const C04: [&str; 8] = ["email", "http_url", "http_ftp_url", "url", "phone", "semver", "semver_req", "json"];
/// weighted kinds a property is about
fn kinds(prop: &str) -> Vec<&'static str> {
    let w = |l: &[&'static str], n: usize| -> Vec<&'static str> { l.iter().flat_map(|k| std::iter::repeat_n(*k, n)).collect() };
    match prop {
        "C01" => C01.to_vec(),
        // the many integer widths and ranges
        "C02" => [w(&C02, 1), w(&["unsigned_integer", "signed_integer"], 2), w(&["number", "byte", "bit"], 1)].concat(),
        "C03" => [w(&C03, 1), w(&["function"], 1), w(&["domain"], 3), w(&["host"], 1)].concat(),
        "C04" => [w(&C04, 1), w(&["email"], 4), w(&["http_url", "http_ftp_url"], 1)].concat(),
        // racing initialisation is where validations share anything at all
        "C10" => [w(&C01, 2), w(&C02, 1), w(&C03, 1), w(&["function"], 1), w(&C04, 1), w(&["regex"], 10)].concat(),
        "C11" | "C12" | "C13" => [&C01[..], &C02, &C03, &C04, &["email", "domain", "function"]].concat(),
        _ => [&C01[..], &C02, &C03, &C04, &["email", "domain"]].concat(),
    }
}
pub const PROPS: [&str; 14] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

/// a public function takes a text and nothing else
const FUN: [Gate; 2] = [Gate::ParseStr, Gate::ParseString];

struct Gen<'a> {
    ix: &'a Index,
    r: Rng,
    prop: &'static str,
    kinds: Vec<&'static str>,
    env: BTreeMap<String, u64>,
    other: String,
    /// types this run is about
    cast: Vec<usize>,
    /// the last delivery and its type
    last: Option<(&'static str, How)>,
    /// the few texts a run of C10 is about, when it is about few
    few: Option<Vec<(&'static str, String)>>,
}
fn json_like(s: &Subject) -> bool {
    matches!(s.spec, Spec::Json | Spec::JsonT { .. })
}
fn quantity(s: &Subject) -> bool {
    matches!(s.spec, Spec::Bit { .. } | Spec::Byte { .. })
}
/// domain/A.. and domain/B.. are one kind
fn kind_of(name: &str) -> &str {
    name.split('/').next().unwrap_or(name)
}
impl Gen<'_> {
    fn pick_subject(&mut self, ok: fn(&Subject) -> bool) -> Option<usize> {
        for _ in 0..40 {
            let k = *self.r.pick(&self.kinds);
            if k == "phone" && self.prop == "C10" && !self.r.chance(1, 12) {
                continue;
            }
            let of = &self.ix.kind[k];
            let i = of[self.r.below(of.len())];
            if ok(&self.ix.list[i]) {
                return Some(i);
            }
        }
        None
    }
    fn fill_cast(&mut self, n: usize, ok: fn(&Subject) -> bool) {
        self.cast = (0..n).filter_map(|_| self.pick_subject(ok)).collect();
    }
    fn subject(&mut self) -> &'static Subject {
        let i = *self.r.pick(&self.cast);
        // SAFETY: the index lives as long as the process
        unsafe { &*(&self.ix.list[i] as *const Subject) }
    }
    fn count(&mut self, k: &str) {
        *self.env.entry(format!("wire:{k}")).or_default() += 1;
    }
    fn how(&mut self, s: &Subject) -> How {
        let (h, k) = mk::how(&mut self.r, s, &mut self.other);
        self.count(k);
        h
    }
    fn payload(&mut self, s: &Subject) -> String {
        let (t, k) = mk::payload(&mut self.r, s, &mut self.other);
        self.count(k);
        t
    }
    /// a payload the type admits, with luck
    fn good_how(&mut self, s: &Subject) -> How {
        let r = &mut self.r;
        if matches!(s.spec, Spec::Fun(_)) {
            return How::Text { gate: *r.pick(&FUN), views: vec![gen_::good_text(r, &s.spec)], panic_at: None };
        }
        if s.text.is_some() && r.chance(2, 3) {
            let t = gen_::good_text(r, &s.spec);
            if json_like(s) || r.chance(3, 4) {
                return How::Text { gate: *r.pick(&[Gate::ParseStr, Gate::ParseString, Gate::FormValue, Gate::Param]), views: vec![t], panic_at: None };
            }
            return How::De { cap: false, human: true, tok: Tok::Str(t, gen_::mode(r)), chunk: mk::chunk(r), fail: None };
        }
        for _ in 0..6 {
            let tok = gen_::tok_for(r, &s.spec);
            let human = !quantity(s) || !matches!(tok, Tok::U(..));
            let h = How::De { cap: false, human, tok, chunk: mk::chunk(r), fail: None };
            if let Some(model::expect::Exp::V(v)) = expected(s, &h) {
                if v.is_ok() {
                    return h;
                }
            }
        }
        self.how(s)
    }
    // ------------------------------------------------------------- C05
    fn agree(&mut self, s: &Subject) -> Vec<How> {
        let spec = &s.spec;
        let n = self.r.range(4, 10);
        let de = |r: &mut Rng, tok: Tok| How::De { cap: r.chance(1, 2), human: r.chance(3, 4), tok, chunk: mk::chunk(r), fail: None };
        let real = |r: &mut Rng, s: &Subject, tok: Tok| -> Option<How> {
            s.rich?;
            let fmt = *r.pick(&kit::FMTS);
            if fmt == Fmt::Bincode && (!tagless(s) || !matches!(tok, Tok::Str(..))) {
                return None;
            }
            Some(How::Real { fmt, cap: r.chance(1, 2), data: Data::Tok(tok), chunk: mk::chunk(r), eintr: *r.pick(&[0, 0, 1, 2, 5]), fail: None })
        };
        let mut out = vec![];
        if self.r.chance(1, 12) {
            let t = gen_::odd_tok(&mut self.r, spec);
            for _ in 0..n.min(4) {
                out.push(de(&mut self.r, t.clone()));
            }
            return out;
        }
        if json_like(s) {
            let v = gen_::json_for(&mut self.r, spec);
            let text = v.to_string();
            let r = &mut self.r;
            for _ in 0..n {
                match r.below(4) {
                    0 => out.push(How::Json { gate: *r.pick(&mk::NUM), text: text.clone() }),
                    1 => out.push(How::Text { gate: *r.pick(&mk::TEXT), views: vec![text.clone()], panic_at: None }),
                    2 => {
                        let t = gen_::json_tok(r, &v);
                        out.push(de(r, t));
                    }
                    _ => {
                        if s.rich.is_some() {
                            out.push(How::Real { fmt: *r.pick(&[Fmt::JsonStr, Fmt::JsonSlice, Fmt::JsonReader, Fmt::JsonValue]), cap: r.chance(1, 2), data: Data::Raw(text.clone().into_bytes()), chunk: mk::chunk(r), eintr: *r.pick(&[0, 1, 3]), fail: None });
                        }
                    }
                }
            }
            return out;
        }
        if let Spec::Length { min, max, coll } = spec {
            let t = gen_::coll_tok(&mut self.r, *coll, *min, *max);
            let r = &mut self.r;
            for _ in 0..n {
                out.push(match r.below(3) {
                    0 => How::Coll { parse: r.chance(1, 2), tok: t.clone(), lens: vec![] },
                    _ => de(r, t.clone()),
                });
            }
            return out;
        }
        // numbers as numbers
        if !s.scalar.is_empty() && self.r.chance(1, 2) {
            let r = &mut self.r;
            match spec {
                Spec::Num { .. } => {
                    let f = gen_::float(r, spec);
                    // a double as it is, which only the calls taking a double carry for certain
                    if r.chance(1, 3) {
                        for _ in 0..n {
                            out.push(How::Scalar { gate: *r.pick(&mk::NUM), s: Sc::F64(f.to_bits()) });
                        }
                        return out;
                    }
                    let f = f as f32;
                    for _ in 0..n {
                        out.push(match r.below(4) {
                            0 => How::Scalar { gate: *r.pick(&mk::NUM), s: Sc::F32(f.to_bits()) },
                            1 => How::Scalar { gate: *r.pick(&mk::NUM), s: Sc::F64((f as f64).to_bits()) },
                            2 => de(r, Tok::F32(f.to_bits())),
                            _ => de(r, Tok::F64((f as f64).to_bits())),
                        });
                    }
                    return out;
                }
                _ => {
                    let v = gen_::integer(r, spec);
                    let text = match v {
                        Ok(v) => v.to_string(),
                        Err(v) => v.to_string(),
                    };
                    let fits_text = match (spec, v) {
                        (Spec::UInt { bits, .. }, Ok(v)) => *bits == 128 || v < 1u128 << bits,
                        (Spec::SInt { bits, .. }, Ok(v)) => v < 1u128 << (bits - 1),
                        (Spec::SInt { bits, .. }, Err(v)) => *bits == 128 || v >= -(1i128 << (bits - 1)),
                        (Spec::Bool, Ok(_)) => true,
                        _ => false,
                    };
                    for _ in 0..n {
                        match r.below(3) {
                            0 => {
                                let fit = |w: &W| match v {
                                    Ok(v) => w.fits_u(v),
                                    Err(v) => w.fits_neg(v),
                                };
                                let ws: Vec<W> = WIDTHS.into_iter().filter(fit).collect();
                                let w = *r.pick(&ws);
                                let sc = match (v, w) {
                                    (Ok(v), W::U8 | W::U16 | W::U32 | W::U64 | W::U128) => Sc::U(v, w),
                                    (Ok(v), _) => Sc::I(v as i128, w),
                                    (Err(v), _) => Sc::I(v, w),
                                };
                                out.push(How::Scalar { gate: *r.pick(&mk::NUM), s: sc });
                            }
                            1 if quantity(s) => {
                                if let Ok(v) = v {
                                    out.push(How::De { cap: r.chance(1, 2), human: false, tok: Tok::U(v, W::U128), chunk: WHOLE, fail: None });
                                }
                            }
                            1 => {
                                let t = gen_::int_tok(r, v);
                                out.push(de(r, t));
                            }
                            _ if fits_text && s.text.is_some() => out.push(if r.chance(1, 2) {
                                How::Text { gate: *r.pick(&mk::TEXT), views: vec![text.clone()], panic_at: None }
                            } else {
                                let m = gen_::mode(r);
                                de(r, Tok::Str(text.clone(), m))
                            }),
                            _ => (),
                        }
                    }
                    return out;
                }
            }
        }
        let t = self.payload(s);
        let one = (t.chars().count() == 1).then(|| t.chars().next().unwrap());
        let r = &mut self.r;
        for _ in 0..n {
            match r.below(8) {
                0..=3 => out.push(How::Text { gate: *r.pick(&mk::TEXT), views: vec![t.clone()], panic_at: None }),
                4 if s.bytes.is_some() => out.push(How::Bytes { gate: *r.pick(&mk::BYTES), views: vec![t.clone().into_bytes()], panic_at: None }),
                4 if matches!(spec, Spec::Base { .. }) => {
                    let m = gen_::mode(r);
                    out.push(de(r, Tok::Bytes(t.clone().into_bytes(), m)))
                }
                4 if one.is_some() => {
                    out.push(if *spec == Spec::Bool && r.chance(1, 2) { How::Scalar { gate: *r.pick(&mk::NUM), s: Sc::Char(one.unwrap()) } } else { de(r, Tok::Char(one.unwrap())) });
                }
                5 => out.extend(real(r, s, tstr(&t))),
                _ => {
                    let m = gen_::mode(r);
                    out.push(de(r, Tok::Str(t.clone(), m)))
                }
            }
        }
        out
    }
    // ------------------------------------------------------------- C06
    fn fault(&mut self) -> Fault {
        *self.r.pick(&[Fault::Io, Fault::Io, Fault::Eof, Fault::Cancel, Fault::Panic])
    }
    fn cut(&mut self, s: &Subject) -> Act {
        let how = if s.rich.is_some() && self.r.chance(1, 2) {
            let fmt = *self.r.pick(&[Fmt::JsonReader, Fmt::Cbor, Fmt::Bincode, Fmt::JsonReader]);
            let fmt = if fmt == Fmt::Bincode && !tagless(s) { Fmt::Cbor } else { fmt };
            let tok = if fmt == Fmt::Bincode { tstr(&self.payload(s)) } else { mk::plain_tok(&mut self.r, s, &mut self.other) };
            let r = &mut self.r;
            How::Real { fmt, cap: r.chance(1, 2), data: Data::Tok(tok), chunk: mk::chunk(r), eintr: *r.pick(&[0, 0, 1, 2, 5]), fail: None }
        } else {
            let tok = if s.text.is_some() && !json_like(s) && self.r.chance(1, 2) { Tok::Str(self.payload(s), gen_::mode(&mut self.r)) } else { gen_::tok_for(&mut self.r, &s.spec) };
            let r = &mut self.r;
            How::De { cap: r.chance(1, 2), human: r.chance(3, 4), tok, chunk: mk::chunk(r), fail: None }
        };
        let n = self.r.range(2, 8);
        let first = self.r.below(64) as u32;
        // from anywhere, or a sweep from the start
        let sweep = self.r.chance(1, 2);
        let at = (0..n).map(|i| (if sweep { i as u32 } else { first + self.r.below(40) as u32 }, self.fault())).collect();
        Act::Cut { how, at }
    }
    // ------------------------------------------------------------- C07
    fn record(&mut self, s: &Subject) -> Act {
        let fmt = match self.r.below(9) {
            0..=2 => None,
            i => Some(kit::FMTS[(i - 3) % 6]),
        };
        let fmt = if fmt == Some(Fmt::Bincode) && !tagless(s) { None } else { fmt };
        let tok = |g: &mut Self| match fmt {
            None => {
                if s.text.is_some() && !json_like(s) && g.r.chance(2, 3) {
                    Tok::Str(g.payload(s), gen_::mode(&mut g.r))
                } else {
                    gen_::tok_for(&mut g.r, &s.spec)
                }
            }
            Some(Fmt::Bincode) => tstr(&g.payload(s)),
            Some(_) => mk::plain_tok(&mut g.r, s, &mut g.other),
        };
        let first = tok(self);
        let n = self.r.below(5);
        let list = (0..n).map(|_| tok(self)).collect();
        let opt = match self.r.below(3) {
            0 => None,
            _ => {
                let r = &mut self.r;
                if s.text.is_some() && !json_like(s) { Some(Tok::Str(gen_::good_text(r, &s.spec), StrMode::Transient)) } else { None }
            }
        };
        let last = tok(self);
        let mut order: Vec<u8> = (0..6).collect();
        if self.r.chance(2, 3) {
            self.r.shuffle(&mut order);
        }
        let extra = self.r.chance(1, 4).then(|| (self.r.below(7), Tok::Seq(vec![Tok::str("x"), Tok::U(7, W::U32)])));
        let fail = self.r.chance(1, 3).then(|| (self.r.below(400) as u32, self.fault()));
        let r = &mut self.r;
        Act::Record(Rec {
            id: r.u64() >> r.below(64),
            first,
            list,
            opt,
            last,
            tail: gen_::damage(r, "tail of the record", "x").0,
            order,
            extra,
            fmt,
            human: r.chance(3, 4),
            flat: matches!(fmt, Some(Fmt::JsonStr | Fmt::JsonSlice | Fmt::JsonReader | Fmt::JsonValue)) && r.chance(1, 3),
            chunk: mk::chunk(r),
            eintr: *r.pick(&[0, 0, 1, 2, 5]),
            fail,
        })
    }
    /// one payload through a bare gateway and the capturing ones beside it
    fn pair(&mut self, s: &Subject) -> Act {
        let h = self.how(s);
        let hows = match h {
            How::Text { views, .. } => {
                let mut g = vec![Gate::ParseStr, Gate::WrapStr, Gate::WrapString, Gate::WrapFromStr, Gate::FormValue, Gate::FormCaptured, Gate::Param];
                g.truncate(self.r.range(3, 8));
                g.into_iter().map(|gate| How::Text { gate, views: views.clone(), panic_at: None }).collect()
            }
            How::Bytes { views, .. } => [Gate::ParseSlice, Gate::WrapBytes, Gate::WrapVec].into_iter().map(|gate| How::Bytes { gate, views: views.clone(), panic_at: None }).collect(),
            How::Scalar { s, .. } => [NumGate::Parse, NumGate::Wrap].into_iter().map(|gate| How::Scalar { gate, s }).collect(),
            How::Json { text, .. } => [NumGate::Parse, NumGate::Wrap].into_iter().map(|gate| How::Json { gate, text: text.clone() }).collect(),
            How::De { human, tok, chunk, .. } => [false, true].into_iter().map(|cap| How::De { cap, human, tok: tok.clone(), chunk, fail: None }).collect(),
            // more than the bare quantity can be given as a number (the format's own error)
            How::Real { data: Data::Tok(Tok::U(n, _)), .. } if quantity(s) && n > u64::MAX as u128 => vec![],
            How::Real { fmt, data, chunk, eintr, .. } => [false, true].into_iter().map(|cap| How::Real { fmt, cap, data: data.clone(), chunk, eintr, fail: None }).collect(),
            How::Coll { tok, lens, .. } => vec![How::Coll { parse: true, tok: tok.clone(), lens }, How::De { cap: false, human: true, tok: tok.clone(), chunk: WHOLE, fail: None }, How::De { cap: true, human: true, tok, chunk: WHOLE, fail: None }],
        };
        Act::Agree { hows }
    }
    // ------------------------------------------------------------- C08
    fn disk(&mut self) -> Act {
        let mut steps = vec![];
        for _ in 0..self.r.range(3, 14) {
            match self.r.below(14) {
                0..=6 => {
                    let s = self.subject();
                    let how = self.good_how(s);
                    steps.push(Step::Put { sub: s.name.into(), how, fmt: *self.r.pick(&[Fmt::JsonReader, Fmt::JsonSlice, Fmt::Cbor, Fmt::Bincode, Fmt::JsonValue]) });
                }
                7 | 8 => steps.push(Step::Sync),
                9 => {
                    let garble = self.r.chance(1, 3).then(|| (self.r.below(64), self.r.u64() as u8));
                    steps.push(Step::Crash { keep: self.r.below(256), garble });
                }
                10 => steps.push(Step::Flip { pos: self.r.below(4096), bit: self.r.below(8) as u8 }),
                11 => {
                    let v = if self.r.chance(1, 2) { *self.r.pick(b"0123456789abcxyzABCXYZ.-:@\"\\/[]{}()=+ ") } else { self.r.u64() as u8 };
                    steps.push(Step::Byte { pos: self.r.below(4096), v });
                }
                _ => steps.push(Step::Read),
            }
        }
        Act::Disk(steps)
    }
    // ------------------------------------------------------------- C09
    fn relay(&mut self, s: &Subject) -> Act {
        let how = if self.r.chance(4, 5) { self.good_how(s) } else { self.how(s) };
        let hops = (0..self.r.range(1, 9))
            .map(|_| {
                let r = &mut self.r;
                match r.below(8) {
                    0..=3 => Hop::Text { n: r.below(8), how: *r.pick(&[TextIn::Parse, TextIn::ParseOwned, TextIn::Form, TextIn::Param, TextIn::De]) },
                    4 | 5 => Hop::Ser { human: !quantity(s) && r.chance(1, 4) || r.chance(3, 4), chunk: mk::chunk(r) },
                    6 => Hop::Real { fmt: *r.pick(&kit::FMTS), chunk: mk::chunk(r) },
                    _ => Hop::Copy,
                }
            })
            .collect();
        Act::Relay { how, hops }
    }
    // ------------------------------------------------------------- C10
    /// The last delivery to this type again, almost: a text of the same length which differs somewhere.
    fn twin(&mut self, s: &Subject) -> Option<How> {
        let (n, h) = self.last.clone()?;
        if n != s.name && (kind_of(n) != kind_of(s.name) || n.starts_with("function")) {
            return None;
        }
        let r = &mut self.r;
        let mut h = h;
        match &mut h {
            How::Text { views, panic_at, .. } => {
                *panic_at = None;
                views.iter_mut().for_each(|v| *v = gen_::twin(r, v));
            }
            How::Bytes { views, panic_at, .. } => {
                *panic_at = None;
                for v in views {
                    *v = gen_::twin(r, std::str::from_utf8(v).ok()?).into_bytes();
                }
            }
            How::De { tok: Tok::Str(t, _), fail, .. } => {
                *fail = None;
                *t = gen_::twin(r, t);
            }
            _ => return None,
        }
        Some(h)
    }
    /// One of the few texts of this run.
    fn again(&mut self, s: &Subject) -> Option<How> {
        s.text?;
        let few = self.few.as_mut()?;
        let r = &mut self.r;
        let own: Vec<String> = few.iter().filter(|(n, _)| kind_of(n) == kind_of(s.name)).map(|(_, t)| t.clone()).collect();
        let t = if own.len() < 2 || own.len() < 4 && r.chance(1, 3) {
            let t = match own.last() {
                Some(o) if r.chance(2, 3) => gen_::twin(r, o),
                Some(o) if r.chance(1, 2) => gen_::damage(r, o, &self.other).0,
                _ => gen_::good_text(r, &s.spec),
            };
            few.push((s.name, t.clone()));
            t
        } else {
            r.pick(&own).clone()
        };
        if matches!(s.spec, Spec::Fun(_)) {
            return Some(How::Text { gate: FUN[0], views: vec![t], panic_at: None });
        }
        if s.bytes.is_some() && r.chance(1, 4) {
            return Some(How::Bytes { gate: *r.pick(&mk::BYTES), views: vec![t.into_bytes()], panic_at: None });
        }
        if r.chance(1, 4) {
            return Some(How::De { cap: r.chance(1, 2), human: true, tok: Tok::Str(t, gen_::mode(r)), chunk: mk::chunk(r), fail: None });
        }
        Some(How::Text { gate: *r.pick(&[Gate::ParseStr, Gate::ParseStr, Gate::ParseStr, Gate::ParseString, Gate::ValidateStr, Gate::FormValue]), views: vec![t], panic_at: None })
    }
    /// Something that happens while `s` is validated or rendered.
    fn company(&mut self, s: &'static Subject) -> (String, How) {
        let o = if self.r.chance(1, 2) { s } else { self.subject() };
        let again = if self.few.is_some() { self.again(o) } else { None };
        let again = if again.is_none() && self.r.chance(1, 2) { self.twin(o) } else { again };
        let h = match again {
            Some(h) => h,
            None => self.how(o),
        };
        (o.name.to_string(), h)
    }
    fn alone(&mut self, s: &'static Subject) -> Act {
        let again = if self.few.is_some() && self.r.chance(5, 6) { self.again(s) } else { None };
        let again = if again.is_none() && self.r.chance(2, 5) { self.twin(s) } else { again };
        let mut how = match again {
            Some(h) => h,
            None if self.r.chance(1, 4) => self.good_how(s),
            None => self.how(s),
        };
        self.last = Some((s.name, how.clone()));
        let r = &mut self.r;
        if r.chance(1, if self.few.is_some() { 12 } else { 5 }) {
            match &mut how {
                How::Text { panic_at, .. } | How::Bytes { panic_at, .. } => *panic_at = Some(r.below(2)),
                How::De { fail, .. } => *fail = Some((r.below(8) as u32, *r.pick(&[Fault::Panic, Fault::Cancel, Fault::Io, Fault::Panic]))),
                How::Real { fail, .. } => *fail = Some((r.below(12), *r.pick(&[Fault::Panic, Fault::Cancel, Fault::Io]))),
                _ => (),
            }
        }
        let inside = if self.r.chance(1, 4) { Some(self.company(s)) } else { None };
        // maps print in an order of their own
        let orderly = |n: &str| !matches!(kind_of(n), "phone" | "length" | "json");
        let show = if orderly(s.name) && self.r.chance(1, 4) {
            let what = self.r.below(4) as u8;
            let fail = if self.r.chance(1, 4) {
                let k = *self.r.pick(&[Fault::Io, Fault::Cancel, Fault::Panic]);
                Some((self.r.below(if what < 2 { 2 } else { 30 }) as u32, k))
            } else {
                None
            };
            let nest = if self.r.chance(1, 2) {
                let (n, h) = self.company(s);
                orderly(&n).then(|| (self.r.below(if what < 2 { 1 } else { 6 }) as u32, n, h))
            } else {
                None
            };
            Some(Show { what, fail, nest })
        } else {
            None
        };
        Act::Alone { how, inside, show }
    }
    // ------------------------------------------------------------- C11
    fn shift(&mut self, s: &Subject) -> Option<Act> {
        let n = self.r.range(2, 4);
        if s.coll.is_some() {
            let tok = gen_::tok_for(&mut self.r, &s.spec);
            let Spec::Length { min, max, .. } = s.spec else { return None };
            let lens = (0..n)
                .map(|_| {
                    let r = &mut self.r;
                    let b = if r.chance(1, 2) { min.unwrap_or(0) } else { max.unwrap_or(5) };
                    (b + r.below(3)).saturating_sub(1)
                })
                .collect();
            return Some(Act::Shift(How::Coll { parse: self.r.chance(2, 3), tok, lens }));
        }
        s.text?;
        let base = gen_::good_text(&mut self.r, &s.spec);
        let mut views: Vec<String> = (0..n)
            .map(|_| {
                let r = &mut self.r;
                match r.below(5) {
                    0 => base.clone(),
                    1 => gen_::good_text(r, &s.spec),
                    2 => gen_::damage(r, &base, &self.other).0,
                    3 => gen_::text_for(r, &s.spec),
                    _ => {
                        let o = gen_::good_text(r, &s.spec);
                        gen_::damage(r, &base, &o).0
                    }
                }
            })
            .collect();
        if self.r.chance(1, 2) {
            views[0] = base.clone();
        }
        if self.r.chance(1, 8) {
            // at one look there is nothing
            let k = self.r.below(views.len());
            views[k].clear();
        }
        self.other = base;
        if s.bytes.is_some() && self.r.chance(1, 3) {
            let views = views.into_iter().map(|v| v.into_bytes()).collect();
            return Some(Act::Shift(How::Bytes { gate: *self.r.pick(&mk::BYTES), views, panic_at: None }));
        }
        let gates: &[Gate] = if matches!(s.spec, Spec::Fun(_)) { &FUN } else { &[Gate::ParseStr, Gate::ParseStr, Gate::ParseString, Gate::ValidateStr, Gate::WrapStr, Gate::WrapString] };
        Some(Act::Shift(How::Text { gate: *self.r.pick(gates), views, panic_at: None }))
    }
    // ------------------------------------------------------------- C12
    fn sink(&mut self, s: &Subject) -> Act {
        let good = self.r.chance(3, 5);
        let how = if good { self.good_how(s) } else { self.how(s) };
        let r = &mut self.r;
        let what = match r.below(8) {
            0 | 1 => Sink::Debug,
            2 => Sink::WrapDebug,
            3 => Sink::Display,
            4 => Sink::Ser { human: r.chance(2, 3) },
            _ if good && s.rich.is_some() => {
                let f = *r.pick(&[Fmt::JsonReader, Fmt::Cbor, Fmt::Bincode]);
                Sink::Write(if f == Fmt::Bincode && !tagless(s) { Fmt::Cbor } else { f })
            }
            _ if good => Sink::Debug,
            _ => Sink::Display,
        };
        let n = r.range(2, 8);
        let sweep = r.chance(1, 3);
        let base = r.below(40) as u32;
        let at = (0..n).map(|i| if sweep { i as u32 + base } else { r.below(300) as u32 }).collect();
        Act::Sink { how, what, at, fault: *r.pick(&[Fault::Io, Fault::Io, Fault::Cancel, Fault::Panic]) }
    }
    // ------------------------------------------------------------- C13
    fn monster(&mut self, s: &Subject) -> String {
        const UNITS: &[&str] = &[
            ".", "a.", "a", "-", "--", "@", "\"", "\\", "\\\"", "(", ")", "()", "(a)", "((", "[", "]", "[]", ":", "::", "1:", "0", "9", "1", "0.", "255.", "xn--", "xn--a.", "XN--", "%", "%00", "%ff", "\0", "\u{7f}", "\n", "\r\n", "\t", " ", "\u{3000}", "\u{85}", "é", "ﬀ", "１", "．", "。", "ß", "İ", "\u{200d}", "\u{ad}", "\u{301}",
            "\u{202e}", "\u{feff}", "\u{fffd}", "\u{10ffff}", "👩‍👩‍👧", "=", "==", "{", "}", "{\"a\":", "[[", "[1,", ",", "\"a\",", "1e", "e9", "E+", "+", "/", "//", "http://", "ftp://", "?", "#", "&", "_", "a@", "@a", "x.y@", "IPv6:", "[IPv6:", "::1", "[::1]", ":80", ":65536", "localhost", ".localhost", "true", "inf", "NaN", "0x", "1.0.0-", "1.0.0+", "~", "^", "*", "||", ">=", "+1", "+886", "ext", ";", "KiB", "GB", "e",
            "٣", "𝟘", "़", "ــ", "א", "ا1",
        ];
        // numbers are written with digits, and soon judged
        let numeric = matches!(s.spec.kind(), "signed_integer" | "unsigned_integer" | "number" | "bit" | "byte" | "boolean");
        let n = {
            let top = match self.r.below(12) {
                0 => 14,
                1..=2 if numeric => 14,
                1..=3 => 11,
                _ => 9,
            };
            let b = self.r.range(1, top);
            match model::lits::count(&mut self.r, s.spec.kind(), 4, 10_000) {
                Some(n) => n,
                None => 1 + self.r.below(1 << b),
            }
        };
        const COMMON: &[&str] = &[" ", " ", "0", "a", "A", ".", "-", "(", "\"", "\\", "1", "a.", "=", "\t", ":", "/"];
        let unit = if self.r.chance(1, 3) { *self.r.pick(COMMON) } else { *self.r.pick(UNITS) };
        let unit = if (numeric || matches!(s.spec.kind(), "phone" | "semver" | "semver_req")) && self.r.chance(1, 3) { *self.r.pick(&["0", "0", "1", "9", "-", "+", ".", " "]) } else { unit };
        let mut t = String::new();
        match self.r.below(6) {
            0 => t = unit.repeat(n),
            1 => {
                for _ in 0..n.min(600) {
                    t.push_str(self.r.pick(UNITS));
                }
            }
            2 => {
                let g = gen_::good_text(&mut self.r, &s.spec);
                let at = match self.r.below(6) {
                    0 => 0,
                    1 => g.len(),
                    _ => gen_::floor(&g, self.r.below(g.len() + 1)),
                };
                let u = unit.repeat(n);
                t = format!("{}{u}{}", &g[..at], &g[at..]);
            }
            3 => {
                let g = gen_::good_text(&mut self.r, &s.spec);
                t = g.repeat(1 + n.min(8000 / (g.len() + 1)));
            }
            4 => {
                for _ in 0..n.min(4000) {
                    let c = match self.r.below(4) {
                        0 => self.r.below(0x80) as u32,
                        1 => self.r.below(0x800) as u32,
                        2 => self.r.below(0x10000) as u32,
                        _ => self.r.below(0x110000) as u32,
                    };
                    t.extend(char::from_u32(c));
                }
            }
            _ => {
                let g = gen_::text_for(&mut self.r, &s.spec);
                let o = self.other.clone();
                t = gen_::damage(&mut self.r, &g, &o).0;
                for _ in 0..self.r.below(4) {
                    t = gen_::damage(&mut self.r, &t, &o).0;
                }
            }
        }
        self.other = t.chars().take(100).collect();
        t
    }
    fn hostile(&mut self, s: &Subject) -> Act {
        let mut pick = self.r.below(16);
        if matches!(s.spec, Spec::Fun(_)) && (5..=12).contains(&pick) {
            pick = 0;
        }
        let h = match pick {
            0..=4 if s.text.is_some() => {
                let t = self.monster(s);
                let r = &mut self.r;
                let gate = if matches!(s.spec, Spec::Fun(_)) { *r.pick(&FUN) } else { *r.pick(&mk::TEXT) };
                // the caller's own code may unwind when the library asks for the text
                let panic_at = r.chance(1, 8).then(|| r.below(3));
                How::Text { gate, views: vec![t], panic_at }
            }
            5 if s.bytes.is_some() => {
                let mut b = self.monster(s).into_bytes();
                for _ in 0..self.r.below(6) {
                    if !b.is_empty() {
                        let i = self.r.below(b.len());
                        b[i] = self.r.u64() as u8;
                    }
                }
                How::Bytes { gate: *self.r.pick(&mk::BYTES), views: vec![b], panic_at: self.r.chance(1, 8).then(|| self.r.below(3)) }
            }
            6 if s.json.is_some() || json_like(s) => {
                // nested deeper than anyone would
                let top = self.r.range(1, 14);
                let n = 1 + self.r.below(1 << top);
                let unit = *self.r.pick(&["[", "{\"a\":", "[[],", "[{\"a\":"]);
                let mut t = unit.repeat(n);
                if self.r.chance(1, 2) {
                    t.push('1');
                    for _ in 0..n {
                        t.push_str(if unit.ends_with(':') { "}" } else { "]" });
                    }
                }
                How::Text { gate: *self.r.pick(&mk::TEXT), views: vec![t], panic_at: None }
            }
            7 if s.coll.is_some() => {
                let tok = gen_::tok_for(&mut self.r, &s.spec);
                let lens = (0..self.r.below(3)).map(|_| *self.r.pick(&[0, 1, usize::MAX, usize::MAX - 1, i64::MAX as usize])).collect();
                How::Coll { parse: self.r.chance(1, 2), tok, lens }
            }
            8..=10 => {
                let tok = match self.r.below(5) {
                    0 | 1 => Tok::Str(self.monster(s), gen_::mode(&mut self.r)),
                    2 => {
                        let mut b = self.monster(s).into_bytes();
                        if !b.is_empty() {
                            let i = self.r.below(b.len());
                            b[i] = 0xff;
                        }
                        Tok::Bytes(b, gen_::mode(&mut self.r))
                    }
                    3 => gen_::odd_tok(&mut self.r, &s.spec),
                    _ => {
                        let mut t = gen_::tok_for(&mut self.r, &s.spec);
                        for _ in 0..self.r.below(60) {
                            t = match self.r.below(3) {
                                0 => Tok::Seq(vec![t]),
                                1 => Tok::Map(vec![(Tok::str("a"), t)]),
                                _ => Tok::Some(Box::new(t)),
                            };
                        }
                        t
                    }
                };
                let r = &mut self.r;
                let fail = r.chance(1, 6).then(|| (r.below(6) as u32, *r.pick(&[Fault::Panic, Fault::Io, Fault::Cancel])));
                How::De { cap: r.chance(1, 2), human: r.chance(3, 4), tok, chunk: mk::chunk(r), fail }
            }
            11 | 12 if s.rich.is_some() => {
                let fmt = *self.r.pick(&kit::FMTS);
                let fmt = if fmt == Fmt::Bincode && !tagless(s) { Fmt::Cbor } else { fmt };
                let mut data = match self.r.below(3) {
                    0 => self.monster(s).into_bytes(),
                    1 => {
                        let t = tstr(&self.monster(s));
                        encode(fmt, &t).unwrap_or_default()
                    }
                    _ => {
                        let t = mk::plain_tok(&mut self.r, s, &mut self.other);
                        encode(fmt, &t).unwrap_or_default()
                    }
                };
                for _ in 0..self.r.below(5) {
                    if !data.is_empty() {
                        let i = self.r.below(data.len());
                        data[i] = self.r.u64() as u8;
                    }
                }
                let r = &mut self.r;
                How::Real { fmt, cap: r.chance(1, 2), data: Data::Raw(data), chunk: mk::chunk(r), eintr: *r.pick(&[0, 1, 3]), fail: None }
            }
            _ => {
                let h = self.how(s);
                match (h, self.r.chance(1, 6)) {
                    (How::Text { gate, views, .. }, true) => How::Text { gate, views, panic_at: Some(self.r.below(2)) },
                    (How::Bytes { gate, views, .. }, true) => How::Bytes { gate, views, panic_at: Some(self.r.below(2)) },
                    (h, _) => h,
                }
            }
        };
        Act::Hostile(h)
    }
    // ------------------------------------------------------------- C14
    fn web(&mut self) -> Act {
        let n = self.r.range(2, 7);
        let w = Weather::any(&mut self.r);
        let mut env = std::mem::take(&mut self.env);
        let arr = route(&mut self.r, n, &w, &mut env);
        self.env = env;
        let mut base: Vec<Req> = vec![];
        for _ in 0..n {
            let s = self.subject();
            let route = *self.r.pick(&[Route::Json, Route::Json, Route::Cap, Route::Cap, Route::Form, Route::Query, Route::Path, Route::Raw, Route::Raw, Route::RocketForm, Route::RocketForm, Route::RocketCap, Route::RocketCap, Route::RocketOpt, Route::RocketMany, Route::Opt]);
            let json = (matches!(route, Route::Json | Route::Cap | Route::Opt) && (json_like(s) || self.r.chance(1, 4)))
                .then(|| {
                    let t = mk::plain_tok(&mut self.r, s, &mut self.other);
                    encode(Fmt::JsonStr, &t).and_then(|b| String::from_utf8(b).ok())
                })
                .flatten();
            let text = if self.r.chance(1, 3) { gen_::good_text(&mut self.r, &s.spec) } else { self.payload(s) };
            let absent = self.r.chance(1, 12);
            let again = if route == Route::RocketMany { (2, 3) } else { (1, 12) };
            let mut more = vec![];
            while self.r.chance(again.0, again.1) && more.len() < 4 {
                more.push(if self.r.chance(1, 2) { gen_::good_text(&mut self.r, &s.spec) } else { self.payload(s) });
            }
            base.push(Req { sub: s.name.into(), route, text, json, absent, more, wire: vec![] });
        }
        let mut out = vec![];
        for a in arr {
            let mut q = base[a.msg].clone();
            let r = &mut self.r;
            let mut t = a.t;
            let step = r.range(1, 30_000);
            let whole = r.chance(1, 3);
            if !whole {
                for _ in 0..r.below(8) {
                    t += r.below(step) as u64;
                    q.wire.push((t, if r.chance(1, 4) { Wire::Poll } else { Wire::Bytes(r.below(14)) }));
                }
            }
            t += r.below(step) as u64;
            match r.below(14) {
                0 => q.wire.push((t, Wire::Break)),
                1 => q.wire.push((t, Wire::Abort)),
                2 => q.wire.push((t, Wire::End)),
                _ => q.wire.push((t, Wire::Rest)),
            }
            if r.chance(1, 5) {
                q.wire.push((t + r.below(step) as u64, Wire::Poll));
            }
            out.push(q);
        }
        Act::Web(out)
    }
}

pub fn plan(ix: &Index, prop: &'static str, seed: u64) -> Plan {
    let r = Rng::derive(seed, prop, 0);
    let mut g = Gen { ix, r, prop, kinds: kinds(prop), env: BTreeMap::new(), other: String::new(), cast: vec![], last: None, few: None };
    if prop == "C10" && g.r.chance(1, 2) {
        g.few = Some(vec![]);
        g.kinds = kinds("C11");
    }
    let cast = match prop {
        "C10" => g.r.range(1, 3),
        _ => g.r.range(2, 8),
    };
    let ok: fn(&Subject) -> bool = match prop {
        "C07" if g.r.chance(1, 2) => |s| s.rich.is_some(),
        "C11" => |s| s.text.is_some() || s.coll.is_some(),
        "C14" => |s| s.web.is_some(),
        _ => |_| true,
    };
    g.fill_cast(cast, ok);
    if let (Some(_), Some(&i), true) = (&g.few, g.cast.first(), g.r.chance(1, 3)) {
        // types which differ in their rules only
        if let Some(of) = ix.kind.get(kind_of(ix.list[i].name)) {
            g.cast = vec![i, of[g.r.below(of.len())], of[g.r.below(of.len())]];
        }
    }
    let msgs = match prop {
        "C01" | "C02" | "C03" | "C04" => g.r.range(20, 60),
        "C05" | "C06" | "C12" => g.r.range(8, 20),
        "C07" | "C13" => g.r.range(10, 24),
        "C08" | "C09" => g.r.range(4, 12),
        "C10" if g.few.is_some() => g.r.range(4, 12),
        "C10" => g.r.range(2, 7),
        "C11" => g.r.range(15, 40),
        _ => g.r.range(2, 4),
    };
    let mut acts: Vec<(String, Act)> = vec![];
    for _ in 0..msgs {
        let s = g.subject();
        let act = match prop {
            "C01" | "C02" | "C03" | "C04" => Act::Judge(g.how(s)),
            "C05" => Act::Agree { hows: g.agree(s) },
            "C06" => g.cut(s),
            "C07" if g.r.chance(1, 12) => {
                let one = |r: &mut Rng| (r.chance(1, 2), r.range(0, 5) as i8 - 2);
                Act::Laws { a: one(&mut g.r), b: one(&mut g.r) }
            }
            "C07" if s.rich.is_none() || g.r.chance(1, 3) => g.pair(s),
            "C07" => g.record(s),
            "C08" => g.disk(),
            "C09" => g.relay(s),
            "C10" => g.alone(s),
            "C11" => match g.shift(s) {
                Some(a) => a,
                None => continue,
            },
            "C12" => g.sink(s),
            "C13" => g.hostile(s),
            _ => g.web(),
        };
        acts.push((s.name.to_string(), act));
    }
    let w = Weather::any(&mut g.r);
    let arrivals = {
        let mut env = std::mem::take(&mut g.env);
        let a = route(&mut g.r, acts.len(), &w, &mut env);
        g.env = env;
        a
    };
    // how many tasks serve the arrivals
    let many = match prop {
        "C10" if g.few.is_some() => g.r.chance(1, 2),
        "C10" => g.r.chance(9, 10),
        _ => g.r.chance(1, 4),
    };
    let ntasks = if many { g.r.range(2, 4) } else { 1 };
    let mut tasks: Vec<Vec<Op>> = vec![vec![]; ntasks];
    let mut sim_us = 0;
    for (i, a) in arrivals.into_iter().enumerate() {
        sim_us = sim_us.max(a.t);
        let (sub, act) = acts[a.msg].clone();
        // a retried or duplicated message of C10 has its baseline once
        let op = Op { t: a.t, id: (a.msg as u64) + 1000 * a.copy as u64 + 1, sub, act, via: a.via };
        let k = if ntasks == 1 { 0 } else { g.r.below(ntasks) };
        let _ = i;
        tasks[k].push(op);
    }
    if prop == "C10" {
        // identical deliveries must be identical operations: their failures carry the same mark
        for t in &mut tasks {
            for o in t {
                o.id = o.id % 1000;
            }
        }
    }
    if prop == "C10" && g.r.chance(1, 30) {
        // a long history: one operation over and over, among the others
        let k = g.r.below(tasks.len());
        if !tasks[k].is_empty() {
            let i = g.r.below(tasks[k].len());
            let n = *g.r.pick(&[8, 20, 66, 130, 260, 520, 1030]) + g.r.below(4);
            let o = tasks[k][i].clone();
            let at = g.r.below(tasks[k].len() + 1);
            tasks[k].splice(at..at, std::iter::repeat_n(o, n));
        }
    }
    tasks.retain(|t| !t.is_empty());
    let sched = if tasks.len() < 2 {
        Sched::Inline
    } else {
        let (num, den) = *g.r.pick(&[(1, 2), (1, 4), (1, 10), (1, 40), (1, 150)]);
        Sched::Seed { seed: g.r.u64(), num, den }
    };
    let edges = match sched {
        Sched::Inline => None,
        _ if g.r.chance(1, 3) => None,
        _ => Some((g.r.u64(), *g.r.pick(&[4, 15, 60, 250, 1000]))),
    };
    Plan { property: prop.into(), seed, sched, edges, tasks, sim_us, env: g.env }
}
