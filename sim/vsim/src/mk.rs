//! Making deliveries from a seed.
use crate::how::{Data, How, Sc, WHOLE, tagless};
use kit::simcore::Rng;
use kit::simcore::tok::{Tok, W};
use kit::{Fmt, Gate, NumGate, Spec, Subject};
use model::gen_;

pub const TEXT: [Gate; 9] = [Gate::ParseStr, Gate::ParseString, Gate::ValidateStr, Gate::WrapStr, Gate::WrapString, Gate::WrapFromStr, Gate::FormValue, Gate::FormCaptured, Gate::Param];
pub const BYTES: [Gate; 5] = [Gate::ParseSlice, Gate::ParseVec, Gate::ValidateSlice, Gate::WrapBytes, Gate::WrapVec];
pub const NUM: [NumGate; 3] = [NumGate::Parse, NumGate::Validate, NumGate::Wrap];

/// a text payload, perhaps damaged on the wire; names what happened
pub fn payload(r: &mut Rng, s: &Subject, other: &mut String) -> (String, &'static str) {
    let (t, k) = match r.below(10) {
        0..=1 => (gen_::good_text(r, &s.spec), "sent"),
        2..=3 => {
            let g = gen_::good_text(r, &s.spec);
            gen_::damage(r, &g, other)
        }
        4 => {
            let g = gen_::text_for(r, &s.spec);
            gen_::damage(r, &g, other)
        }
        _ => (gen_::text_for(r, &s.spec), "sent"),
    };
    *other = t.clone();
    (t, k)
}
pub fn chunk(r: &mut Rng) -> usize {
    *r.pick(&[WHOLE, WHOLE, 1, 2, 3, 7, 16])
}
pub fn scalar(r: &mut Rng, spec: &Spec) -> Sc {
    let any = |r: &mut Rng| match gen_::integer(r, spec) {
        Ok(v) => match r.below(3) {
            0 if v <= u64::MAX as u128 => Sc::Usize(v as u64),
            1 if v <= i128::MAX as u128 => Sc::I(v as i128, gen_::pick_width(r, &[W::I8, W::I16, W::I32, W::I64, W::I128].into_iter().filter(|w| w.fits_u(v)).collect::<Vec<_>>())),
            _ => Sc::U(v, gen_::pick_width(r, &[W::U8, W::U16, W::U32, W::U64, W::U128].into_iter().filter(|w| w.fits_u(v)).collect::<Vec<_>>())),
        },
        Err(v) => {
            if v >= i64::MIN as i128 && r.chance(1, 4) {
                Sc::Isize(v as i64)
            } else {
                Sc::I(v, gen_::pick_width(r, &[W::I8, W::I16, W::I32, W::I64, W::I128].into_iter().filter(|w| w.fits_neg(v)).collect::<Vec<_>>()))
            }
        }
    };
    let fl = |r: &mut Rng| {
        let f = gen_::float(r, spec);
        if r.chance(1, 2) { Sc::F64(f.to_bits()) } else { Sc::F32((f as f32).to_bits()) }
    };
    match spec {
        Spec::Num { .. } => fl(r),
        Spec::Bool => match r.below(3) {
            0 => Sc::Bool(r.chance(1, 2)),
            1 => Sc::Char(*r.pick(&['t', 'T', 'f', 'F', 'y', 'n', 'N', 'Y', '0', '1', '2', 'x', 'é', '１', 'o'])),
            _ => any(r),
        },
        Spec::Json | Spec::JsonT { .. } => match r.below(3) {
            0 => Sc::Bool(r.chance(1, 2)),
            1 => fl(r),
            _ => any(r),
        },
        Spec::SInt { .. } => loop {
            match any(r) {
                Sc::U(v, W::U64) if v <= i64::MAX as u128 && r.chance(1, 2) => return Sc::Isize(v as i64),
                s @ (Sc::I(..) | Sc::Isize(_)) => return s,
                Sc::U(v, _) if v <= i128::MAX as u128 => return Sc::I(v as i128, gen_::pick_width(r, &[W::I8, W::I16, W::I32, W::I64, W::I128].into_iter().filter(|w| w.fits_u(v)).collect::<Vec<_>>())),
                _ => (),
            }
        },
        _ => loop {
            match any(r) {
                s @ (Sc::U(..) | Sc::Usize(_)) => return s,
                _ => (),
            }
        },
    }
}
/// a token a real format can hold unambiguously
pub fn plain_tok(r: &mut Rng, s: &Subject, other: &mut String) -> Tok {
    if s.text.is_some() && r.chance(2, 3) && !matches!(s.spec, Spec::Json | Spec::JsonT { .. }) {
        return crate::how::tstr(&payload(r, s, other).0);
    }
    loop {
        let t = gen_::tok_for(r, &s.spec);
        match &t {
            Tok::Bytes(..) | Tok::Char(_) | Tok::None | Tok::Some(_) | Tok::Newtype(_) => (),
            Tok::F32(_) => (),
            Tok::F64(b) if !f64::from_bits(*b).is_finite() => (),
            _ => return t,
        }
    }
}
/// one delivery through a random gateway
pub fn how(r: &mut Rng, s: &Subject, other: &mut String) -> (How, &'static str) {
    let json = matches!(s.spec, Spec::Json | Spec::JsonT { .. });
    if matches!(s.spec, Spec::Fun(_)) {
        let (t, k) = payload(r, s, other);
        return (How::Text { gate: *r.pick(&[Gate::ParseStr, Gate::ParseString]), views: vec![t], panic_at: None }, k);
    }
    loop {
        match r.below(12) {
            0..=3 if s.text.is_some() => {
                let (t, k) = payload(r, s, other);
                return (How::Text { gate: *r.pick(&TEXT), views: vec![t], panic_at: None }, k);
            }
            4 if s.bytes.is_some() => {
                let (t, k) = payload(r, s, other);
                let mut b = t.into_bytes();
                if r.chance(1, 8) && !b.is_empty() {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                }
                return (How::Bytes { gate: *r.pick(&BYTES), views: vec![b], panic_at: None }, k);
            }
            5 if !s.scalar.is_empty() => return (How::Scalar { gate: *r.pick(&NUM), s: scalar(r, &s.spec) }, "sent"),
            6 if s.json.is_some() => return (How::Json { gate: *r.pick(&NUM), text: gen_::json_for(r, &s.spec).to_string() }, "sent"),
            7 if s.coll.is_some() => {
                let tok = gen_::tok_for(r, &s.spec);
                return (How::Coll { parse: r.chance(2, 3), tok, lens: vec![] }, "sent");
            }
            8..=10 => {
                let (tok, k) = if s.text.is_some() && !json && r.chance(1, 2) {
                    let (t, k) = payload(r, s, other);
                    (Tok::Str(t, gen_::mode(r)), k)
                } else {
                    (gen_::tok_for(r, &s.spec), "sent")
                };
                return (How::De { cap: r.chance(1, 2), human: r.chance(3, 4), tok, chunk: chunk(r), fail: None }, k);
            }
            11 if s.rich.is_some() => {
                let fmt = *r.pick(&kit::FMTS);
                if fmt == Fmt::Bincode && !tagless(s) {
                    continue;
                }
                let tok = if fmt == Fmt::Bincode { crate::how::tstr(&payload(r, s, other).0) } else { plain_tok(r, s, other) };
                return (How::Real { fmt, cap: r.chance(1, 2), data: Data::Tok(tok), chunk: chunk(r), eintr: *r.pick(&[0, 0, 1, 2, 5]), fail: None }, "sent");
            }
            _ => (),
        }
    }
}
