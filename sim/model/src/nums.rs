use crate::{Verdict, Why};
use kit::{Rng, Scalar, Spec, Tri};
use simcore::tok::W;

fn umax(bits: u32) -> u128 {
    if bits == 128 { u128::MAX } else { (1 << bits) - 1 }
}
fn srange(bits: u32) -> (i128, i128) {
    if bits == 128 { (i128::MIN, i128::MAX) } else { (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) }
}
fn range<T: PartialOrd + Copy>(w: &mut Why, r: &Rng<T>, v: T) {
    match *r {
        Rng::Any => (),
        Rng::In { min, max, incl } => {
            w.if_(min.is_some_and(|m| v < m), "TooSmall");
            w.if_(max.is_some_and(|m| if incl { v > m } else { v >= m }), "TooLarge");
        }
        Rng::Out { min, max, incl } => {
            let above = min.is_none_or(|m| v >= m);
            let below = max.is_none_or(|m| if incl { v <= m } else { v < m });
            w.if_(above && below, "Forbidden");
        }
    }
}
fn uint(bits: u32, r: &Rng<u128>, v: u128) -> Verdict {
    let mut w = Why::default();
    range(&mut w, r, v);
    w.if_(v > umax(bits) && !w.0.contains(&"TooLarge"), "TooLarge");
    w.verdict(|| kit::view! {"n": v.to_string()})
}
fn sint(bits: u32, r: &Rng<i128>, v: i128) -> Verdict {
    let mut w = Why::default();
    range(&mut w, r, v);
    let (lo, hi) = srange(bits);
    w.if_(v > hi, "TooLarge");
    w.if_(v < lo, "TooSmall");
    w.verdict(|| kit::view! {"n": v.to_string()})
}
fn float(f32_: bool, r: &Rng<f64>, nan: Tri, v: f64) -> Verdict {
    let mut w = Why::default();
    if v.is_nan() {
        w.if_(nan == Tri::D, "NaNDisallow");
    } else {
        w.if_(nan == Tri::M, "NaNMust");
        range(&mut w, r, v);
    }
    let _ = f32_;
    w.verdict(|| kit::fview(v))
}
/// `Ok` digits with sign, exactly as far as 128 bits go
fn int_text(s: &str, signed: bool) -> Option<Result<i128, (bool, u128)>> {
    let (neg, d) = match s.as_bytes().first()? {
        b'+' => (false, &s[1..]),
        b'-' if signed => (true, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut m: u128 = 0;
    for c in d.bytes() {
        m = match m.checked_mul(10).and_then(|m| m.checked_add((c - b'0') as u128)) {
            Some(m) => m,
            None => return Some(Err((neg, u128::MAX))),
        };
        if m > u128::MAX / 2 + 1 && signed {
            return Some(Err((neg, m)));
        }
    }
    if signed {
        Some(if neg {
            if m <= 1 << 127 { Ok((m as i128).wrapping_neg()) } else { Err((neg, m)) }
        } else {
            i128::try_from(m).map_err(|_| (neg, m))
        })
    } else {
        Some(Err((false, m)))
    }
}
pub fn text(spec: &Spec, s: &str) -> Verdict {
    match spec {
        Spec::UInt { bits, r } => match s.parse::<u128>() {
            Ok(v) if int_text(s, false).is_some() && v <= umax(*bits) => uint(*bits, r, v),
            _ => Verdict::Bad(vec!["ParseIntError"]),
        },
        Spec::SInt { bits, r } => {
            let (lo, hi) = srange(*bits);
            match int_text(s, true) {
                Some(Ok(v)) if v >= lo && v <= hi => sint(*bits, r, v),
                _ => Verdict::Bad(vec!["ParseIntError"]),
            }
        }
        Spec::Num { f32_, r, nan } => {
            let v = if *f32_ { s.parse::<f32>().map(|v| v as f64) } else { s.parse::<f64>() };
            match v {
                Ok(v) => float(*f32_, r, *nan, v),
                Err(_) => Verdict::Bad(vec!["ParseFloatError"]),
            }
        }
        Spec::Bool => {
            let l = s.to_ascii_lowercase();
            let v = if ["y", "yes", "t", "true", "1", "on"].contains(&&*l) {
                true
            } else if ["n", "no", "f", "false", "0", "off"].contains(&&*l) {
                false
            } else {
                return Verdict::Bad(vec!["BooleanError"]);
            };
            Verdict::Ok(kit::view! {"b": v.to_string()})
        }
        Spec::Bit { r } => match validators::byte_unit::Bit::parse_str(s) {
            Ok(v) => quantity(r, v.as_u128()),
            Err(_) => Verdict::Bad(vec!["ParseError"]),
        },
        Spec::Byte { r, ignore_case } => match validators::byte_unit::Byte::parse_str(s, *ignore_case) {
            Ok(v) => quantity(r, v.as_u128()),
            Err(_) => Verdict::Bad(vec!["ParseError"]),
        },
        _ => Verdict::Bad(vec![]),
    }
}
pub fn quantity(r: &Rng<u128>, v: u128) -> Verdict {
    let mut w = Why::default();
    range(&mut w, r, v);
    w.verdict(|| kit::view! {"n": v.to_string()})
}
fn as_u(s: Scalar) -> Option<u128> {
    match s {
        Scalar::U(v, _) => Some(v),
        Scalar::Usize(v) => Some(v as u128),
        _ => None,
    }
}
fn as_i(s: Scalar) -> Option<i128> {
    match s {
        Scalar::I(v, _) => Some(v),
        Scalar::Isize(v) => Some(v as i128),
        _ => None,
    }
}
fn truth(b: bool) -> Verdict {
    Verdict::Ok(kit::view! {"b": b.to_string()})
}
pub fn scalar(spec: &Spec, s: Scalar) -> Option<Verdict> {
    match spec {
        Spec::UInt { bits, r } => as_u(s).map(|v| uint(*bits, r, v)),
        Spec::SInt { bits, r } => as_i(s).map(|v| sint(*bits, r, v)),
        Spec::Num { f32_, r, nan } => match s {
            Scalar::F64(v) => Some(float(*f32_, r, *nan, if *f32_ { v as f32 as f64 } else { v })),
            Scalar::F32(v) => Some(float(*f32_, r, *nan, v as f64)),
            _ => None,
        },
        Spec::Bool => Some(match s {
            Scalar::Bool(b) => truth(b),
            Scalar::Char(c) => match c.to_ascii_lowercase() {
                't' | '1' | 'y' => truth(true),
                'f' | '0' | 'n' => truth(false),
                _ => Verdict::Bad(vec!["BooleanError"]),
            },
            Scalar::F32(_) | Scalar::F64(_) => return None,
            _ => match (as_u(s), as_i(s)) {
                (Some(0), _) | (_, Some(0)) => truth(false),
                (Some(1), _) | (_, Some(1)) => truth(true),
                _ => Verdict::Bad(vec!["BooleanError"]),
            },
        }),
        Spec::Bit { r } => as_u(s).map(|v| match validators::byte_unit::Bit::from_u128(v) {
            Some(b) => quantity(r, b.as_u128()),
            None => too_large(r, v),
        }),
        Spec::Byte { r, .. } => as_u(s).map(|v| match validators::byte_unit::Byte::from_u128(v) {
            Some(b) => quantity(r, b.as_u128()),
            None => too_large(r, v),
        }),
        _ => None,
    }
}
fn too_large(_r: &Rng<u128>, _v: u128) -> Verdict {
    Verdict::Bad(vec!["TooLarge"])
}
/// An integer of any width and sign, as a numeric type must understand it.
pub fn integer(spec: &Spec, v: Result<u128, i128>) -> Option<Verdict> {
    match (spec, v) {
        (Spec::UInt { bits, r }, Ok(v)) => Some(uint(*bits, r, v)),
        (Spec::UInt { r, .. }, Err(_)) => {
            // below every unsigned value; an outside range with only an upper bound forbids it as well
            let mut w = vec!["TooSmall"];
            if matches!(r, Rng::Out { min: None, .. }) {
                w.push("Forbidden");
            }
            Some(Verdict::Bad(w))
        }
        (Spec::SInt { bits, r }, Ok(v)) => Some(match i128::try_from(v) {
            Ok(v) => sint(*bits, r, v),
            Err(_) => {
                let mut w = vec!["TooLarge"];
                if matches!(r, Rng::Out { max: None, .. }) {
                    w.push("Forbidden");
                }
                Verdict::Bad(w)
            }
        }),
        (Spec::SInt { bits, r }, Err(v)) => Some(sint(*bits, r, v)),
        (Spec::Num { f32_, r, nan }, v) => {
            let f = match v {
                Ok(v) => v as f64,
                Err(v) => v as f64,
            };
            Some(float(*f32_, r, *nan, if *f32_ { f as f32 as f64 } else { f }))
        }
        (Spec::Bool, v) => Some(match v {
            Ok(0) => truth(false),
            Ok(1) => truth(true),
            _ => Verdict::Bad(vec!["BooleanError"]),
        }),
        _ => None,
    }
}
pub fn widths_u() -> [W; 10] {
    simcore::tok::WIDTHS
}
