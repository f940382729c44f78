//! Payload generators: what clients of each declared type send, weighted towards the edges of the rules,
//! and what the network does to it on the way.
use crate::lits;
use kit::{Alpha, Case, Coll, JsonTy, Rng as Range, Sep, Spec, Tri, Unit};
use simcore::Rng;
use simcore::tok::{StrMode, Tok, W, WIDTHS};

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}
/// a length near one of the bounds
fn near(r: &mut Rng, bounds: &[Option<usize>]) -> usize {
    let known: Vec<usize> = bounds.iter().flatten().copied().collect();
    if known.is_empty() || r.chance(1, 5) {
        return *r.pick(&[0, 1, 2, 3, 5, 8, 20]);
    }
    let b = *r.pick(&known);
    match r.below(5) {
        0 => b.saturating_sub(1),
        1 | 2 => b,
        3 => b + 1,
        _ => b + r.below(4),
    }
}
const CH: &[&str] = &["a", "Z", "0", "-", "_", ".", "é", "ß", "中", "😀", "e\u{301}", "\u{200b}", "\u{feff}", "\u{80}", "\u{9f}", "α", "\"", "\\", "'"];
const WS: &[&str] = &[" ", "\t", "\n", "\r", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{3000}", "\u{2028}", "\u{2009}", "\u{1680}"];
const CTRL: &[&str] = &["\0", "\u{1}", "\u{7}", "\u{8}", "\u{e}", "\u{1b}", "\u{1c}", "\u{1f}", "\u{7f}", "\u{b}", "\u{c}", "\n", "\r"];

fn text(r: &mut Rng, unit: Unit, min: Option<usize>, tmin: Option<usize>, max: Option<usize>) -> String {
    if tmin.is_some() && r.chance(1, 3) {
        return framed(r, unit, min, tmin, max);
    }
    let (lead, trail) = (if r.chance(1, 3) { r.below(3) } else { 0 }, if r.chance(1, 3) { r.below(3) } else { 0 });
    let want = near(r, &[min, tmin, max]);
    // now and then the inside is mostly blank
    let airy = r.chance(1, 5);
    let one = move |r: &mut Rng| -> &'static str {
        if airy && r.chance(1, 2) {
            return if r.chance(1, 2) { " " } else { r.pick(WS) };
        }
        match r.below(12) {
            0 => r.pick(WS),
            1 if r.chance(1, 2) => r.pick(CTRL),
            2..=4 => r.pick(CH),
            _ => "b",
        }
    };
    let size = |s: &str| match unit {
        Unit::Chars => s.chars().count(),
        Unit::Bytes => s.len(),
    };
    let mut s = String::new();
    for _ in 0..lead {
        s.push_str(r.pick(WS));
    }
    // sometimes aim at the whole, sometimes at the trimmed core
    let whole = r.chance(1, 2);
    let base = if whole { 0 } else { s.len() };
    while size(&s[base..]) < want {
        s.push_str(one(r));
    }
    for _ in 0..trail {
        s.push_str(r.pick(WS));
    }
    if r.chance(1, 12) {
        let at = floor(&s, r.below(s.len() + 1));
        s.insert_str(at, r.pick(CTRL));
    }
    s
}
/// a core of about the least trimmed length in a frame of blanks which brings the whole to its own bound
fn framed(r: &mut Rng, unit: Unit, min: Option<usize>, tmin: Option<usize>, max: Option<usize>) -> String {
    const SAFE: &[&str] = &[" ", " ", "\t", "\u{a0}", "\u{3000}", "\u{2009}"];
    let size = |s: &str| match unit {
        Unit::Chars => s.chars().count(),
        Unit::Bytes => s.len(),
    };
    let t = tmin.unwrap_or(0);
    let core = if r.chance(1, 2) { r.range(t.saturating_sub(2), t + 1) } else { r.below(t + 2) };
    let airy = r.below(4);
    let mut s = String::new();
    while size(&s) < core {
        let first = s.is_empty() || size(&s) + 1 == core;
        s.push_str(match () {
            _ if !first && r.chance(airy, 4) => r.pick(SAFE),
            _ if r.chance(1, 10) => r.pick(CH),
            _ => "b",
        });
    }
    let whole = near(r, &[min, max, tmin]);
    while size(&s) < whole {
        let b = r.pick(SAFE);
        if r.chance(1, 2) { s.insert_str(0, b) } else { s.push_str(b) }
    }
    s
}
pub fn floor(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
fn regex(r: &mut Rng) -> String {
    match r.below(12) {
        0 => ["abc", "z", "hello", "yes", "NO", "Maybe", "maybe"][r.below(7)].into(),
        1 => format!("{:03}-{:04}", r.below(1000), r.below(10000)),
        2 => format!("a{}c", r.pick(&["b", "\n", "中", "", "bb", "\u{2028}"])),
        3 => (0..r.below(7)).map(|_| *r.pick(CH)).collect(),
        4 => (0..r.below(4)).map(|_| *r.pick(&["α", "β", "Ω", "a", "ἀ"])).collect(),
        5 => (0..4).map(|_| r.pick(&["0", "7", "25", "255", "256", "199", "01", "001"]).to_string()).collect::<Vec<_>>().join("."),
        6 => ["x", "x\n", "a\nx\nb", "ax", "\nx", "xx"][r.below(6)].into(),
        7 => ["foo", "a foo b", "foobar", "foo-bar", "_foo", "foo\u{301}"][r.below(6)].into(),
        8 => (0..r.below(11)).map(|_| *r.pick(&["a", "_", "9", "-", "é", " "])).collect(),
        9 => format!("{}\n", ["abc", "yes", "123-4567", "αβ", ""][r.below(5)]),
        _ => text(r, Unit::Chars, Some(4), None, Some(8)),
    }
}
pub fn encode(a: Alpha, pad: bool, data: &[u8]) -> String {
    let (al, bits, q): (&[u8], u32, usize) = match a {
        Alpha::B32 => (b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, 8),
        Alpha::B64 => (b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6, 4),
        Alpha::B64Url => (b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 6, 4),
    };
    let (mut acc, mut n, mut out) = (0u32, 0, String::new());
    for b in data {
        acc = acc << 8 | *b as u32;
        n += 8;
        while n >= bits {
            n -= bits;
            out.push(al[(acc >> n) as usize & ((1 << bits) - 1)] as char);
            acc &= (1 << n) - 1;
        }
    }
    if n > 0 {
        out.push(al[(acc << (bits - n)) as usize & ((1 << bits) - 1)] as char);
    }
    while pad && out.len() % q != 0 {
        out.push('=');
    }
    out
}
fn base(r: &mut Rng, a: Alpha) -> String {
    let n = if r.chance(1, 10) { r.range(20, 200) } else { r.below(14) };
    let data: Vec<u8> = (0..n).map(|_| if r.chance(1, 4) { *r.pick(&[0u8, 255, 0xfb, 0xef, 0xbe, 0x3f]) } else { r.u64() as u8 }).collect();
    let pad = r.chance(1, 2);
    let mut s = encode(a, pad, &data);
    if r.chance(1, 3) {
        match r.below(10) {
            0 => s.push('='),
            1 => {
                s.pop();
            }
            2 => s = s.replacen('=', "", 1),
            3 => s.insert(r.below(s.len() + 1), '='),
            4 => s.insert(r.below(s.len() + 1), *r.pick(&[' ', '\n', '-', '_', '+', '/', '1', '0', '8', '9', 'a', '*', '\0', 'é'])),
            5 => s = s.to_ascii_lowercase(),
            6 => {
                // spoil the last symbol (non-canonical trailing bits)
                let k = s.trim_end_matches('=').len();
                if k > 0 {
                    s.replace_range(k - 1..k, r.pick(&["B", "C", "Z", "7", "3", "5"]));
                }
            }
            7 => s.push_str(&rep("=", r.below(9))),
            8 => s = s.trim_end_matches('=').to_string(),
            _ => {
                // any number of symbols, padded or not
                let q = if a == Alpha::B32 { 8 } else { 4 };
                let n = r.below(2 * q + 1);
                s = rep("A", n);
                if r.chance(1, 2) {
                    while s.len() % q != 0 {
                        s.push('=');
                    }
                }
            }
        }
    }
    s
}
fn edge_u(r: &mut Rng, bits: u32, rg: &Range<u128>) -> u128 {
    let mut v: Vec<u128> = vec![];
    if let Range::In { min, max, .. } | Range::Out { min, max, .. } = rg {
        v.extend(min.iter().chain(max.iter()));
    }
    let b = if !v.is_empty() && r.chance(3, 5) {
        *r.pick(&v)
    } else {
        match r.below(6) {
            0 => 0,
            1 => 1u128 << r.below(128),
            2 => (1u128 << r.below(128)) - 1,
            3 => {
                if bits == 128 {
                    u128::MAX
                } else {
                    (1u128 << bits) - 1
                }
            }
            4 => r.u128() >> r.below(128),
            _ => r.below(200) as u128,
        }
    };
    let b = match r.below(4) {
        0 => b.wrapping_add(1),
        1 => b.saturating_sub(1),
        _ => b,
    };
    // the same low digits in a wider integer
    if r.chance(1, 6) { b.wrapping_add(1 << *r.pick(&[8, 16, 32, 63, 64])) } else { b }
}
fn edge_i(r: &mut Rng, bits: u32, rg: &Range<i128>) -> i128 {
    let mut v: Vec<i128> = vec![];
    if let Range::In { min, max, .. } | Range::Out { min, max, .. } = rg {
        v.extend(min.iter().chain(max.iter()));
    }
    let b = if !v.is_empty() && r.chance(3, 5) {
        *r.pick(&v)
    } else {
        match r.below(7) {
            0 => 0,
            1 => 1i128 << r.below(127),
            2 => -(1i128 << r.below(127)),
            3 => {
                if bits == 128 {
                    *r.pick(&[i128::MAX, i128::MIN])
                } else {
                    *r.pick(&[(1i128 << (bits - 1)) - 1, -(1i128 << (bits - 1))])
                }
            }
            4 => (r.u128() as i128) >> r.below(128),
            5 => -(r.below(200) as i128),
            _ => r.below(200) as i128,
        }
    };
    let b = match r.below(4) {
        0 => b.saturating_add(1),
        1 => b.saturating_sub(1),
        _ => b,
    };
    if r.chance(1, 6) {
        let d = 1i128 << *r.pick(&[8, 16, 32, 63, 64]);
        b.saturating_add(if r.chance(1, 2) { d } else { -d })
    } else {
        b
    }
}
/// an integer a client of this type would send
pub fn integer(r: &mut Rng, spec: &Spec) -> Result<u128, i128> {
    if let Some(v) = lits::number(r, spec.kind(), 6) {
        return match (i128::try_from(v), r.chance(1, 3)) {
            (Ok(v), true) if v > 0 => Err(-v),
            _ => Ok(v),
        };
    }
    let i = match spec {
        Spec::UInt { bits, r: rg } => {
            if r.chance(1, 8) {
                -edge_i(r, *bits, &Range::Any).saturating_abs()
            } else {
                return Ok(edge_u(r, *bits, rg));
            }
        }
        Spec::SInt { bits, r: rg } => {
            if r.chance(1, 12) {
                return Ok(edge_u(r, *bits, &Range::Any));
            }
            edge_i(r, *bits, rg)
        }
        Spec::Num { .. } => *r.pick(&[-2, -1, 0, 1, 2, 3, 100, 101, 16777217, -9007199254740993, 9007199254740993, i64::MAX as i128, i64::MIN as i128, i128::MAX]),
        Spec::Bool => *r.pick(&[0, 1, 0, 1, 2, -1, 256, 257, 1 << 64, i128::MIN, 1 << 32]),
        Spec::Bit { r: rg } | Spec::Byte { r: rg, .. } => return Ok(edge_u(r, 128, rg)),
        Spec::JsonT { .. } | Spec::Json => *r.pick(&[0, 1, -1, 255, 256, 65536, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 1 << 64, -128, 127]),
        _ => edge_i(r, 64, &Range::Any),
    };
    if i >= 0 { Ok(i as u128) } else { Err(i) }
}
pub fn float(r: &mut Rng, spec: &Spec) -> f64 {
    match lits::lit(r, spec.kind(), 6) {
        Some(lits::Lit::Float(f)) => return if r.chance(1, 3) { -f } else { f },
        Some(lits::Lit::Int(v)) => {
            let f = lits::about(r, v) as f64;
            return if r.chance(1, 3) { -f } else { f };
        }
        _ => (),
    }
    // doubles which a single-precision type cannot hold, and the ones beside its edges
    if matches!(spec, Spec::Num { f32_: true, .. }) && r.chance(1, 8) {
        let m = f32::MAX as f64;
        let f = *r.pick(&[1e39, 1e300, f64::MAX, m * 2.0, m * (1.0 + 1e-9), m * (1.0 + 6e-8), m, 1e-46, 5e-324, 7e-46, 1.4e-45]);
        return if r.chance(1, 2) { -f } else { f };
    }
    let mut v: Vec<f64> = vec![];
    if let Spec::Num { r: Range::In { min, max, .. } | Range::Out { min, max, .. }, .. } = spec {
        v.extend(min.iter().chain(max.iter()));
    }
    let f = if !v.is_empty() && r.chance(3, 5) {
        let b = *r.pick(&v);
        match r.below(8) {
            0 => f64::from_bits(b.to_bits().wrapping_add(1)),
            1 => f64::from_bits(b.to_bits().wrapping_sub(1)),
            2 => f32::from_bits((b as f32).to_bits().wrapping_add(1)) as f64,
            3 => f32::from_bits((b as f32).to_bits().wrapping_sub(1)) as f64,
            4 => b + 1e-9,
            5 => b - 1e-9,
            6 => -b,
            _ => b,
        }
    } else {
        match r.below(11) {
            // whole numbers, within and beyond what 24 or 53 bits hold
            8 => (r.u64() >> r.below(64)) as i64 as f64,
            9 => {
                let p = 2f64.powi(r.below(130) as i32);
                (p + *r.pick(&[-1.0, 0.0, 1.0])) * *r.pick(&[1.0, -1.0])
            }
            10 => (r.below(2_000_000) as f64 - 1_000_000.0) / 10f64.powi(r.below(9) as i32),
            0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 2.0]),
            1 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN]),
            2 => *r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f32::MAX as f64, f32::MAX as f64 * 2.0, 1e-46]),
            3 => f64::from_bits(r.u64()),
            4 => f32::from_bits(r.u64() as u32) as f64,
            5 => f64::NAN,
            _ => (r.below(4000) as f64 - 1000.0) / 16.0,
        }
    };
    f
}
fn int_text(r: &mut Rng, v: Result<u128, i128>) -> String {
    let s = match v {
        Ok(v) => v.to_string(),
        Err(v) => v.to_string(),
    };
    match r.below(20) {
        0 => format!("+{s}"),
        1 => format!("0{s}"),
        2 => format!(" {s}"),
        3 => format!("{s} "),
        4 => format!("-{s}"),
        5 => format!("{s}.0"),
        6 => format!("{s}e0"),
        7 => format!("0x{s}"),
        8 => format!("{s}{s}{s}{s}"),
        9 => s.chars().map(|c| if c.is_ascii_digit() { char::from_u32(0xFF10 + c as u32 - 48).unwrap() } else { c }).collect(),
        10 => r.pick(&["", "+", "-", "-0", "+0", "00", "--1", "+-1", "_1", "1_000", "\u{2212}1", "٣", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105729"]).to_string(),
        11 => format!("{}{}", rep("0", r.below(60)), s.trim_start_matches('-')),
        12 if s.starts_with('-') => format!("-{}{}", rep("0", 1 + r.below(3)), &s[1..]),
        _ => s,
    }
}
fn float_text(r: &mut Rng, spec: &Spec) -> String {
    let f = float(r, spec);
    match r.below(16) {
        0 => format!("{f:e}"),
        1 => format!("{f:.3}"),
        2 => format!("+{f}"),
        3 => format!("{f:?}"),
        4 => r.pick(&["nan", "NaN", "-nan", "+NaN", "NAN", "inf", "-inf", "+infinity", "Infinity", "INF", "1e400", "-1e400", "1e-400", "-0", ".5", "5.", ".", "", "e5", "1e", "1E+2", "0x1p3", " 1", "1 ", "1_0", "--1", "+-1", "1,5", "nan(1)", "1e99999999999999999999", "１"]).to_string(),
        5 => format!("{f}0000000000000000000000000000000001"),
        6 => int_text(r, Ok(3)),
        7 => beside_middle(r, f as f32),
        _ => format!("{f}"),
    }
}
/// A decimal text just above, just below or in the middle between two neighbouring 32-bit numbers.
fn beside_middle(r: &mut Rng, f: f32) -> String {
    let f = if f.is_finite() && (1e-6..1e9).contains(&f.abs()) { f } else { r.below(1 << 24) as f32 / 64.0 + 0.015625 };
    let next = f32::from_bits(f.to_bits() + 1);
    let mid = (f as f64 + next as f64) / 2.0;
    let t = format!("{mid:.80}");
    let t = t.trim_end_matches('0');
    if t.ends_with('.') {
        return format!("{t}{}", if r.chance(1, 2) { "0" } else { "00000000000000000000000000000001" });
    }
    let (head, last) = t.split_at(t.len() - 1);
    match r.below(5) {
        0..=1 => format!("{t}0000000000000000000000000001"),
        2..=3 => format!("{head}{}9999999999999999999999999999", last.as_bytes()[0].saturating_sub(b'1')),
        _ => t.to_string(),
    }
}
fn flip_case(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
fn boolean(r: &mut Rng) -> String {
    let w = *r.pick(&["y", "yes", "t", "true", "1", "on", "n", "no", "f", "false", "0", "off"]);
    match r.below(9) {
        0 => format!("{w} "),
        1 => format!("{w}{w}"),
        2 => w[..w.len() - 1].to_string(),
        3 => r.pick(&["", "of", "onn", "tru", "yes!", "2", "-1", "00", "01", "ｔ", "ye\u{17f}", "fal\u{17f}e", "yeS\0", "nope", "o", "tRUE", "nO", "oN", "oFF", "fALSE", "yEs", "null", "+1"]).to_string(),
        4..=5 => flip_case(r, w),
        6 => {
            let mut c = w.chars();
            let f = c.next().unwrap().to_ascii_uppercase();
            format!("{f}{}", c.as_str())
        }
        7 => w.to_ascii_uppercase(),
        _ => w.into(),
    }
}
fn quantity(r: &mut Rng, spec: &Spec) -> String {
    let unit = *r.pick(&["", "b", "B", "kb", "KB", "Kb", "KiB", "Kib", "kib", "kB", "MB", "Mb", "mib", "GiB", "TB", "EiB", "ZB", "YiB", "RB", "k", "K", "Mi", "bit", "byte", "bits", "X", "KBB", "p", "PiB", "PB"]);
    let n = match integer(r, spec) {
        Ok(v) if r.chance(1, 2) => v.to_string(),
        _ => match r.below(6) {
            0 => format!("{}.{}", r.below(20), r.below(2000)),
            1 => format!("{}", r.below(2000)),
            2 => format!("{:.4}", r.below(20000) as f64 / 1024.0),
            3 => r.pick(&["", "-1", "+5", "1e3", "1_000", ".5", "5.", "0.0625", "0.125", "0.1", "NaN", "999999999999999999999999999999999999999", "0", "00", " 12", "12.0000"]).to_string(),
            4 => format!("{}", 1u128 << r.below(100)),
            _ => format!("{}.5", r.below(9)),
        },
    };
    // a sign, with and without a unit
    let sign = if r.chance(1, 12) { *r.pick(&["+", "+", "-", "+ ", "\u{2212}"]) } else { "" };
    if r.chance(1, 6) {
        return format!("{sign}{n}");
    }
    format!("{sign}{n}{}{unit}", r.pick(&["", "", " ", "  ", "\t"]))
}

// ------------------------------------------------------------------ names and addresses
pub const V4: &[&str] = &[
    "8.8.8.8", "1.1.1.1", "127.0.0.1", "10.0.0.1", "192.168.0.1", "9.255.255.255", "10.0.0.0", "10.255.255.255", "11.0.0.0", "172.15.255.255", "172.16.0.0",
    "172.31.255.255", "172.32.0.0", "192.167.255.255", "192.168.255.255", "192.169.0.0", "126.255.255.255", "127.255.255.255", "128.0.0.0", "169.253.255.255",
    "169.254.0.0", "169.254.255.255", "169.255.0.0", "255.255.255.255", "255.255.255.254", "192.0.2.0", "192.0.2.255", "192.0.3.0", "192.0.1.255", "198.51.100.0",
    "198.51.100.255", "198.51.101.0", "198.51.99.255", "203.0.113.0", "203.0.113.255", "203.0.114.0", "203.0.112.255", "0.0.0.0", "0.0.0.1", "224.0.0.1", "100.64.0.1",
    "198.18.0.1", "240.0.0.1", "192.0.0.1",
];
const V4BAD: &[&str] = &["256.1.1.1", "1.2.3", "1.2.3.4.5", "0177.0.0.1", "127.1", "0x7f.0.0.1", "01.2.3.4", "1.2.3.4.", "127.0.0.1.", "1..2.3", "1.2.3.-4", "2130706433", "1.2.3.4..", " 1.2.3.4", "1.2.3.4 "];
pub const V6: &[&str] = &[
    "::1", "::", "::2", "2001:4860:4860::8888", "2001:db8::1", "2001:db7:ffff:ffff:ffff:ffff:ffff:ffff", "2001:db9::", "fe80::1", "fe7f::1", "febf::1", "fec0::1", "feff::1", "fc00::1",
    "fbff::1", "fdff::1", "fe00::1", "ff00::1", "ff01::1", "ff02::1", "ff0e::1", "ff0f::1", "ff1e::1", "ff2e:1::", "ff8e::1", "::ffff:127.0.0.1", "::ffff:8.8.8.8", "::127.0.0.1", "::8.8.8.8", "::ffff:192.168.1.1", "::ffff:0:127.0.0.1",
    "64:ff9b::127.0.0.1", "::192.168.0.1", "::0.0.0.2", "0:0:0:0:0:0:0:1", "0000:0000:0000:0000:0000:0000:0000:0001", "2606:4700:4700::1111", "FE80::ABCD", "2001:0DB8::1", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "::ffff:169.254.1.1", "2002:7f00:1::", "100::1", "::ffff:10.1.2.3", "::ffff:203.0.113.9",
];
const V6BAD: &[&str] = &["1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", ":::", "::1::", "g::1", "fe80::1%eth0", "12345::1", "::1.2.3", "::256.0.0.1", "1:2:3:4:5:6:7:", ":1", "[::1]", "::ffff:1.2.3.4.5"];
const PORTS: &[&str] = &["80", "0", "1", "65535", "65536", "99999", "+80", "-1", "080", "000080", "", " 80", "80 ", "８０", "8a", "443", "65535a", "0x50", "1:2"];

fn v4(r: &mut Rng) -> String {
    let s = if r.chance(1, 12) {
        r.pick(V4BAD).to_string()
    } else if r.chance(1, 2) {
        r.pick(V4).to_string()
    } else if r.chance(1, 2) {
        // somewhere in, or just beside, a known block
        let mut o = r.pick(V4).parse::<std::net::Ipv4Addr>().unwrap().octets();
        for i in r.range(1, 4)..4 {
            let any = r.below(256) as u8;
            o[i] = *r.pick(&[0, 1, 15, 16, 31, 32, 100, 113, 127, 128, 168, 254, 255, any]);
        }
        std::net::Ipv4Addr::from(o).to_string()
    } else {
        std::net::Ipv4Addr::from(r.u64() as u32).to_string()
    };
    s
}
fn v6(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        return r.pick(V6BAD).to_string();
    }
    if r.chance(2, 3) {
        let s = r.pick(V6).to_string();
        return if r.chance(1, 6) { s.to_ascii_uppercase() } else { s };
    }
    let n = match r.below(11) {
        // a special address, but for one segment or bit
        8.. => {
            let mut n = match r.below(8) {
                0 => 0,
                1 => 1,
                2 => 0xffff_7f00_0001,
                3 => 0x7f00_0001,
                4 => 0x64_ff9b << 96 | 0x7f00_0001,
                5 => 0x2002_7f00_0001 << 80,
                6 => 0x2001_0db8 << 96,
                _ => (*r.pick(&[0xfe80u128, 0xfec0, 0xfc00, 0xfd00, 0xff0e, 0xff1e, 0xff02, 0x2001]) << 112) | 1,
            };
            match r.below(4) {
                0 => n ^= 1 << r.below(128),
                1 => n ^= (r.u64() as u16 as u128) << (16 * r.below(8)),
                2 => n |= 1 << (16 * r.below(8)),
                _ => n = n.wrapping_add(1 << (16 * r.below(8))).wrapping_sub(r.below(2) as u128),
            }
            n
        }
        6 => 0xffff_0000_0000 | v4(r).parse::<std::net::Ipv4Addr>().map_or(0, u32::from) as u128,
        7 => v4(r).parse::<std::net::Ipv4Addr>().map_or(0, u32::from) as u128,
        0 => r.u128(),
        1 => (*r.pick(&[0xfe80u128, 0xfe90, 0xfebf, 0xfec0, 0xfed0, 0xfc00, 0xfd12, 0xff02, 0xff05, 0xff0e, 0xff3e, 0xff30, 0x2001]) << 112) | (r.u128() >> 64),
        2 => r.u64() as u32 as u128,
        3 => 0xffff_0000_0000 | r.u64() as u32 as u128,
        4 => (0x2001_0db8u128 << 96) | (r.u128() >> 32),
        _ => r.u128() >> r.below(127),
    };
    std::net::Ipv6Addr::from(n).to_string()
}
fn wide(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '!'..='~' if c != '.' => char::from_u32(0xFF01 + c as u32 - 0x21).unwrap(),
            _ => c,
        })
        .collect()
}
fn label(r: &mut Rng, max: usize) -> String {
    let special = r.below(14);
    let n = match r.below(8) {
        0 => 63.min(max),
        1 => 64.min(max),
        2 => 62.min(max),
        _ => r.range(1, 10).min(max.max(1)),
    };
    let mut s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'z', '0', '9', 'A', 'Q', 'x'])).collect();
    match special {
        0 => s.replace_range(0..1, "-"),
        1 => {
            s.pop();
            s.push('-');
        }
        2 if n > 4 => s.replace_range(2..4, "--"),
        3 => s = r.pick(&["中文", "bücher", "faß", "İstanbul", "ａｂｃ", "xn--fiq228c", "xn--a", "xn--", "ἀ", "ı", "ⅷ", "é", "e\u{301}", "\u{200d}", "a\u{200c}b", "👍", "١٢", "\u{ad}", "a\u{ad}b", "\u{2260}", "a≠b", "xn--0", "xn--bcher-kva", "עברית", "عربي", "a\u{300}", "\u{300}a", "㍻", "℡", "Ω", "ﬁ", "½"]).to_string(),
        4 => s.insert(r.below(s.len() + 1), *r.pick(&['_', ' ', '!', '@', '/', '\0', '%', '*', '\u{7f}', '\n', '[', '`'])),
        5 if n > 2 => s.replace_range(1..2, "-"),
        6 => s = r.pick(&["com", "org", "example", "www", "localhost", "local", "test", "1", "12", "0x7f", "123456"]).to_string(),
        _ => (),
    }
    s
}
fn dot(r: &mut Rng) -> &'static str {
    if r.chance(1, 10) { r.pick(&["。", "．", "｡"]) } else { "." }
}
fn name(r: &mut Rng) -> String {
    match r.below(12) {
        0 => r.pick(&["localhost", "LOCALHOST", "LocalHost", "localhost.", "localhost。", "ｌｏｃａｌｈｏｓｔ", "localhost..", "localhost.localdomain", "a.localhost", "localhosts", "ⓛⓞⓒⓐⓛⓗⓞⓢⓣ", "local\u{ad}host", "localhost ", "xlocalhost", "localhos", "lOCALHOST."]).to_string(),
        1 => {
            let s = r.pick(V4).to_string();
            match r.below(6) {
                0 => wide(&s),
                1 => s.replace('.', r.pick(&["。", "．", "｡"])),
                2 => format!("{s}."),
                3 => format!("{s}{}", r.pick(&["。", "..", ".com", "．"])),
                _ => s,
            }
        }
        2 => v4(r),
        3 => r.pick(&["example.com", "EXAMPLE.com", "example.com.", "example", "example.", "a.b", "a.b.", "magiclen.org", "中文.com", "xn--fiq228c.com", "中文。com", "faß.de", "ﬀ.com", ".", "..", ".com", "a..b", "", "a.b..", "*.com", "ex ample.com", "a_b.com", "-a.com", "a-.com", "ab--cd.com", "user@host", "http://a.b"]).to_string(),
        4 => {
            // total length at the limit
            let total = r.range(251, 257);
            let mut s = String::new();
            while s.len() < total {
                let left = total - s.len();
                let n = if left <= 63 { left } else { r.range(1, 63).min(left - 2).max(1) };
                s.push_str(&rep("a", n));
                if s.len() + 1 < total {
                    s.push('.');
                } else if s.len() < total {
                    s.push('.');
                }
            }
            if r.chance(1, 3) {
                s.push('.');
            }
            s
        }
        _ => {
            let n = *r.pick(&[1, 1, 2, 2, 2, 3, 4, 6]);
            let mut s = String::new();
            for i in 0..n {
                if i > 0 {
                    s.push_str(dot(r));
                }
                s.push_str(&label(r, 64));
            }
            if r.chance(1, 8) {
                s.push_str(dot(r));
            }
            s
        }
    }
}
fn with_port(r: &mut Rng, s: String, want: Tri) -> String {
    let p = match want {
        Tri::M => r.chance(5, 6),
        Tri::D => r.chance(1, 6),
        Tri::A => r.chance(1, 2),
    };
    if !p {
        return s;
    }
    let p = if r.chance(1, 2) { r.below(65536).to_string() } else { r.pick(PORTS).to_string() };
    format!("{s}:{p}")
}
fn host(r: &mut Rng, want: Tri, six: bool) -> String {
    if six && r.chance(1, 3) || !six && r.chance(1, 30) {
        let a = v6(r);
        let p = with_port(r, String::new(), want);
        return match r.below(12) {
            0 => format!("[{a}{p}"),
            1 => format!("{a}]{p}"),
            2 => format!("[{a}]{}", p.trim_start_matches(':')),
            3 => format!("[[{a}]]{p}"),
            4 => format!("{a}{p}"),
            5..=6 if p.is_empty() => a,
            _ => format!("[{a}]{p}"),
        };
    }
    let n = name(r);
    with_port(r, n, want)
}
fn ip(r: &mut Rng, v: u8, want: Tri) -> String {
    let six = match v {
        4 => r.chance(1, 15),
        6 => r.chance(14, 15),
        _ => r.chance(1, 2),
    };
    if six {
        let a = v6(r);
        let p = with_port(r, String::new(), want);
        return match r.below(14) {
            0 => format!("[{a}{p}"),
            1 => format!("{a}]{p}"),
            2 => format!("[{a}] {p}"),
            3 => format!("[{a}]{}", p.trim_start_matches(':')),
            4 => format!("{a}{p}"),
            5..=7 if p.is_empty() => a,
            _ => format!("[{a}]{p}"),
        };
    }
    let a = v4(r);
    let a = if r.chance(1, 25) { wide(&a) } else { a };
    with_port(r, a, want)
}
fn function(r: &mut Rng, f: kit::Fun) -> String {
    use kit::Fun;
    match f {
        Fun::LocalDomain | Fun::TwoLabels => {
            let n = if r.chance(1, 2) { (*r.pick(&["localhost", "LocalHost", "localhost.", "localhost..", ".localhost", "localhos", "localhostx", "loca1host", "LOCALHOST.", "a.localhost", "localhost.a", "localdisk", ".", "", "..", "a", "a.", "a.b", "a.b.", ".a"])).to_string() } else { name(r) };
            if r.chance(1, 6) { format!("{n}.") } else { n }
        }
        Fun::Ipv4Dot => {
            let a = v4(r);
            if r.chance(1, 2) { format!("{a}.") } else { a }
        }
        Fun::Local4 => v4(r),
        Fun::Local6 => v6(r),
        Fun::LocalIp => if r.chance(1, 2) { v4(r) } else { v6(r) },
    }
}
fn hexid(r: &mut Rng, groups: &[usize], case: Case, sep: Sep) -> String {
    let n: usize = groups.iter().sum();
    // runs of the same digit at either end, digits only, letters only
    let (lead, tail, fill) = match r.below(8) {
        0 => (r.below(n + 1), 0, 0),
        1 => (0, r.below(n + 1), 0),
        2 => (r.below(n + 1), r.below(n + 1), *r.pick(&[0, 15, 1, 10])),
        _ => (0, 0, 0),
    };
    let (lo, hi) = *r.pick(&[(0, 16), (0, 16), (0, 16), (0, 16), (0, 10), (10, 6), (0, 2)]);
    let digits: Vec<char> = (0..n)
        .map(|i| {
            let v = if i < lead || i + tail >= n && tail > 0 { fill } else { lo + r.below(hi) as u32 };
            let d = char::from_digit(v, 16).unwrap();
            if r.chance(1, 40) { *r.pick(&['g', 'G', '/', ':', '@', '`', '０', 'é', ' ', '\0']) } else { d }
        })
        .collect();
    let up = match case {
        Case::Upper => r.chance(7, 8),
        Case::Lower => r.chance(1, 8),
        Case::Any => r.chance(1, 2),
    };
    let mix = r.chance(1, if case == Case::Any { 3 } else { 12 });
    let ch = match sep {
        Sep::Allow(c) | Sep::Must(c) => c as char,
        Sep::Disallow => '-',
    };
    let mode = match sep {
        Sep::Must(_) => *r.pick(&[1, 1, 1, 1, 0, 2]),
        Sep::Allow(_) => r.below(3),
        Sep::Disallow => *r.pick(&[0, 0, 0, 0, 1, 2]),
    };
    let mut s = String::new();
    let mut k = 0;
    for (g, len) in groups.iter().enumerate() {
        if g > 0 && (mode == 1 || mode == 2 && r.chance(1, 2)) {
            s.push(if r.chance(1, 20) { *r.pick(&['-', ':', '.', '_', ' ', '中', '0', 'A']) } else { ch });
        }
        for _ in 0..*len {
            let c = digits[k];
            s.push(if mix && r.chance(1, 2) || !mix && up { c.to_ascii_uppercase() } else { c });
            k += 1;
        }
    }
    match r.below(16) {
        0 => {
            s.pop();
        }
        1 => s.push('0'),
        2 => s.push(ch),
        3 => s.insert(0, ch),
        4 => {
            // a separator moved elsewhere
            if let Some(i) = s.find(ch) {
                s.remove(i);
                let at = floor(&s, r.below(s.len() + 1));
                s.insert(at, ch);
            }
        }
        5 => {
            let at = floor(&s, r.below(s.len() + 1));
            s.insert(at, ch);
        }
        _ => (),
    }
    s
}
const ATOM: &[&str] = &["a", "b", "Z", "0", "9", "+", "-", "_", "!", "#", "$", "%", "&", "'", "*", "/", "=", "?", "^", "`", "{", "|", "}", "~"];
fn atom(r: &mut Rng, n: usize, na: bool) -> String {
    let mut s = String::new();
    while s.len() < n {
        let left = n - s.len();
        match r.below(24) {
            0 if !s.is_empty() && left > 1 && !s.ends_with('.') => s.push('.'),
            1 if na && left >= 2 => s.push('é'),
            2 if na && left >= 3 => s.push('中'),
            3 => s.push_str(r.pick(ATOM)),
            _ => s.push('u'),
        }
    }
    s
}
fn comment(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(50, 66),
        _ => r.below(9),
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(if r.chance(1, 25) { r.pick(&["é", "中", "@", "\"", "\\", " ", ".", "[", "\n", "(", "\u{7f}"]) } else { "c" });
    }
    format!("({s})")
}
/// A text whose parts, with their comments, are about as long as an email's parts may be.
fn email_limits(r: &mut Rng, cm: bool, ip_: Tri, non_ascii: bool) -> String {
    let near = |r: &mut Rng, n: usize| n + r.below(5) - 2;
    let fill = |r: &mut Rng, n: usize| -> String {
        let c = *r.pick(&["c", "c", "(", " ", "."]);
        // a comment of n bytes with its brackets
        if n < 2 { String::new() } else { format!("({})", c.repeat(n - 2)) }
    };
    // the local part: one atom or quoted, with comments on either side
    let room = near(r, 64);
    let core = if cm && r.chance(2, 3) { r.range(1, room - 6) } else { room };
    let core_text = if r.chance(1, 3) && core > 2 {
        format!("\"{}\"", "q".repeat(core - 2))
    } else if non_ascii && r.chance(1, 3) {
        let mut t = "é".repeat(core / 2);
        t.push_str(&"a".repeat(core % 2));
        t
    } else {
        (0..core).map(|i| if i % 9 == 4 && i + 1 < core { '.' } else { 'a' }).collect()
    };
    let rest = room.saturating_sub(core_text.len());
    let before = if cm { r.below(rest + 1) } else { 0 };
    let local = if r.chance(1, 3) || !cm && core < room {
        atom(r, 3, false)
    } else {
        let (a, b) = (fill(r, before), fill(r, rest - before));
        format!("{a}{core_text}{b}")
    };
    let mut n = if ip_ == Tri::M || ip_ == Tri::A && r.chance(1, 3) {
        match r.below(3) {
            0 => format!("[{}]", v4(r)),
            _ => format!("[IPv6:{}]", v6(r)),
        }
    } else {
        let mut n = name(r);
        for _ in 0..4 {
            if crate::names::ascii(&n).is_some_and(|a| !a.ends_with('.') && a.len() < 60) {
                break;
            }
            n = name(r);
        }
        n
    };
    if !cm {
        // labels in front
        let to = near(r, 253);
        while n.len() + 3 < to && !n.starts_with('[') {
            let l = (to - n.len() - 1).min(r.range(1, 63));
            n = format!("{}.{n}", "d".repeat(l));
        }
        return format!("{local}@{n}");
    }
    // what counts is the longer one of the name as it is written and as it is encoded
    let as_encoded = match crate::names::ascii(&n) {
        Some(a) if r.chance(2, 3) => a.len(),
        _ => n.len(),
    };
    let rest = near(r, 255).saturating_sub(as_encoded);
    let before = if r.chance(1, 3) { rest } else { r.below(rest + 1) };
    let (a, b) = (fill(r, before), fill(r, rest - before));
    format!("{local}@{a}{n}{b}")
}
fn email(r: &mut Rng, cm: bool, ip_: Tri, non_ascii: bool) -> String {
    if r.chance(1, if cm { 8 } else { 24 }) {
        return email_limits(r, cm, ip_, non_ascii);
    }
    let c = |r: &mut Rng| r.chance(1, if cm { 4 } else { 14 });
    let na = if non_ascii { r.chance(1, 3) } else { r.chance(1, 20) };
    let mut l = String::new();
    if c(r) {
        l.push_str(&comment(r));
    }
    let n = match r.below(8) {
        0 => r.range(60, 66).saturating_sub(l.len()).max(1),
        _ => r.range(1, 12),
    };
    match r.below(12) {
        0..=3 => {
            // quoted
            let inner_n = if n > 40 { n.saturating_sub(2) } else { n };
            let mut q = String::new();
            while q.len() < inner_n {
                match r.below(10) {
                    0 => q.push_str(r.pick(&["\\ ", "\\\"", "\\\\", "\\@", "\\(", "\\)", "\\,", "\\:", "\\;", "\\<", "\\>", "\\[", "\\]", "\\\t", "\\a", "\\."])),
                    1 => q.push(' '),
                    2 => q.push('.'),
                    3 => q.push_str(r.pick(&["\t", "@", "(", ",", ")", "\\", "\"", "\u{7f}", "\\\u{1}", "\n", "..", "<", "[", "\\é", "\r"])),
                    4 if na => q.push('é'),
                    _ => q.push_str(r.pick(ATOM)),
                }
            }
            l.push('"');
            l.push_str(&q);
            l.push('"');
            if r.chance(1, 25) {
                l.push_str(r.pick(&[".x", "x", ".\"b\"", " "]));
            }
        }
        4 => {
            let a = atom(r, n, na);
            let at = floor(&a, r.below(a.len() + 1));
            l.push_str(&a[..at]);
            l.push_str(r.pick(&["..", ".", " ", "\"", "\\", ",", "(x)", "[", "<", "é", "\t", "\0"]));
            l.push_str(&a[at..]);
        }
        _ => l.push_str(&atom(r, n, na)),
    }
    if c(r) {
        l.push_str(&comment(r));
    }
    let mut d = String::new();
    if c(r) {
        d.push_str(&comment(r));
    }
    let lit = match ip_ {
        Tri::M => r.chance(3, 4),
        Tri::D => r.chance(1, 8),
        Tri::A => r.chance(1, 3),
    };
    if lit {
        match r.below(16) {
            0 => d.push_str(&format!("[{}]", v6(r))),
            1 => d.push_str(&format!("[IPv6:{}]", v4(r))),
            2 => d.push_str(&format!("[IPv6:{}", v6(r))),
            3 => d.push_str(&format!("[ipv6:{}]", v6(r))),
            4 => d.push_str(&format!("{}]", v4(r))),
            5..=9 => d.push_str(&format!("[IPv6:{}]", v6(r))),
            _ => d.push_str(&format!("[{}]", v4(r))),
        }
    } else {
        let mut n = name(r);
        if r.chance(3, 4) {
            for _ in 0..3 {
                if crate::names::ascii(&n).is_some() {
                    break;
                }
                n = name(r);
            }
        }
        d.push_str(&n);
    }
    if c(r) {
        d.push_str(&comment(r));
    }
    match r.below(20) {
        0 => format!("{l}{d}"),
        1 => format!("{l}@@{d}"),
        2 => format!("{l}@{d}x"),
        3 => format!("@{d}"),
        4 => format!("{l}@"),
        5 => format!("{l}@{d}{}", comment(r)),
        6 => format!(" {l}@{d}"),
        _ => format!("{l}@{d}"),
    }
}
fn url(r: &mut Rng) -> String {
    let scheme = if r.chance(1, 8) { flip_case(r, "https") } else { r.pick(&["http", "https", "ftp", "http", "https", "ws", "file", "mailto", "data", "", "HTTP", "httpx", "ht tp", "javascript"]).to_string() };
    let h = match r.below(5) {
        0 => r.pick(&["localhost", "LOCALHOST", "localhost.", "127.0.0.1", "127.1", "0x7f.1", "2130706433", "[::1]", "[::ffff:127.0.0.1]", "192.168.0.1", "ｌｏｃａｌｈｏｓｔ", "localhost%2e", "l%6fcalhost", "0", "0.0.0.0", "[fe80::1]", "１２７.0.0.1", "127.0.0.1.", "[::]", "example.com"]).to_string(),
        1 => format!("[{}]", v6(r)),
        2 => v4(r),
        _ => name(r),
    };
    let user = r.pick(&["", "", "", "", "u@", "u:p@", "localhost@", "@", "u:@", "127.0.0.1:80@"]);
    let port = r.pick(&["", "", "", ":80", ":443", ":0", ":65535", ":65536", ":", ":8a", ":21"]);
    let path = r.pick(&["", "/", "/a/b", "/../x", "/a b", "/%zz", "/中", "?q=1", "#f", "/a?b=c#d", "\\x", "/\t", "//x"]);
    let sep = r.pick(&["://", "://", "://", "://", "://", "://", ":", ":/", ":///", "//", ":\\\\"]);
    let s = format!("{scheme}{sep}{user}{h}{port}{path}");
    match r.below(14) {
        0 => format!(" {s}"),
        1 => format!("{s}\n"),
        2 => s.replacen("t", "t\t", 1),
        _ => s,
    }
}
fn phone(r: &mut Rng) -> String {
    const P: &[&str] = &[
        "0912345678", "+886912345678", "0912-345-678", "02-2345-6789", "+886 2 2345 6789", "2025550123", "(202) 555-0123", "+1 202 555 0123", "1-202-555-0123", "+1 416 555 0123", "416-967-1111", "011-699-1234", "020 7946 0958",
        "+44 20 7946 0958", "07911 123456", "+447911123456", "03-1234-5678", "+81 3 1234 5678", "090-1234-5678", "+8190 1234 5678", "030 12345678", "+49 30 12345678", "0151 12345678", "13912345678", "+86 139 1234 5678", "010 6552 9988",
        "2123 4567", "+852 5123 4567", "51234567", "06 698 12345", "+39 06 698 12345", "312 345 6789", "+39 312 345 6789", "911", "110", "0", "123", "+", "++1", "+0 1", "+999 123456", "12345678901234567890", "tel:+1-202-555-0123", "tel:0912345678;phone-context=+886", "+1 (202) 555-0123 ext. 5", "2025550123x123", "1-800-FLOWERS", "１２０２５５５０１２３", "+１ 202 555 0123", "", " ", "abc", "00886912345678", "0119 1234567", "+1 876 555 0123", "8765550123", "+7 495 123 45 67", "+44 1481 960 194", "01481 960194",
    ];
    let mut s = r.pick(P).to_string();
    match r.below(10) {
        0 => {
            let at = floor(&s, r.below(s.len() + 1));
            s.insert(at, char::from_digit(r.below(10) as u32, 10).unwrap());
        }
        1 => {
            s.pop();
        }
        2 => s = s.replace(' ', r.pick(&["-", ".", "", "\u{a0}", "/"])),
        3 => {
            let d = char::from_digit(r.below(10) as u32, 10).unwrap();
            if let Some(i) = s.rfind(|c: char| c.is_ascii_digit()) {
                s.replace_range(i..i + 1, &d.to_string());
            }
        }
        _ => (),
    }
    s
}
fn semver(r: &mut Rng) -> String {
    let n = |r: &mut Rng| r.pick(&["0", "1", "2", "10", "01", "18446744073709551615", "18446744073709551616", "", "x", "*"]).to_string();
    let m = |r: &mut Rng| if r.chance(4, 5) { r.below(30).to_string() } else { n(r) };
    let mut s = format!("{}.{}.{}", m(r), m(r), m(r));
    if r.chance(1, 3) {
        s.push('-');
        s.push_str(r.pick(&["alpha", "alpha.1", "0", "00", "01", "a.b.c", "", "α", "a-b", "1a", "-", "rc.1", "beta..1", "a_b"]));
    }
    if r.chance(1, 4) {
        s.push('+');
        s.push_str(r.pick(&["build", "001", "a.b", "", "é", "20130313144700", "a+b"]));
    }
    match r.below(14) {
        0 => format!("v{s}"),
        1 => format!("{s} "),
        2 => s.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or_default(),
        3 => format!("{s}.1"),
        _ => s,
    }
}
fn semver_req(r: &mut Rng) -> String {
    let one = |r: &mut Rng| {
        let op = r.pick(&["", "=", ">", ">=", "<", "<=", "~", "^", "==", "!", "*", "=>"]).to_string();
        let v = match r.below(6) {
            0 => r.pick(&["*", "1.*", "1.2.*", "x", "1.x", "*.1", "1.*.3", "", "1"]).to_string(),
            1 => format!("{}.{}", r.below(5), r.below(5)),
            _ => semver(r),
        };
        format!("{op}{}{v}", r.pick(&["", "", " "]))
    };
    let n = *r.pick(&[1, 1, 1, 2, 2, 3, 33]);
    let sep = *r.pick(&[", ", ",", " ", ",,", ", "]);
    (0..n).map(|_| one(r)).collect::<Vec<_>>().join(sep)
}
pub fn json_value(r: &mut Rng, depth: usize) -> serde_json::Value {
    use serde_json::{Value, json};
    match r.below(if depth == 0 { 7 } else { 10 }) {
        0 => Value::Null,
        1 => json!(r.chance(1, 2)),
        2 => json!(*r.pick(&[0i64, 1, -1, 255, 256, -128, i64::MAX, i64::MIN, 65535, 65536])),
        3 => json!(*r.pick(&[0.0f64, 0.5, -1.25, 1e300, 1e-300, 3.0])),
        4 => json!(r.pick(&["", "a", "é中😀", "\"q\"", "\n\t\u{1}", "null", "Dot", "\u{7f}", "\\"]).to_string()),
        5 => json!(u64::MAX),
        6 => json!(r.below(300)),
        7 => Value::Array((0..r.below(4)).map(|_| json_value(r, depth - 1)).collect()),
        _ => {
            let mut m = serde_json::Map::new();
            for _ in 0..r.below(4) {
                m.insert(r.pick(&["a", "b", "", "id", "name", "Dot", "Box", "Line", "é"]).to_string(), json_value(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}
fn doc(r: &mut Rng, depth: usize) -> serde_json::Value {
    use serde_json::json;
    let mut d = json!({"id": r.below(70000), "name": r.pick(&["", "x", "né"]).to_string(), "ratio": *r.pick(&[None, Some(0.5), Some(-3.0)])});
    if r.chance(1, 2) {
        d["tags"] = json!(["a", "b\n"]);
    }
    d["child"] = if depth > 0 && r.chance(1, 2) { doc(r, depth - 1) } else { serde_json::Value::Null };
    if r.chance(1, 8) {
        d["extra"] = json!(1);
    }
    if r.chance(1, 10) {
        d.as_object_mut().unwrap().remove("id");
    }
    d
}
/// a document for a JSON type
pub fn json_for(r: &mut Rng, spec: &Spec) -> serde_json::Value {
    use serde_json::json;
    let Spec::JsonT { ty } = spec else { return json_value(r, 3) };
    if r.chance(1, 5) {
        return json_value(r, 2);
    }
    match ty {
        JsonTy::String => json!(r.pick(&["", "x", "é\n", "\"", "null", "{\"a\":1}"]).to_string()),
        JsonTy::Bool => json!(r.chance(1, 2)),
        JsonTy::U8 => json!(*r.pick(&[0, 1, 255, 256, -1, 128])),
        JsonTy::I64 => {
            if r.chance(1, 6) {
                json!(*r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1]))
            } else {
                json!(*r.pick(&[0, -1, i64::MAX, i64::MIN, 7]))
            }
        }
        JsonTy::F64 => {
            if r.chance(1, 2) {
                json!(float(r, spec))
            } else {
                json!(*r.pick(&[0, 5, -9, i64::MAX, 9007199254740993]))
            }
        }
        JsonTy::Vec => json!((0..r.below(5)).map(|_| if r.chance(1, 3) { json!(null) } else { json!(*r.pick(&[0u64, 5, u32::MAX as u64, u32::MAX as u64 + 1])) }).collect::<Vec<_>>()),
        JsonTy::Map => {
            let mut m = serde_json::Map::new();
            for k in ["a", "b", "", "é"].iter().take(r.below(5)) {
                m.insert(k.to_string(), json!((0..r.below(3)).map(|_| *r.pick(&[0, 127, -128, 128])).collect::<Vec<i32>>()));
            }
            serde_json::Value::Object(m)
        }
        JsonTy::Rec => doc(r, 3),
        JsonTy::Enum => match r.below(6) {
            0 => json!("Dot"),
            1 => json!({"Line": [r.below(9), -3]}),
            2 => json!({"Box": {"w": r.below(300), "h": 2}}),
            3 => json!({"Named": "n"}),
            4 => json!({"Dot": null}),
            _ => json!({"Line": [1]}),
        },
    }
}
fn json_text(r: &mut Rng, spec: &Spec) -> String {
    let v = json_for(r, spec);
    let s = if r.chance(1, 3) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
    match r.below(16) {
        0 => format!(" {s}\n"),
        1 => format!("{s}{s}"),
        2 => format!("{s},"),
        3 => r.pick(&["", "nul", "{", "[1,]", "'a'", "01", "1.", "-", "+1", "1e999", "\"\\u12\"", "\"\u{1}\"", "NaN", "\u{feff}1", "[", "{\"a\"}", "\"\\ud800\"", "1e5", "255.0", "-0", "-0.0", "1E400", "\"\\u0000\"", "{\"a\":1,\"a\":2}", "18446744073709551616", "340282366920938463463374607431768211456"]).to_string(),
        4 => format!("{}{s}{}", rep("[", 130), rep("]", 130)),
        _ => s,
    }
}
/// text a client of this type sends
pub fn text_for(r: &mut Rng, spec: &Spec) -> String {
    let s = plain_text(r, spec);
    if let Some(l) = lits::lit(r, spec.kind(), 8) {
        return lits::graft(r, s, l);
    }
    if r.chance(1, 80) {
        let n = *r.pick(&[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096]);
        return lits::graft(r, s, lits::Lit::Int(n));
    }
    s
}
fn plain_text(r: &mut Rng, spec: &Spec) -> String {
    match spec {
        Spec::Text { unit, min, tmin, max, .. } => text(r, *unit, *min, *tmin, *max),
        Spec::Regex { pat } => {
            let p = *pat;
            let mut s = regex(r);
            // bias towards text the pattern accepts
            for _ in 0..6 {
                if crate::regex_match(p, &s) || r.chance(1, 5) {
                    break;
                }
                s = regex(r);
            }
            s
        }
        Spec::Length { .. } => String::new(),
        Spec::Base { alpha, .. } => base(r, *alpha),
        Spec::UInt { .. } | Spec::SInt { .. } => {
            let v = integer(r, spec);
            int_text(r, v)
        }
        Spec::Num { .. } => float_text(r, spec),
        Spec::Bool => boolean(r),
        Spec::Bit { .. } | Spec::Byte { .. } => quantity(r, spec),
        Spec::Domain { port, .. } => host(r, *port, false),
        Spec::Host { port, .. } => host(r, *port, true),
        Spec::Ip { v, port, .. } => ip(r, *v, *port),
        Spec::Mac { case, sep } => hexid(r, &[2, 2, 2, 2, 2, 2], *case, *sep),
        Spec::Uuid { case, sep } => hexid(r, &[8, 4, 4, 4, 12], *case, *sep),
        Spec::Email { comment, ip, non_ascii, .. } => email(r, *comment, *ip, *non_ascii),
        Spec::Fun(f) => function(r, *f),
        Spec::HttpUrl { .. } | Spec::Url => url(r),
        Spec::Phone { .. } => phone(r),
        Spec::Semver => semver(r),
        Spec::SemverReq => semver_req(r),
        Spec::Json | Spec::JsonT { .. } => json_text(r, spec),
    }
}
/// text likely to be admitted (several attempts, judged by the reference)
pub fn good_text(r: &mut Rng, spec: &Spec) -> String {
    let mut s = text_for(r, spec);
    for _ in 0..12 {
        if crate::judge_text(spec, &s).is_ok() {
            break;
        }
        s = text_for(r, spec);
    }
    s
}
pub const WIRE: &[&str] = &["truncate", "flip", "dup", "drop", "insert", "case", "wide", "bom", "crlf", "nul", "splice", "space", "swap", "prefix_loss"];
/// what the wire does to a message
/// Another text of as many bytes.
pub fn twin(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let ascii: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii()).collect();
    if ascii.is_empty() {
        return s.to_string();
    }
    let like = |r: &mut Rng, c: char| match c {
        '0'..='9' => (b'0' + r.below(10) as u8) as char,
        'a'..='z' => (b'a' + r.below(26) as u8) as char,
        'A'..='Z' => (b'A' + r.below(26) as u8) as char,
        c => c,
    };
    match r.below(4) {
        // one place
        0 | 1 => {
            let i = *r.pick(&ascii);
            v[i] = if r.chance(2, 3) { like(r, v[i]) } else { (0x21 + r.below(94) as u8) as char };
        }
        // all but the beginning
        2 => {
            let from = *r.pick(&ascii);
            for i in ascii.into_iter().filter(|i| *i >= from) {
                v[i] = like(r, v[i]);
            }
        }
        _ => {
            let i = *r.pick(&ascii);
            let j = *r.pick(&ascii);
            v.swap(i, j);
        }
    }
    v.into_iter().collect()
}
pub fn damage(r: &mut Rng, s: &str, other: &str) -> (String, &'static str) {
    let k = *r.pick(WIRE);
    let at = floor(s, r.below(s.len() + 1));
    let next = s[at..].chars().next().map_or(0, |c| c.len_utf8());
    let out = match k {
        "truncate" => s[..at].to_string(),
        "prefix_loss" => s[at..].to_string(),
        "flip" if next == 1 => {
            let c = s.as_bytes()[at] ^ (1 << r.below(7));
            format!("{}{}{}", &s[..at], c as char, &s[at + 1..])
        }
        "dup" => {
            let e = floor(s, at + r.below(5) + 1);
            format!("{}{}{}", &s[..e], &s[at..e], &s[e..])
        }
        "drop" => format!("{}{}", &s[..at], &s[at + next..]),
        "insert" => format!("{}{}{}", &s[..at], if r.chance(1, 2) { r.pick(CH) } else { r.pick(WS) }, &s[at..]),
        "case" => flip_case(r, s),
        "wide" => wide(s),
        "bom" => format!("\u{feff}{s}"),
        "crlf" => format!("{s}\r\n"),
        "nul" => format!("{s}\0"),
        "splice" => format!("{}{}", &s[..at], &other[floor(other, r.below(other.len() + 1))..]),
        "space" => format!(" {s} "),
        "swap" if at + next < s.len() && next > 0 => {
            let n2 = s[at + next..].chars().next().unwrap().len_utf8();
            format!("{}{}{}{}", &s[..at], &s[at + next..at + next + n2], &s[at..at + next], &s[at + next + n2..])
        }
        _ => s.to_string(),
    };
    (out, k)
}
pub fn mode(r: &mut Rng) -> StrMode {
    *r.pick(&[StrMode::Borrowed, StrMode::Transient, StrMode::Owned])
}
/// one of these widths, often the narrowest
pub fn pick_width(r: &mut Rng, ws: &[W]) -> W {
    let bits = |w: &W| match w {
        W::U8 | W::I8 => 8,
        W::U16 | W::I16 => 16,
        W::U32 | W::I32 => 32,
        W::U64 | W::I64 => 64,
        _ => 128,
    };
    if r.chance(1, 3) {
        let least = ws.iter().map(bits).min().unwrap();
        let of: Vec<W> = ws.iter().copied().filter(|w| bits(w) == least).collect();
        return *r.pick(&of);
    }
    *r.pick(ws)
}
pub fn int_tok(r: &mut Rng, v: Result<u128, i128>) -> Tok {
    let ws: Vec<W> = WIDTHS
        .into_iter()
        .filter(|w| match v {
            Ok(v) => w.fits_u(v),
            Err(v) => w.fits_neg(v),
        })
        .collect();
    let w = pick_width(r, &ws);
    match v {
        Ok(v) => Tok::U(v, w),
        Err(v) => Tok::N(v, w),
    }
}
pub fn coll_tok(r: &mut Rng, c: Coll, min: Option<usize>, max: Option<usize>) -> Tok {
    let n = match lits::count(r, "length", 8, 400) {
        Some(n) => n,
        None if r.chance(1, 100) => *r.pick(&[63, 64, 65, 100, 127, 128, 255, 256, 257, 300]),
        None => near(r, &[min, max]).min(40),
    };
    let num = |r: &mut Rng| Tok::U(r.below(6) as u128 + if r.chance(1, 3) { 1000 } else { 0 }, W::U32);
    match c {
        Coll::Btmap | Coll::Hmap | Coll::Jmap => Tok::Map((0..n).map(|i| (Tok::str(if r.chance(1, 4) { format!("k{}", r.below(4)) } else { format!("u{i}") }), num(r))).collect()),
        Coll::Own => Tok::Newtype(Box::new(Tok::Seq((0..n).map(|_| num(r)).collect()))),
        Coll::Btset | Coll::Hset => Tok::Seq((0..n).map(|i| if r.chance(3, 4) { Tok::U(i as u128 + 50, W::U32) } else { num(r) }).collect()),
        _ => Tok::Seq((0..n).map(|_| num(r)).collect()),
    }
}
pub fn json_tok(r: &mut Rng, v: &serde_json::Value) -> Tok {
    use serde_json::Value as V;
    match v {
        V::Null => Tok::Unit,
        V::Bool(b) => Tok::Bool(*b),
        V::Number(n) => {
            if let Some(u) = n.as_u64() {
                int_tok64(r, Ok(u as u128))
            } else if let Some(i) = n.as_i64() {
                int_tok64(r, Err(i as i128))
            } else {
                Tok::f64(n.as_f64().unwrap())
            }
        }
        V::String(s) => Tok::Str(s.clone(), mode(r)),
        V::Array(a) => Tok::Seq(a.iter().map(|v| json_tok(r, v)).collect()),
        V::Object(o) => Tok::Map(o.iter().map(|(k, v)| (Tok::Str(k.clone(), mode(r)), json_tok(r, v))).collect()),
    }
}
fn int_tok64(r: &mut Rng, v: Result<u128, i128>) -> Tok {
    loop {
        match int_tok(r, v) {
            Tok::U(_, W::U128 | W::I128) | Tok::N(_, W::I128) => (),
            t => return t,
        }
    }
}
/// a token in one of the representations a client of this type could use, and sometimes one it could not
pub fn tok_for(r: &mut Rng, spec: &Spec) -> Tok {
    if r.chance(1, 14) {
        return odd_tok(r, spec);
    }
    match spec {
        Spec::Length { min, max, coll } => coll_tok(r, *coll, *min, *max),
        Spec::UInt { .. } | Spec::SInt { .. } if r.chance(3, 4) => {
            let v = integer(r, spec);
            int_tok(r, v)
        }
        Spec::Bool if r.chance(1, 2) => match r.below(3) {
            0 => Tok::Bool(r.chance(1, 2)),
            1 => Tok::Char(*r.pick(&['t', 'T', 'f', 'F', 'y', 'n', 'N', 'Y', '0', '1', '2', 'x', 'é'])),
            _ => {
                let v = integer(r, spec);
                int_tok(r, v)
            }
        },
        Spec::Num { f32_, .. } if r.chance(3, 4) => match r.below(3) {
            0 => {
                let v = integer(r, spec);
                int_tok(r, v)
            }
            1 => Tok::F32((float(r, spec) as f32).to_bits()),
            _ => Tok::F64(if *f32_ && r.chance(1, 2) { float(r, spec) as f32 as f64 } else { float(r, spec) }.to_bits()),
        },
        Spec::Base { .. } if r.chance(1, 3) => {
            let s = text_for(r, spec);
            let mut b = s.into_bytes();
            if !b.is_empty() && r.chance(1, 10) {
                let i = r.below(b.len());
                b[i] = r.u64() as u8;
            }
            Tok::Bytes(b, mode(r))
        }
        Spec::Bit { .. } | Spec::Byte { .. } if r.chance(1, 2) => {
            let v = integer(r, spec);
            match v {
                Ok(v) => Tok::U(v, W::U128),
                v => int_tok(r, v),
            }
        }
        Spec::Json | Spec::JsonT { .. } => {
            let v = json_for(r, spec);
            json_tok(r, &v)
        }
        _ => Tok::Str(text_for(r, spec), mode(r)),
    }
}
pub fn odd_tok(r: &mut Rng, spec: &Spec) -> Tok {
    match r.below(12) {
        0 => Tok::Unit,
        1 => Tok::None,
        2 => Tok::Some(Box::new(tok_for(r, spec))),
        3 => Tok::Seq(vec![]),
        4 => Tok::Map(vec![]),
        5 => Tok::Seq(vec![Tok::str("a"), Tok::U(1, W::U8)]),
        6 => Tok::Map(vec![(Tok::str("a"), Tok::U(1, W::U64))]),
        7 => Tok::Bytes(b"abc".to_vec(), mode(r)),
        8 => Tok::Bool(r.chance(1, 2)),
        9 => Tok::F64(float(r, spec).to_bits()),
        10 => {
            let v = integer(r, spec);
            int_tok(r, v)
        }
        _ => Tok::Char(*r.pick(&['a', '1', '中', '\0', ' ', '=', 't'])),
    }
}
