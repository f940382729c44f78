use crate::{Verdict, Why};
use kit::{Alpha, Tri, Unit, q};

pub fn text(line: bool, unit: Unit, min: Option<usize>, tmin: Option<usize>, max: Option<usize>, s: &str) -> Verdict {
    let len = |s: &str| match unit {
        Unit::Chars => s.chars().count(),
        Unit::Bytes => s.len(),
    };
    let bad = |c: char| {
        let allowed_ws: &[char] = if line { &['\t'] } else { &['\t', '\n', '\r'] };
        // what the library forbids: C0 controls and DEL, except the white space above; VT stays allowed in text
        let c0 = (c as u32) < 0x20 || c as u32 == 0x7f;
        c0 && !allowed_ws.contains(&c) && !(c == '\u{b}' && !line)
    };
    let n = len(s);
    let mut w = Why::default();
    w.if_(s.chars().any(bad), "Invalid");
    w.if_(max.is_some_and(|m| n > m), "TooLong");
    w.if_(min.is_some_and(|m| n < m) || tmin.is_some_and(|m| len(s.trim()) < m), "TooShort");
    w.verdict(|| kit::view! {"text": q(s)})
}

fn value(a: Alpha, c: u8) -> Option<u32> {
    Some(match (a, c) {
        (Alpha::B32, b'A'..=b'Z') => (c - b'A') as u32,
        (Alpha::B32, b'2'..=b'7') => (c - b'2') as u32 + 26,
        (Alpha::B32, _) => return None,
        (_, b'A'..=b'Z') => (c - b'A') as u32,
        (_, b'a'..=b'z') => (c - b'a') as u32 + 26,
        (_, b'0'..=b'9') => (c - b'0') as u32 + 52,
        (Alpha::B64, b'+') | (Alpha::B64Url, b'-') => 62,
        (Alpha::B64, b'/') | (Alpha::B64Url, b'_') => 63,
        _ => return None,
    })
}
pub fn base(a: Alpha, decoded: bool, pad: Tri, b: &[u8]) -> Verdict {
    let (q_, bits) = if a == Alpha::B32 { (8, 5) } else { (4, 6) };
    let k = b.iter().rev().take_while(|c| **c == b'=').count();
    let body = &b[..b.len() - k];
    let r = body.len() % q_;
    let impossible: &[usize] = if a == Alpha::B32 { &[1, 3, 6] } else { &[1] };
    let mut malformed = b.is_empty() || impossible.contains(&r) || body.iter().any(|c| value(a, *c).is_none());
    if k > 0 {
        malformed |= r == 0 || k != q_ - r;
    }
    // decode
    let (mut acc, mut n, mut out) = (0u32, 0, Vec::new());
    for c in body {
        acc = acc << bits | value(a, *c).unwrap_or(0);
        n += bits;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    let trailing = acc != 0;
    let mut w = Why::default();
    w.if_(malformed, "Invalid");
    w.if_(pad == Tri::M && b.len() % q_ != 0, "PaddingMust");
    w.if_(pad == Tri::D && b.contains(&b'='), "PaddingDisallow");
    if decoded {
        w.if_(trailing || malformed, "Decode");
    }
    w.verdict(|| {
        if decoded {
            kit::view! {"bytes": format!("{:02x?}", out), "len": format!("{}/{}", out.len(), out.is_empty())}
        } else {
            kit::view! {"text": q(std::str::from_utf8(b).unwrap())}
        }
    })
}
