//! Literals of the code under test as ingredients of payloads: what a piece of code compares with is worth sending to it.
use simcore::Rng;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug)]
pub enum Lit {
    Int(u128),
    Float(f64),
    Str(&'static str),
}
include!(concat!(env!("OUT_DIR"), "/lits.rs"));

struct Lists {
    novel: Vec<(&'static str, Lit)>,
    all: Vec<(&'static str, Lit)>,
}
fn lists() -> &'static Lists {
    static L: OnceLock<Lists> = OnceLock::new();
    L.get_or_init(|| {
        // soak: every literal counts as a new one
        let soak = std::env::var_os("VSIM_LITS").is_some();
        let of = |n: bool| LITS.iter().filter(|l| !n || l.0 || soak).map(|l| (l.1, l.2)).collect::<Vec<_>>();
        Lists { novel: of(true), all: of(false) }
    })
}
/// literals which were not there when the simulator was written
pub fn novel() -> usize {
    lists().novel.len()
}
/// a literal which may matter to this kind of type, now and then
pub fn lit(r: &mut Rng, kind: &str, one_in: usize) -> Option<Lit> {
    let l = lists();
    let hot = !l.novel.is_empty();
    if !r.chance(1, if hot { one_in } else { one_in * 6 }) {
        return None;
    }
    let from = if hot && r.chance(7, 8) { &l.novel } else { &l.all };
    let near = |k: &str| k == "*" || k == kind || kind.starts_with(k) || k.starts_with(kind);
    for _ in 0..30 {
        let (k, v) = from[r.below(from.len())];
        if near(k) || r.chance(1, 40) {
            return Some(v);
        }
    }
    None
}
/// about this number
pub fn about(r: &mut Rng, v: u128) -> u128 {
    match r.below(6) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 if v < 128 => 1 << v,
        3 => v.wrapping_mul(1 + r.below(4) as u128),
        _ => v,
    }
}
pub fn number(r: &mut Rng, kind: &str, one_in: usize) -> Option<u128> {
    match lit(r, kind, one_in)? {
        Lit::Int(v) => Some(about(r, v)),
        Lit::Str(s) if s.chars().count() == 1 => s.chars().next().map(|c| c as u128),
        Lit::Float(f) => Some(f as u128),
        _ => None,
    }
}
/// a number which may be a length or a count
pub fn count(r: &mut Rng, kind: &str, one_in: usize, max: usize) -> Option<usize> {
    number(r, kind, one_in).filter(|v| *v <= max as u128).map(|v| v as usize)
}
fn floor(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
/// the text with a literal worked into it
pub fn graft(r: &mut Rng, s: String, l: Lit) -> String {
    let put = |r: &mut Rng, s: &str, t: &str| {
        let at = floor(s, match r.below(4) {
            0 => 0,
            1 => s.len(),
            _ => r.below(s.len() + 1),
        });
        let next = s[at..].chars().next().map_or(0, |c| c.len_utf8());
        let cut = if r.chance(1, 2) { next } else { 0 };
        format!("{}{t}{}", &s[..at], &s[at + cut..])
    };
    match l {
        Lit::Int(v) => {
            let v = about(r, v);
            match r.below(7) {
                // of that length, in characters or in bytes
                0 | 1 if v <= 5000 && !s.is_empty() => {
                    let v = v as usize;
                    let cs: Vec<char> = s.chars().collect();
                    let at = r.below(cs.len());
                    let bytes = r.chance(1, 2);
                    let len = |c: &[char]| if bytes { c.iter().map(|c| c.len_utf8()).sum::<usize>() } else { c.len() };
                    let mut out = cs.clone();
                    while len(&out) > v {
                        out.remove(at.min(out.len() - 1));
                    }
                    while len(&out) < v {
                        out.insert(at.min(out.len()), cs[at]);
                    }
                    out.into_iter().collect()
                }
                // that many pieces
                2 if v <= 300 => {
                    let t = *r.pick(&[".", "a.", ":", " ", "\\", "\"", "-", "(", "@", "=", "0", "1"]);
                    put(r, &s, &t.repeat(v as usize))
                }
                3 => match char::from_u32(v as u32) {
                    Some(c) if v < 0x110000 => put(r, &s, &c.to_string()),
                    _ => s,
                },
                // a number in it becomes this one
                n => {
                    let hex = n == 4;
                    let is = |c: &char| if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() };
                    let t = if hex { format!("{v:x}") } else { v.to_string() };
                    let runs: Vec<(usize, usize)> = {
                        let mut v = vec![];
                        let mut from = None;
                        for (i, c) in s.char_indices().chain([(s.len(), '\u{1}')]) {
                            match (is(&c), from) {
                                (true, None) => from = Some(i),
                                (false, Some(f)) => {
                                    v.push((f, i));
                                    from = None;
                                }
                                _ => (),
                            }
                        }
                        v
                    };
                    if runs.is_empty() || r.chance(1, 8) {
                        return put(r, &s, &t);
                    }
                    let (a, b) = *r.pick(&runs);
                    // keep the length where it fits
                    let t = if t.len() < b - a && r.chance(1, 2) {
                        if r.chance(1, 2) { format!("{}{t}", &s[a..b - t.len()]) } else { format!("{}{t}", "0".repeat(b - a - t.len())) }
                    } else {
                        t
                    };
                    format!("{}{t}{}", &s[..a], &s[b..])
                }
            }
        }
        Lit::Float(f) => put(r, &s, &f.to_string()),
        Lit::Str(t) => {
            let t = match r.below(5) {
                0 => t.to_ascii_uppercase(),
                1 => t.to_ascii_lowercase(),
                _ => t.to_string(),
            };
            match r.below(5) {
                0 => t,
                _ => put(r, &s, &t),
            }
        }
    }
}
