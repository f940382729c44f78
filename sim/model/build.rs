//! The literals of the code under test, and which of them were not there when the simulator was written: food for the
//! payload generators (a search heuristic; no verdict depends on it).
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}
fn unescape(s: &[char], i: &mut usize) -> Option<char> {
    // s[*i] is the character after the backslash
    let c = *s.get(*i)?;
    *i += 1;
    Some(match c {
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        '0' => '\0',
        'x' => {
            let h: String = s.get(*i..*i + 2)?.iter().collect();
            *i += 2;
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
        }
        'u' => {
            let e = s[*i..].iter().position(|c| *c == '}')?;
            let h: String = s[*i + 1..*i + e].iter().filter(|c| **c != '_').collect();
            *i += e + 1;
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
        }
        c => c,
    })
}
/// kind and value of each literal
fn lex(text: &str) -> Vec<(char, String)> {
    let s: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == '/' && s.get(i + 1) == Some(&'/') {
            while i < s.len() && s[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && s.get(i + 1) == Some(&'*') {
            // comments nest
            let mut depth = 0;
            while i < s.len() {
                match (s[i], s.get(i + 1)) {
                    ('/', Some('*')) => depth += 1,
                    ('*', Some('/')) => depth -= 1,
                    _ => {
                        i += 1;
                        continue;
                    }
                }
                i += 2;
                if depth == 0 {
                    break;
                }
            }
        } else if c == 'r' && matches!(s.get(i + 1), Some('"' | '#')) && !(i > 0 && (s[i - 1].is_alphanumeric() && s[i - 1] != 'b' || s[i - 1] == '_')) {
            let mut h = 0;
            while s.get(i + 1 + h) == Some(&'#') {
                h += 1;
            }
            if s.get(i + 1 + h) != Some(&'"') {
                i += 1;
                continue;
            }
            i += h + 2;
            let from = i;
            while i < s.len() && !(s[i] == '"' && s[i + 1..].iter().take(h).filter(|c| **c == '#').count() == h) {
                i += 1;
            }
            out.push(('s', s[from..i.min(s.len())].iter().collect()));
            i += h + 1;
        } else if c == '"' {
            i += 1;
            let mut t = String::new();
            while i < s.len() && s[i] != '"' {
                if s[i] == '\\' {
                    i += 1;
                    if s.get(i) == Some(&'\n') {
                        while s.get(i).is_some_and(|c| c.is_whitespace()) {
                            i += 1;
                        }
                    } else {
                        t.extend(unescape(&s, &mut i));
                    }
                } else {
                    t.push(s[i]);
                    i += 1;
                }
            }
            i += 1;
            out.push(('s', t));
        } else if c == '\'' {
            // a character or a lifetime
            if s.get(i + 1) == Some(&'\\') {
                i += 2;
                if let Some(c) = unescape(&s, &mut i) {
                    out.push(('c', c.to_string()));
                }
                i += 1;
            } else if s.get(i + 2) == Some(&'\'') {
                out.push(('c', s[i + 1].to_string()));
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && !(i > 0 && (s[i - 1].is_alphanumeric() || s[i - 1] == '_')) {
            let from = i;
            while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == '_' || s[i] == '.' && s.get(i + 1).is_some_and(|c| c.is_ascii_digit()) && !s[from..i].contains(&'.')) {
                i += 1;
            }
            let t: String = s[from..i].iter().filter(|c| **c != '_').collect();
            let t = t.to_ascii_lowercase();
            let body = |t: &str| ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].iter().find_map(|x| t.strip_suffix(x)).unwrap_or(t).to_string();
            let v = if let Some(h) = t.strip_prefix("0x") {
                u128::from_str_radix(&body(h), 16).ok()
            } else if let Some(h) = t.strip_prefix("0b") {
                u128::from_str_radix(&body(h), 2).ok()
            } else if let Some(h) = t.strip_prefix("0o") {
                u128::from_str_radix(&body(h), 8).ok()
            } else {
                body(&t).parse().ok()
            };
            match v {
                Some(v) => out.push(('i', v.to_string())),
                None => {
                    if let Ok(f) = t.trim_end_matches("f32").trim_end_matches("f64").parse::<f64>() {
                        out.push(('f', format!("{f:?}")));
                    }
                }
            }
        } else {
            i += 1;
        }
    }
    out
}
fn main() {
    println!("cargo:rerun-if-changed=Cargo.toml");
    println!("cargo:rerun-if-changed=literals.base");
    let toml = fs::read_to_string("Cargo.toml").unwrap();
    let at = toml.find("validators = { path = \"").unwrap() + 23 - 1;
    let path = &toml[at..];
    let path = path.trim_start_matches('"');
    let root = PathBuf::from(&path[..path.find('"').unwrap()]).parent().unwrap().to_path_buf();
    let mut files = vec![];
    for d in ["validators/src", "validators-derive/src"] {
        println!("cargo:rerun-if-changed={}", root.join(d).display());
        walk(&root.join(d), &mut files);
    }
    let mut now: BTreeMap<String, i64> = BTreeMap::new();
    for f in files {
        let rel = f.strip_prefix(&root).unwrap();
        // which validators a literal may matter to
        let scope = match rel.components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect::<Vec<_>>().as_slice() {
            [_, _, h, k, ..] if h == "validator_handlers" && !k.ends_with(".rs") => k.clone(),
            [_, _, e, k] if e == "errors" => k.trim_end_matches(".rs").to_string(),
            _ => "*".into(),
        };
        for (k, v) in lex(&fs::read_to_string(&f).unwrap_or_default()) {
            if k != 's' || v.len() <= 40 {
                *now.entry(format!("{scope}\t{k}\t{v:?}")).or_default() += 1;
            }
        }
    }
    let listing: String = now.iter().map(|(k, n)| format!("{k}\t{n}\n")).collect();
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    fs::write(out.join("literals.now"), &listing).unwrap();
    let base: BTreeMap<String, i64> = fs::read_to_string("literals.base")
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let (k, n) = l.rsplit_once('\t')?;
            Some((k.to_string(), n.parse().ok()?))
        })
        .collect();
    let mut code = String::from("pub static LITS: &[(bool, &str, Lit)] = &[\n");
    for (k, n) in &now {
        let novel = *n > base.get(k).copied().unwrap_or(0);
        let mut p = k.split('\t');
        let (scope, kind, v) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
        let bare = v.trim_matches('"');
        let lit = match kind {
            "i" => format!("Lit::Int({bare})"),
            "f" => format!("Lit::Float({bare}f64)"),
            _ => format!("Lit::Str({v})"),
        };
        code.push_str(&format!("    ({novel}, {scope:?}, {lit}),\n"));
    }
    code.push_str("];\n");
    fs::write(out.join("lits.rs"), code).unwrap();
}
