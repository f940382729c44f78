//! The reference: what each declared type must answer, written from the declared rules and never from the
//! library's code. Third-party grammars (IDNA, URL, semver, phone numbers, JSON, regex, byte units) are asked
//! directly; every policy on top of them is decided here.
pub mod email;
pub mod expect;
pub mod gen_;
pub mod lits;
pub mod names;
pub mod nums;
pub mod texts;

use kit::{Coll, JsonTy, Scalar, Spec, View, q};
use simcore::tok::Tok;
use std::cell::RefCell;
use std::collections::HashMap;

/// What an admissible answer is.
#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Ok(View),
    /// refused; the debug text of the reason starts with one of these
    Bad(Vec<&'static str>),
}
impl Verdict {
    pub fn is_ok(&self) -> bool {
        matches!(self, Verdict::Ok(_))
    }
    pub fn allows(&self, reason_debug: &str) -> bool {
        match self {
            Verdict::Ok(_) => false,
            Verdict::Bad(v) => v.iter().any(|p| reason_matches(reason_debug, p)),
        }
    }
}
/// `PortMust` matches "PortMust"; `ParseError` matches "ParseError(..)" but not "ParseErrorX".
pub fn reason_matches(debug: &str, name: &str) -> bool {
    match debug.strip_prefix(name) {
        Some(rest) => !rest.starts_with(|c: char| c.is_alphanumeric() || c == '_'),
        None => false,
    }
}
/// Collects the rules a payload breaks.
#[derive(Default)]
pub struct Why(pub Vec<&'static str>);
impl Why {
    pub fn if_(&mut self, broken: bool, name: &'static str) {
        if broken {
            self.0.push(name);
        }
    }
    pub fn verdict(self, view: impl FnOnce() -> View) -> Verdict {
        if self.0.is_empty() { Verdict::Ok(view()) } else { Verdict::Bad(self.0) }
    }
}

pub fn judge_text(spec: &Spec, s: &str) -> Verdict {
    match spec {
        Spec::Text { line, unit, min, tmin, max } => texts::text(*line, *unit, *min, *tmin, *max, s),
        Spec::Regex { pat } => {
            if regex_match(pat, s) {
                Verdict::Ok(kit::view! {"text": q(s)})
            } else {
                Verdict::Bad(vec!["RegexError"])
            }
        }
        Spec::Length { .. } => Verdict::Bad(vec![]),
        Spec::Base { .. } => judge_bytes(spec, s.as_bytes()),
        Spec::UInt { .. } | Spec::SInt { .. } | Spec::Num { .. } | Spec::Bool | Spec::Bit { .. } | Spec::Byte { .. } => nums::text(spec, s),
        Spec::Domain { ipv4, local, port, labels } => names::domain(*ipv4, *local, *port, *labels, s),
        Spec::Host { local, port, labels } => names::host(*local, *port, *labels, s),
        Spec::Ip { v, local, port } => names::ip(*v, *local, *port, s),
        Spec::Mac { case, sep } => names::hexid(&[2, 2, 2, 2, 2, 2], *case, *sep, s),
        Spec::Uuid { case, sep } => names::hexid(&[8, 4, 4, 4, 12], *case, *sep, s),
        Spec::Email { comment, ip, local, labels, non_ascii } => email::email(*comment, *ip, *local, *labels, *non_ascii, s),
        Spec::HttpUrl { ftp, local } => names::http_url(*ftp, *local, s),
        Spec::Url => match validators::url::Url::parse(s) {
            Ok(u) => Verdict::Ok(kit::view! {"url": q(u.as_str())}),
            Err(_) => Verdict::Bad(vec!["UrlError"]),
        },
        Spec::Phone { countries } => phone(countries, s),
        Spec::Semver => match validators::semver::Version::parse(s) {
            Ok(v) => Verdict::Ok(kit::view! {"v": format!("{v:?}")}),
            Err(_) => Verdict::Bad(vec!["SemverError"]),
        },
        Spec::SemverReq => match validators::semver::VersionReq::parse(s) {
            Ok(v) => Verdict::Ok(kit::view! {"v": format!("{v:?}")}),
            Err(_) => Verdict::Bad(vec!["SemverError"]),
        },
        Spec::Fun(f) => names::fun(*f, s),
        Spec::Json => json_view(serde_json::from_str::<serde_json::Value>(s).map(|v| v.to_string())),
        Spec::JsonT { ty } => {
            use serde_json::from_str as f;
            json_view(match ty {
                JsonTy::String => f::<String>(s).map(|v| format!("{v:?}")),
                JsonTy::Bool => f::<bool>(s).map(|v| format!("{v:?}")),
                JsonTy::U8 => f::<u8>(s).map(|v| format!("{v:?}")),
                JsonTy::I64 => f::<i64>(s).map(|v| format!("{v:?}")),
                JsonTy::F64 => f::<f64>(s).map(|v| format!("{v:?}")),
                JsonTy::Vec => f::<Vec<Option<u32>>>(s).map(|v| format!("{v:?}")),
                JsonTy::Map => f::<std::collections::BTreeMap<String, Vec<i8>>>(s).map(|v| format!("{v:?}")),
                JsonTy::Rec => f::<kit::Doc>(s).map(|v| format!("{v:?}")),
                JsonTy::Enum => f::<kit::Shape>(s).map(|v| format!("{v:?}")),
            })
        }
    }
}
fn json_view(r: Result<String, serde_json::Error>) -> Verdict {
    match r {
        Ok(s) => Verdict::Ok(kit::view! {"json": s}),
        Err(_) => Verdict::Bad(vec!["SerdeJsonError", "InvalidJsonValueError"]),
    }
}
/// a document handed over as a value
pub fn judge_json(spec: &Spec, v: &serde_json::Value) -> Verdict {
    fn f<T: serde::de::DeserializeOwned + std::fmt::Debug>(v: &serde_json::Value) -> Result<String, serde_json::Error> {
        serde_json::from_value::<T>(v.clone()).map(|v| format!("{v:?}"))
    }
    json_view(match spec {
        Spec::Json => Ok(v.to_string()),
        Spec::JsonT { ty } => match ty {
            JsonTy::String => f::<String>(v),
            JsonTy::Bool => f::<bool>(v),
            JsonTy::U8 => f::<u8>(v),
            JsonTy::I64 => f::<i64>(v),
            JsonTy::F64 => f::<f64>(v),
            JsonTy::Vec => f::<Vec<Option<u32>>>(v),
            JsonTy::Map => f::<std::collections::BTreeMap<String, Vec<i8>>>(v),
            JsonTy::Rec => f::<kit::Doc>(v),
            JsonTy::Enum => f::<kit::Shape>(v),
        },
        _ => return Verdict::Bad(vec![]),
    })
}
pub fn judge_bytes(spec: &Spec, b: &[u8]) -> Verdict {
    match spec {
        Spec::Base { alpha, decoded, pad } => texts::base(*alpha, *decoded, *pad, b),
        _ => Verdict::Bad(vec![]),
    }
}
/// None: the type has no such gateway
pub fn judge_scalar(spec: &Spec, s: Scalar) -> Option<Verdict> {
    if let Spec::Json | Spec::JsonT { .. } = spec {
        let v = match s {
            Scalar::U(v, _) => serde_json::to_value(v),
            Scalar::Usize(v) => serde_json::to_value(v as u128),
            Scalar::I(v, _) => serde_json::to_value(v),
            Scalar::Isize(v) => serde_json::to_value(v as i128),
            Scalar::F32(v) => serde_json::to_value(v as f64),
            Scalar::F64(v) => serde_json::to_value(v),
            Scalar::Bool(v) => serde_json::to_value(v),
            Scalar::Char(_) => return None,
        };
        return Some(match v {
            Ok(v) => judge_json(spec, &v),
            Err(_) => Verdict::Bad(vec!["SerdeJsonError", "InvalidJsonValueError"]),
        });
    }
    nums::scalar(spec, s)
}
pub fn judge_len(min: Option<usize>, max: Option<usize>, n: usize) -> Vec<&'static str> {
    let mut w = Why::default();
    w.if_(min.is_some_and(|m| n < m), "TooSmall");
    w.if_(max.is_some_and(|m| n > m), "TooLarge");
    w.0
}
/// Elements a collection holds after being built from a delivered payload: (count, view text).
pub fn coll_items(c: Coll, t: &Tok) -> Option<(usize, View)> {
    let num = |t: &Tok| match t {
        _ if c == Coll::Jmap => expect::json_of(t).map(|v| v.to_string()),
        Tok::U(v, _) if *v <= u32::MAX as u128 => Some(v.to_string()),
        _ => None,
    };
    let mut v: Vec<String> = vec![];
    let t = match t {
        Tok::Newtype(t) => t,
        t => t,
    };
    match (c, t) {
        (Coll::Vec | Coll::Own | Coll::Heap | Coll::Btset | Coll::Hset, Tok::Seq(xs)) => {
            for x in xs {
                v.push(num(x)?);
            }
            match c {
                Coll::Vec | Coll::Own => (),
                Coll::Heap => v.sort(),
                _ => {
                    v.sort();
                    v.dedup();
                }
            }
        }
        // serde_json's own map reads "nothing" as an empty map
        (Coll::Jmap, Tok::Unit) => (),
        (Coll::Btmap | Coll::Hmap | Coll::Jmap, Tok::Map(xs)) => {
            let mut m = std::collections::BTreeMap::new();
            for (k, x) in xs {
                match k {
                    Tok::Str(k, _) => m.insert(k.clone(), num(x)?),
                    _ => return None,
                };
            }
            v = m.into_iter().map(|(k, x)| format!("{k:?}:{x}")).collect();
            v.sort();
        }
        _ => return None,
    }
    Some((v.len(), kit::view! {"items": v.join(",")}))
}

thread_local! {
    static RES: RefCell<HashMap<&'static str, validators::regex::Regex>> = RefCell::new(HashMap::new());
}
pub fn regex_match(pat: &'static str, s: &str) -> bool {
    RES.with(|r| r.borrow_mut().entry(pat).or_insert_with(|| validators::regex::Regex::new(pat).expect("pattern")).is_match(s))
}

fn phone(countries: &'static [&'static str], s: &str) -> Verdict {
    use validators::phonenumber as pn;
    if countries.is_empty() {
        return match pn::parse(None, s) {
            Ok(p) if p.is_valid() => Verdict::Ok(kit::view! {"phone": kit::phone_view(&p)}),
            Ok(_) => Verdict::Bad(vec!["Invalid"]),
            Err(_) => Verdict::Bad(vec!["Failure"]),
        };
    }
    let (mut found, mut why) = (vec![], Why::default());
    for c in countries {
        let id: pn::country::Id = c.parse().expect("country");
        match pn::parse(Some(id), s) {
            Ok(p) => {
                if p.country().id() == Some(id) && p.is_valid() {
                    found.push((c.to_string(), kit::phone_view(&p)));
                } else {
                    why.if_(true, "Invalid");
                }
            }
            Err(_) => why.if_(true, "Failure"),
        }
    }
    if found.is_empty() {
        return Verdict::Bad(why.0);
    }
    if countries.len() == 1 {
        Verdict::Ok(kit::view! {"phone": found[0].1.clone()})
    } else {
        Verdict::Ok(kit::phones_view(found.into_iter()))
    }
}
