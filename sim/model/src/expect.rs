//! What a deserialization must answer for a token.
use crate::{Verdict, coll_items, judge_bytes, judge_json, judge_len, judge_scalar, judge_text, nums};
use kit::{Scalar, Spec};
use simcore::tok::{Tok, W};

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    /// exactly this
    V(Verdict),
    /// the type has no meaning for this representation: refused, never a value
    Form,
    /// either refused as a representation, or exactly this
    FormOr(Verdict),
}
pub(crate) fn json_of(t: &Tok) -> Option<serde_json::Value> {
    use serde_json::Value as V;
    Some(match t {
        Tok::Unit | Tok::None => V::Null,
        Tok::Some(t) => json_of(t)?,
        Tok::Bool(b) => V::Bool(*b),
        Tok::Char(c) => V::String(c.to_string()),
        Tok::U(v, W::U128 | W::I128) => serde_json::to_value(*v).ok()?,
        Tok::N(v, W::I128) => serde_json::to_value(*v).ok()?,
        Tok::U(v, _) => V::from(*v as u64),
        Tok::N(v, _) => V::from(*v as i64),
        Tok::F32(b) => V::from(f32::from_bits(*b) as f64),
        Tok::F64(b) => V::from(f64::from_bits(*b)),
        Tok::Str(s, _) => V::String(s.clone()),
        Tok::Seq(v) => V::Array(v.iter().map(json_of).collect::<Option<_>>()?),
        Tok::Map(v) => {
            let mut m = serde_json::Map::new();
            for (k, x) in v {
                match k {
                    Tok::Str(k, _) => m.insert(k.clone(), json_of(x)?),
                    Tok::Char(k) => m.insert(k.to_string(), json_of(x)?),
                    _ => return None,
                };
            }
            V::Object(m)
        }
        Tok::Newtype(_) | Tok::Bytes(..) => return None,
    })
}
fn wide(t: &Tok) -> bool {
    match t {
        Tok::U(_, W::U128 | W::I128) | Tok::N(_, W::I128) => true,
        Tok::Some(t) => wide(t),
        Tok::Seq(v) => v.iter().any(wide),
        Tok::Map(v) => v.iter().any(|(k, x)| wide(k) || wide(x)),
        _ => false,
    }
}
/// `human`: the format calls itself human readable
pub fn expect(spec: &Spec, t: &Tok, human: bool) -> Exp {
    match spec {
        Spec::Json | Spec::JsonT { .. } => {
            return match json_of(t) {
                None => Exp::Form,
                // serde_json's own value type has no wide integers
                Some(v) if wide(t) => Exp::FormOr(judge_json(spec, &v)),
                Some(v) => Exp::V(judge_json(spec, &v)),
            };
        }
        Spec::Length { min, max, coll } => {
            return match coll_items(*coll, t) {
                Some((n, view)) => {
                    let w = judge_len(*min, *max, n);
                    Exp::V(if w.is_empty() { Verdict::Ok(view) } else { Verdict::Bad(w) })
                }
                None => Exp::Form,
            };
        }
        _ => (),
    }
    let quantity = matches!(spec, Spec::Bit { .. } | Spec::Byte { .. });
    let one;
    match t {
        Tok::Str(..) | Tok::Char(_) => {
            let s: &str = match t {
                Tok::Str(s, _) => s,
                Tok::Char(c) => {
                    one = c.to_string();
                    &one
                }
                _ => unreachable!(),
            };
            let v = judge_text(spec, s);
            if quantity && !human { Exp::FormOr(v) } else { Exp::V(v) }
        }
        Tok::Bytes(b, _) => match spec {
            Spec::Base { .. } => Exp::V(judge_bytes(spec, b)),
            // read through an owned text, which takes UTF-8 bytes as text
            _ if quantity => match std::str::from_utf8(b) {
                Ok(s) => Exp::FormOr(judge_text(spec, s)),
                Err(_) => Exp::Form,
            },
            _ => Exp::Form,
        },
        Tok::U(v, w) if quantity => {
            let x = judge_scalar(spec, Scalar::U(*v, W::U128)).expect("quantity");
            if !human && *w == W::U128 && *v <= u64::MAX as u128 { Exp::V(x) } else { Exp::FormOr(x) }
        }
        Tok::U(v, _) => nums::integer(spec, Ok(*v)).map_or(Exp::Form, Exp::V),
        Tok::N(v, _) => nums::integer(spec, Err(*v)).map_or(Exp::Form, Exp::V),
        Tok::F32(b) if matches!(spec, Spec::Num { .. }) => judge_scalar(spec, Scalar::F32(f32::from_bits(*b))).map_or(Exp::Form, Exp::V),
        Tok::F64(b) if matches!(spec, Spec::Num { .. }) => judge_scalar(spec, Scalar::F64(f64::from_bits(*b))).map_or(Exp::Form, Exp::V),
        Tok::Bool(b) if *spec == Spec::Bool => judge_scalar(spec, Scalar::Bool(*b)).map_or(Exp::Form, Exp::V),
        _ => Exp::Form,
    }
}
