//! The wire representation of a payload: what a deserializer hands to a visitor.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum StrMode {
    Borrowed,
    Transient,
    Owned,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum W {
    U8,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I32,
    I64,
    I128,
}
pub const WIDTHS: [W; 10] = [W::U8, W::U16, W::U32, W::U64, W::U128, W::I8, W::I16, W::I32, W::I64, W::I128];
impl W {
    pub fn fits_u(self, v: u128) -> bool {
        match self {
            W::U8 => v <= u8::MAX as u128,
            W::U16 => v <= u16::MAX as u128,
            W::U32 => v <= u32::MAX as u128,
            W::U64 => v <= u64::MAX as u128,
            W::U128 => true,
            W::I8 => v <= i8::MAX as u128,
            W::I16 => v <= i16::MAX as u128,
            W::I32 => v <= i32::MAX as u128,
            W::I64 => v <= i64::MAX as u128,
            W::I128 => v <= i128::MAX as u128,
        }
    }
    pub fn fits_neg(self, v: i128) -> bool {
        match self {
            W::I8 => v >= i8::MIN as i128,
            W::I16 => v >= i16::MIN as i128,
            W::I32 => v >= i32::MIN as i128,
            W::I64 => v >= i64::MIN as i128,
            W::I128 => true,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tok {
    Unit,
    None,
    Some(Box<Tok>),
    Newtype(Box<Tok>),
    Bool(bool),
    Char(char),
    /// non-negative integer delivered in width W
    U(#[serde(with = "as_text")] u128, W),
    /// negative integer delivered in width W
    N(#[serde(with = "as_text")] i128, W),
    F32(u32),
    F64(u64),
    Str(String, StrMode),
    Bytes(Vec<u8>, StrMode),
    Seq(Vec<Tok>),
    Map(Vec<(Tok, Tok)>),
}
impl Tok {
    pub fn str(s: impl Into<String>) -> Tok {
        Tok::Str(s.into(), StrMode::Transient)
    }
    pub fn u(v: u128) -> Tok {
        let w = [W::U64, W::U128].into_iter().find(|w| w.fits_u(v)).unwrap();
        Tok::U(v, w)
    }
    pub fn i(v: i128) -> Tok {
        if v >= 0 {
            let w = [W::I64, W::I128].into_iter().find(|w| w.fits_u(v as u128)).unwrap();
            Tok::U(v as u128, w)
        } else {
            let w = [W::I64, W::I128].into_iter().find(|w| w.fits_neg(v)).unwrap();
            Tok::N(v, w)
        }
    }
    pub fn f64(f: f64) -> Tok {
        Tok::F64(f.to_bits())
    }
    /// Number of scheduling/fault steps a full delivery takes is computed by the deserializer itself.
    pub fn short(&self) -> String {
        let s = format!("{self:?}");
        if s.len() > 120 {
            let mut e = 120;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            format!("{}…", &s[..e])
        } else {
            s
        }
    }
}

/// wide integers as text, so that any JSON tool can handle a plan
pub mod as_text {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<T: std::fmt::Display, S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(v)
    }
    pub fn deserialize<'de, T: std::str::FromStr<Err: std::fmt::Display>, D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
