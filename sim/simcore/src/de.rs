//! A deserializer owned by the simulator: any representation, any chunking, a fault at any step,
//! a scheduling point at every step.
use crate::tok::*;
use crate::{Fault, SimPanic, sched};
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Display};

/// Errors a simulated format produces.
#[derive(Clone, Debug, PartialEq)]
pub enum SimErr {
    /// raised by the type being (de)serialized
    Custom(String),
    /// the representation cannot be carried by that type (visitor refused the kind of token)
    Type(String),
    /// the injected failure (kind, identity)
    Fault(Fault, u64),
}
impl Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            SimErr::Custom(s) => f.write_str(s),
            SimErr::Type(s) => write!(f, "type mismatch: {s}"),
            SimErr::Fault(Fault::Eof, id) => write!(f, "unexpected end of file: EOF, injected #{id}"),
            SimErr::Fault(Fault::Io, id) => write!(f, "io error: connection reset, injected #{id}"),
            SimErr::Fault(k, id) => write!(f, "injected {k:?} #{id}"),
        }
    }
}
impl std::error::Error for SimErr {}
impl de::Error for SimErr {
    fn custom<T: Display>(msg: T) -> Self {
        SimErr::Custom(msg.to_string())
    }
    fn invalid_type(unexp: de::Unexpected, _exp: &dyn de::Expected) -> Self {
        SimErr::Type(format!("{unexp}"))
    }
}
impl serde::ser::Error for SimErr {
    fn custom<T: Display>(msg: T) -> Self {
        SimErr::Custom(msg.to_string())
    }
}

/// State of one delivery.
pub struct DeCtx {
    pub human: bool,
    /// text is "received" in pieces of this many bytes; each piece is a step
    pub chunk: usize,
    pub fail_at: Option<(u32, Fault)>,
    pub fault_id: u64,
    pub step: Cell<u32>,
    pub fired: Cell<bool>,
    /// step count when the payload had been handed over completely
    pub hints: RefCell<Vec<&'static str>>,
    pub deliveries: Cell<u32>,
    /// called once between two steps (used for nested validations)
    pub nested: RefCell<Option<(u32, Box<dyn FnOnce()>)>>,
}
impl Default for DeCtx {
    fn default() -> Self {
        DeCtx {
            human: true,
            chunk: usize::MAX,
            fail_at: None,
            fault_id: 0,
            step: Cell::new(0),
            fired: Cell::new(false),
            hints: RefCell::new(Vec::new()),
            deliveries: Cell::new(0),
            nested: RefCell::new(None),
        }
    }
}
impl DeCtx {
    fn step(&self) -> Result<(), SimErr> {
        sched::point("de");
        let n = self.step.get();
        self.step.set(n + 1);
        let due = matches!(&*self.nested.borrow(), Some((at, _)) if *at == n);
        if due {
            let f = self.nested.borrow_mut().take().unwrap().1;
            f();
        }
        if let Some((at, k)) = self.fail_at {
            if at == n {
                self.fired.set(true);
                if k == Fault::Panic {
                    std::panic::panic_any(SimPanic(self.fault_id));
                }
                return Err(SimErr::Fault(k, self.fault_id));
            }
        }
        Ok(())
    }
    fn recv(&self, len: usize) -> Result<(), SimErr> {
        let mut got = 0usize;
        loop {
            self.step()?;
            got = got.saturating_add(self.chunk.max(1));
            if got >= len {
                return Ok(());
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct SimDe<'de, 'c> {
    pub tok: &'de Tok,
    pub ctx: &'c DeCtx,
}
impl<'de, 'c> SimDe<'de, 'c> {
    pub fn new(tok: &'de Tok, ctx: &'c DeCtx) -> Self {
        SimDe { tok, ctx }
    }
    fn drive<V: Visitor<'de>>(self, hint: &'static str, v: V) -> Result<V::Value, SimErr> {
        self.ctx.hints.borrow_mut().push(hint);
        self.ctx.step()?;
        let r = self.visit(v)?;
        self.ctx.deliveries.set(self.ctx.deliveries.get() + 1);
        // the frame is closed only after the visitor has returned
        self.ctx.step()?;
        Ok(r)
    }
    fn visit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        let c = self.ctx;
        match self.tok {
            Tok::Unit => v.visit_unit(),
            Tok::None => v.visit_none(),
            Tok::Some(t) => v.visit_some(SimDe { tok: t, ctx: c }),
            Tok::Newtype(t) => v.visit_newtype_struct(SimDe { tok: t, ctx: c }),
            Tok::Bool(b) => v.visit_bool(*b),
            Tok::Char(x) => v.visit_char(*x),
            Tok::U(x, w) => match w {
                W::U8 => v.visit_u8(*x as u8),
                W::U16 => v.visit_u16(*x as u16),
                W::U32 => v.visit_u32(*x as u32),
                W::U64 => v.visit_u64(*x as u64),
                W::U128 => v.visit_u128(*x),
                W::I8 => v.visit_i8(*x as i8),
                W::I16 => v.visit_i16(*x as i16),
                W::I32 => v.visit_i32(*x as i32),
                W::I64 => v.visit_i64(*x as i64),
                W::I128 => v.visit_i128(*x as i128),
            },
            Tok::N(x, w) => match w {
                W::I8 => v.visit_i8(*x as i8),
                W::I16 => v.visit_i16(*x as i16),
                W::I32 => v.visit_i32(*x as i32),
                W::I64 => v.visit_i64(*x as i64),
                _ => v.visit_i128(*x),
            },
            Tok::F32(b) => v.visit_f32(f32::from_bits(*b)),
            Tok::F64(b) => v.visit_f64(f64::from_bits(*b)),
            Tok::Str(s, m) => {
                c.recv(s.len())?;
                match m {
                    StrMode::Borrowed => v.visit_borrowed_str(s),
                    StrMode::Transient => {
                        let t = s.clone();
                        v.visit_str(&t)
                    }
                    StrMode::Owned => v.visit_string(s.clone()),
                }
            }
            Tok::Bytes(s, m) => {
                c.recv(s.len())?;
                match m {
                    StrMode::Borrowed => v.visit_borrowed_bytes(s),
                    StrMode::Transient => {
                        let t = s.clone();
                        v.visit_bytes(&t)
                    }
                    StrMode::Owned => v.visit_byte_buf(s.clone()),
                }
            }
            Tok::Seq(xs) => v.visit_seq(SimSeq { it: xs.iter(), ctx: c }),
            Tok::Map(xs) => v.visit_map(SimMap { it: xs.iter(), val: None, ctx: c }),
        }
    }
}

struct SimSeq<'de, 'c> {
    it: std::slice::Iter<'de, Tok>,
    ctx: &'c DeCtx,
}
impl<'de, 'c> SeqAccess<'de> for SimSeq<'de, 'c> {
    type Error = SimErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SimErr> {
        self.ctx.step()?;
        match self.it.next() {
            None => Ok(None),
            Some(t) => seed.deserialize(SimDe { tok: t, ctx: self.ctx }).map(Some),
        }
    }
}
struct SimMap<'de, 'c> {
    it: std::slice::Iter<'de, (Tok, Tok)>,
    val: Option<&'de Tok>,
    ctx: &'c DeCtx,
}
impl<'de, 'c> MapAccess<'de> for SimMap<'de, 'c> {
    type Error = SimErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, SimErr> {
        self.ctx.step()?;
        match self.it.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.val = Some(v);
                seed.deserialize(SimDe { tok: k, ctx: self.ctx }).map(Some)
            }
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, SimErr> {
        let t = self.val.take().expect("value before key");
        seed.deserialize(SimDe { tok: t, ctx: self.ctx })
    }
}
struct SimEnum<'de, 'c> {
    key: &'de str,
    val: Option<&'de Tok>,
    ctx: &'c DeCtx,
}
impl<'de, 'c> EnumAccess<'de> for SimEnum<'de, 'c> {
    type Error = SimErr;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self), SimErr> {
        let d: de::value::StrDeserializer<'de, SimErr> = self.key.into_deserializer();
        Ok((seed.deserialize(d)?, self))
    }
}
impl<'de, 'c> VariantAccess<'de> for SimEnum<'de, 'c> {
    type Error = SimErr;
    fn unit_variant(self) -> Result<(), SimErr> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, SimErr> {
        match self.val {
            Some(t) => seed.deserialize(SimDe { tok: t, ctx: self.ctx }),
            None => Err(SimErr::Type("unit variant".into())),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _n: usize, v: V) -> Result<V::Value, SimErr> {
        match self.val {
            Some(t) => SimDe { tok: t, ctx: self.ctx }.drive("tuple_variant", v),
            None => Err(SimErr::Type("unit variant".into())),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, _f: &'static [&'static str], v: V) -> Result<V::Value, SimErr> {
        self.tuple_variant(0, v)
    }
}

macro_rules! fwd {
    ($($n:ident)*) => { $( fn $n<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> { self.drive(stringify!($n), v) } )* };
}
impl<'de, 'c> de::Deserializer<'de> for SimDe<'de, 'c> {
    type Error = SimErr;
    fn is_human_readable(&self) -> bool {
        self.ctx.human
    }
    fwd! { deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128
    deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64
    deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
    deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        self.ctx.step()?;
        match self.tok {
            Tok::None | Tok::Unit => v.visit_none(),
            Tok::Some(t) => v.visit_some(SimDe { tok: t, ctx: self.ctx }),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, SimErr> {
        self.drive("unit_struct", v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, SimErr> {
        self.ctx.step()?;
        match self.tok {
            Tok::Newtype(t) => v.visit_newtype_struct(SimDe { tok: t, ctx: self.ctx }),
            _ => v.visit_newtype_struct(self),
        }
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _l: usize, v: V) -> Result<V::Value, SimErr> {
        self.drive("tuple", v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _n: &'static str, _l: usize, v: V) -> Result<V::Value, SimErr> {
        self.drive("tuple_struct", v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], v: V) -> Result<V::Value, SimErr> {
        self.drive("struct", v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], v: V) -> Result<V::Value, SimErr> {
        self.ctx.step()?;
        match self.tok {
            Tok::Str(s, _) => v.visit_enum(SimEnum { key: s, val: None, ctx: self.ctx }),
            Tok::Map(m) if m.len() == 1 => match &m[0] {
                (Tok::Str(k, _), t) => v.visit_enum(SimEnum { key: k, val: Some(t), ctx: self.ctx }),
                _ => Err(SimErr::Type("enum".into())),
            },
            _ => Err(SimErr::Type("enum".into())),
        }
    }
}
