//! A serializer owned by the simulator: records what the type emits, can fail at any step.
use crate::de::SimErr;
use crate::tok::*;
use crate::{Fault, SimPanic, sched};
use serde::ser::*;
use std::cell::{Cell, RefCell};

pub struct SerCtx {
    pub human: bool,
    pub fail_at: Option<(u32, Fault)>,
    pub fault_id: u64,
    pub step: Cell<u32>,
    pub fired: Cell<bool>,
    /// called once at this step
    pub nested: RefCell<Option<(u32, Box<dyn FnOnce()>)>>,
}
impl Default for SerCtx {
    fn default() -> Self {
        SerCtx { human: true, fail_at: None, fault_id: 0, step: Cell::new(0), fired: Cell::new(false), nested: RefCell::new(None) }
    }
}
impl SerCtx {
    fn step(&self) -> Result<(), SimErr> {
        sched::point("ser");
        let n = self.step.get();
        self.step.set(n + 1);
        let due = matches!(&*self.nested.borrow(), Some((at, _)) if *at == n);
        if due {
            let f = self.nested.borrow_mut().take().unwrap().1;
            f();
        }
        if let Some((at, k)) = self.fail_at {
            if at == n {
                self.fired.set(true);
                if k == Fault::Panic {
                    std::panic::panic_any(SimPanic(self.fault_id));
                }
                return Err(SimErr::Fault(k, self.fault_id));
            }
        }
        Ok(())
    }
}
#[derive(Clone, Copy)]
pub struct SimSer<'c>(pub &'c SerCtx);

pub struct SeqB<'c>(Vec<Tok>, &'c SerCtx, Option<&'static str>);
pub struct MapB<'c>(Vec<(Tok, Tok)>, Option<Tok>, &'c SerCtx, Option<&'static str>);

macro_rules! ints {
    ($($f:ident $t:ty, $w:ident);*) => { $( fn $f(self, v: $t) -> Result<Tok, SimErr> { self.0.step()?; Ok(Tok::U(v as u128, W::$w)) } )* };
}
macro_rules! sints {
    ($($f:ident $t:ty, $w:ident);*) => { $( fn $f(self, v: $t) -> Result<Tok, SimErr> { self.0.step()?; Ok(if v < 0 { Tok::N(v as i128, W::$w) } else { Tok::U(v as u128, W::$w) }) } )* };
}
impl<'c> Serializer for SimSer<'c> {
    type Ok = Tok;
    type Error = SimErr;
    type SerializeSeq = SeqB<'c>;
    type SerializeTuple = SeqB<'c>;
    type SerializeTupleStruct = SeqB<'c>;
    type SerializeTupleVariant = SeqB<'c>;
    type SerializeMap = MapB<'c>;
    type SerializeStruct = MapB<'c>;
    type SerializeStructVariant = MapB<'c>;
    fn is_human_readable(&self) -> bool {
        self.0.human
    }
    ints! { serialize_u8 u8, U8; serialize_u16 u16, U16; serialize_u32 u32, U32; serialize_u64 u64, U64; serialize_u128 u128, U128 }
    sints! { serialize_i8 i8, I8; serialize_i16 i16, I16; serialize_i32 i32, I32; serialize_i64 i64, I64; serialize_i128 i128, I128 }
    fn serialize_bool(self, v: bool) -> Result<Tok, SimErr> {
        self.0.step()?;
        Ok(Tok::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Tok, SimErr> {
        self.0.step()?;
        Ok(Tok::F32(v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<Tok, SimErr> {
        self.0.step()?;
        Ok(Tok::F64(v.to_bits()))
    }
    fn serialize_char(self, v: char) -> Result<Tok, SimErr> {
        self.0.step()?;
        Ok(Tok::Char(v))
    }
    fn serialize_str(self, v: &str) -> Result<Tok, SimErr> {
        self.0.step()?;
        Ok(Tok::str(v))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Tok, SimErr> {
        self.0.step()?;
        Ok(Tok::Bytes(v.to_vec(), StrMode::Transient))
    }
    fn serialize_none(self) -> Result<Tok, SimErr> {
        self.0.step()?;
        Ok(Tok::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Tok, SimErr> {
        self.0.step()?;
        Ok(Tok::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Tok, SimErr> {
        self.0.step()?;
        Ok(Tok::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tok, SimErr> {
        self.serialize_unit()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Tok, SimErr> {
        self.serialize_str(v)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Tok, SimErr> {
        self.0.step()?;
        Ok(Tok::Newtype(Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, k: &'static str, v: &T) -> Result<Tok, SimErr> {
        self.0.step()?;
        Ok(Tok::Map(vec![(Tok::str(k), v.serialize(self)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqB<'c>, SimErr> {
        self.0.step()?;
        Ok(SeqB(vec![], self.0, None))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqB<'c>, SimErr> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqB<'c>, SimErr> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, k: &'static str, _: usize) -> Result<SeqB<'c>, SimErr> {
        self.0.step()?;
        Ok(SeqB(vec![], self.0, Some(k)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapB<'c>, SimErr> {
        self.0.step()?;
        Ok(MapB(vec![], None, self.0, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapB<'c>, SimErr> {
        self.serialize_map(None)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, k: &'static str, _: usize) -> Result<MapB<'c>, SimErr> {
        self.0.step()?;
        Ok(MapB(vec![], None, self.0, Some(k)))
    }
}
impl SeqB<'_> {
    fn add<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.1.step()?;
        let t = v.serialize(SimSer(self.1))?;
        self.0.push(t);
        Ok(())
    }
    fn done(self) -> Result<Tok, SimErr> {
        self.1.step()?;
        let t = Tok::Seq(self.0);
        Ok(match self.2 {
            None => t,
            Some(k) => Tok::Map(vec![(Tok::str(k), t)]),
        })
    }
}
impl MapB<'_> {
    fn done(self) -> Result<Tok, SimErr> {
        self.2.step()?;
        let t = Tok::Map(self.0);
        Ok(match self.3 {
            None => t,
            Some(k) => Tok::Map(vec![(Tok::str(k), t)]),
        })
    }
}
macro_rules! seqs {
    ($($tr:ident $m:ident),*) => { $( impl<'c> $tr for SeqB<'c> { type Ok = Tok; type Error = SimErr;
        fn $m<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> { self.add(v) }
        fn end(self) -> Result<Tok, SimErr> { self.done() } } )* };
}
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<'c> SerializeMap for MapB<'c> {
    type Ok = Tok;
    type Error = SimErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), SimErr> {
        self.2.step()?;
        self.1 = Some(k.serialize(SimSer(self.2))?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        let t = v.serialize(SimSer(self.2))?;
        self.0.push((self.1.take().expect("key"), t));
        Ok(())
    }
    fn end(self) -> Result<Tok, SimErr> {
        self.done()
    }
}
macro_rules! structs {
    ($($tr:ident),*) => { $( impl<'c> $tr for MapB<'c> { type Ok = Tok; type Error = SimErr;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SimErr> {
            self.2.step()?;
            let t = v.serialize(SimSer(self.2))?;
            self.0.push((Tok::str(k), t));
            Ok(())
        }
        fn end(self) -> Result<Tok, SimErr> { self.done() } } )* };
}
structs!(SerializeStruct, SerializeStructVariant);
