use crate::{Spec, Src, SrcLog, View};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use simcore::de::{DeCtx, SimDe, SimErr};
use simcore::ser::{SerCtx, SimSer};
use simcore::tok::{Tok, W};
use std::fmt::{self, Debug, Display};
use validators::prelude::*;

/// A value admitted by some type.
pub trait DynVal: Send {
    fn view(&self) -> View;
    fn ser(&self, c: &SerCtx) -> Result<Tok, SimErr>;
    /// named canonical renderings
    fn texts(&self) -> Vec<(&'static str, String)>;
    fn debug(&self, w: &mut dyn fmt::Write) -> fmt::Result;
    /// the host name or address in it, displayed
    fn display(&self, w: &mut dyn fmt::Write) -> Option<fmt::Result>;
    /// the capturing wrapper around it, printed
    fn wrap_debug(&self, w: &mut dyn fmt::Write) -> fmt::Result;
    fn write(&self, f: Fmt, w: &mut dyn std::io::Write) -> Result<(), SimErr>;
    fn dup(&self) -> Box<dyn DynVal>;
}
/// A refusal.
pub trait DynErr: Send {
    fn debug(&self, w: &mut dyn fmt::Write) -> fmt::Result;
    fn wrap_debug(&self, w: &mut dyn fmt::Write) -> fmt::Result;
    fn display(&self, w: &mut dyn fmt::Write) -> fmt::Result;
    fn respond(self: Box<Self>) -> axum::response::Response;
}
pub trait Sub: Sized + Send + Debug + Clone + Serialize + 'static {
    fn view(&self) -> View;
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![]
    }
    fn host(&self) -> Option<&validators::models::Host> {
        None
    }
}
struct HV<T>(T);
impl<T: Sub> DynVal for HV<T> {
    fn view(&self) -> View {
        self.0.view()
    }
    fn ser(&self, c: &SerCtx) -> Result<Tok, SimErr> {
        self.0.serialize(SimSer(c))
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        self.0.texts()
    }
    fn debug(&self, w: &mut dyn fmt::Write) -> fmt::Result {
        write!(w, "{:?}", self.0)
    }
    fn display(&self, w: &mut dyn fmt::Write) -> Option<fmt::Result> {
        self.0.host().map(|h| write!(w, "{h}"))
    }
    fn wrap_debug(&self, w: &mut dyn fmt::Write) -> fmt::Result {
        let r: validators::Result<&T, ()> = validators::Result::new(Ok(&self.0));
        write!(w, "{r:?}")
    }
    fn write(&self, f: Fmt, w: &mut dyn std::io::Write) -> Result<(), SimErr> {
        match f {
            Fmt::Cbor => ciborium::into_writer(&self.0, w).map_err(|e| match e {
                ciborium::ser::Error::Io(e) => SimErr::Type(format!("io:{e}")),
                ciborium::ser::Error::Value(e) => SimErr::Custom(e),
            }),
            Fmt::Bincode => bincode::serialize_into(w, &self.0).map_err(bin_err),
            _ => serde_json::to_writer(w, &self.0).map_err(json_err),
        }
    }
    fn dup(&self) -> Box<dyn DynVal> {
        Box::new(HV(self.0.clone()))
    }
}
struct HE<E>(E);
impl<E: Send + Debug + Display + axum::response::IntoResponse + 'static> DynErr for HE<E> {
    fn debug(&self, w: &mut dyn fmt::Write) -> fmt::Result {
        write!(w, "{:?}", self.0)
    }
    fn wrap_debug(&self, w: &mut dyn fmt::Write) -> fmt::Result {
        let r: validators::Result<(), &E> = validators::Result::new(Err(&self.0));
        write!(w, "{r:?}")
    }
    fn display(&self, w: &mut dyn fmt::Write) -> fmt::Result {
        write!(w, "{}", self.0)
    }
    fn respond(self: Box<Self>) -> axum::response::Response {
        self.0.into_response()
    }
}
pub trait Err: Send + Debug + Display + axum::response::IntoResponse + 'static {}
impl<E: Send + Debug + Display + axum::response::IntoResponse + 'static> Err for E {}

pub enum Out {
    Val(Box<dyn DynVal>),
    /// a validate-only call succeeded
    Unit,
    Rej(Box<dyn DynErr>),
    /// the deserializer's error came out
    Xport(SimErr),
    /// form error without the reason's own type (text only)
    FormErr(String),
    /// this gateway does not exist for the type
    NA,
    /// the harness found the wrapper unfaithful
    Broken(String),
}
pub fn debug_of(f: impl Fn(&mut dyn fmt::Write) -> fmt::Result) -> String {
    let mut s = String::new();
    let _ = f(&mut s);
    s
}
/// Comparable summary of an outcome.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Obs {
    Val(View),
    Unit,
    /// debug text, display text
    Rej(String, String),
    /// an error of the format that carries the reason's text
    Custom(String),
    Type,
    Fault(String),
    NA,
    Broken(String),
    Panic(String),
}
impl Out {
    pub fn obs(&self) -> Obs {
        match self {
            Out::Val(v) => Obs::Val(v.view()),
            Out::Unit => Obs::Unit,
            Out::Rej(e) => Obs::Rej(debug_of(|w| e.debug(w)), debug_of(|w| e.display(w))),
            Out::Xport(SimErr::Custom(s)) => Obs::Custom(s.clone()),
            Out::Xport(SimErr::Type(_)) => Obs::Type,
            Out::Xport(SimErr::Fault(k, id)) => Obs::Fault(format!("{k:?}#{id}")),
            Out::FormErr(s) => Obs::Custom(s.clone()),
            Out::NA => Obs::NA,
            Out::Broken(s) => Obs::Broken(s.clone()),
        }
    }
}

/// Direct-call gateways of a type.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Gate {
    ParseStr,
    ParseString,
    ValidateStr,
    ParseSlice,
    ParseVec,
    ValidateSlice,
    /// wrapper's From<&str>, From<String>, FromStr
    WrapStr,
    WrapString,
    WrapFromStr,
    WrapBytes,
    WrapVec,
    FormValue,
    FormCaptured,
    Param,
}
pub const TEXT_GATES: [Gate; 9] = [
    Gate::ParseStr,
    Gate::ParseString,
    Gate::ValidateStr,
    Gate::WrapStr,
    Gate::WrapString,
    Gate::WrapFromStr,
    Gate::FormValue,
    Gate::FormCaptured,
    Gate::Param,
];
pub const BYTE_GATES: [Gate; 5] = [Gate::ParseSlice, Gate::ParseVec, Gate::ValidateSlice, Gate::WrapBytes, Gate::WrapVec];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum NumGate {
    Parse,
    Validate,
    Wrap,
}
/// A non-text direct call.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Scalar {
    U(u128, W),
    I(i128, W),
    Usize(usize),
    Isize(isize),
    F32(f32),
    F64(f64),
    Bool(bool),
    Char(char),
}

pub struct Subject {
    pub name: &'static str,
    pub spec: Spec,
    pub text: Option<fn(Gate, Src<'_>) -> Out>,
    pub bytes: Option<fn(Gate, Src<'_>) -> Out>,
    pub scalar: Vec<fn(NumGate, Scalar) -> Out>,
    pub coll: Option<fn(bool, &Tok, &DeCtx) -> Out>,
    pub json: Option<fn(NumGate, serde_json::Value) -> Out>,
    pub de: fn(&Tok, &DeCtx) -> Out,
    pub de_cap: fn(&Tok, &DeCtx) -> Out,
    pub rich: Option<Rich>,
    pub web: Option<crate::web::Web>,
}
impl Subject {
    pub fn new(name: &'static str, spec: Spec, de: fn(&Tok, &DeCtx) -> Out, de_cap: fn(&Tok, &DeCtx) -> Out) -> Subject {
        Subject { name, spec, text: None, bytes: None, scalar: vec![], coll: None, json: None, de, de_cap, rich: None, web: None }
    }
    pub fn call_scalar(&self, g: NumGate, s: Scalar) -> Out {
        for f in &self.scalar {
            match f(g, s) {
                Out::NA => (),
                o => return o,
            }
        }
        Out::NA
    }
}
#[macro_export]
macro_rules! subject {
    ($name:expr, $T:ident, $E:ident, $spec:expr, [coll($C:ty)]) => {{
        let mut s = $crate::Subject::new($name, $spec, $crate::de::<$T>, $crate::de_cap_len::<$T, $E, $C>);
        s.coll = Some($crate::coll_gate::<$T, $C, $E>);
        s.rich = Some($crate::rich::<$T, $E, $C>());
        s
    }};
    ($name:expr, $T:ident, $E:ident, $spec:expr, [$($cap:ident),*]) => {{
        let mut s = $crate::Subject::new($name, $spec, $crate::de::<$T>, $crate::de_cap::<$T, $E>);
        $( $crate::cap!(s $T $E $cap); )*
        s
    }};
}
#[macro_export]
macro_rules! cap {
    ($s:ident $T:ident $E:ident text) => { $s.text = Some($crate::text_gate::<$T, $E>) };
    ($s:ident $T:ident $E:ident bytes) => { $s.bytes = Some($crate::byte_gate::<$T, $E>) };
    ($s:ident $T:ident $E:ident uint) => { $s.scalar.push($crate::uint_gate::<$T, $E>) };
    ($s:ident $T:ident $E:ident sint) => { $s.scalar.push($crate::sint_gate::<$T, $E>) };
    ($s:ident $T:ident $E:ident num) => { $s.scalar.push($crate::num_gate::<$T, $E>) };
    ($s:ident $T:ident $E:ident boolean) => { $s.scalar.push($crate::bool_gate::<$T, $E>) };
    ($s:ident $T:ident $E:ident chr) => { $s.scalar.push($crate::char_gate::<$T, $E>) };
    ($s:ident $T:ident $E:ident jsonv) => { $s.json = Some($crate::json_gate::<$T, $E>) };
    ($s:ident $T:ident $E:ident web) => { $s.web = Some($crate::web::web::<$T, $E>()) };
    ($s:ident $T:ident $E:ident rich) => { $s.rich = Some($crate::rich::<$T, $E, ()>()) };
}

/// Real formats a representative of each kind is also driven through.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Fmt {
    JsonStr,
    JsonSlice,
    JsonReader,
    JsonValue,
    Cbor,
    Bincode,
}
pub const FMTS: [Fmt; 6] = [Fmt::JsonStr, Fmt::JsonSlice, Fmt::JsonReader, Fmt::JsonValue, Fmt::Cbor, Fmt::Bincode];
/// How a byte stream behaves.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Stream {
    pub chunk: usize,
    pub eintr_every: u32,
    pub fail_at: Option<(usize, simcore::Fault)>,
    pub id: u64,
}
impl Default for Stream {
    fn default() -> Self {
        Stream { chunk: usize::MAX, eintr_every: 0, fail_at: None, id: 0 }
    }
}
impl Stream {
    fn reader<'a>(&self, data: &'a [u8]) -> simcore::io::SimReader<'a> {
        let mut r = simcore::io::SimReader::new(data);
        r.chunk = self.chunk;
        r.eintr_every = self.eintr_every;
        r.fail_at = self.fail_at;
        r.id = self.id;
        r
    }
}
/// what the stream did
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct StreamLog {
    pub fired: bool,
    pub eintrs: u32,
    pub calls: u32,
}
impl StreamLog {
    fn of(r: &simcore::io::SimReader<'_>) -> Self {
        StreamLog { fired: r.fired, eintrs: r.eintrs, calls: r.calls }
    }
}
/// the formats report a refused representation as a text
fn text_err(s: String) -> SimErr {
    if s.starts_with("invalid type: ") { SimErr::Type(s) } else { SimErr::Custom(s) }
}
fn json_err(e: serde_json::Error) -> SimErr {
    use serde_json::error::Category;
    match e.classify() {
        Category::Io => SimErr::Type(format!("io:{}", std::io::Error::from(e))),
        Category::Syntax => SimErr::Type(format!("syntax:{e}")),
        Category::Eof => SimErr::Type(format!("eof:{e}")),
        Category::Data => {
            let s = e.to_string();
            let s = match s.rfind(" at line ") {
                Some(i) if e.line() > 0 => s[..i].to_string(),
                _ => s,
            };
            text_err(s)
        }
    }
}
fn cbor_err(e: ciborium::de::Error<std::io::Error>) -> SimErr {
    match e {
        ciborium::de::Error::Io(e) => SimErr::Type(format!("io:{e}")),
        ciborium::de::Error::Syntax(n) => SimErr::Type(format!("syntax:{n}")),
        ciborium::de::Error::Semantic(_, s) => text_err(s),
        e => SimErr::Type(format!("{e:?}")),
    }
}
fn bin_err(e: bincode::Error) -> SimErr {
    match *e {
        bincode::ErrorKind::Io(e) => SimErr::Type(format!("io:{e}")),
        bincode::ErrorKind::Custom(s) => text_err(s),
        e => SimErr::Type(format!("{e:?}")),
    }
}
/// Decode one document of a real format.
pub fn real_de<T: DeserializeOwned>(f: Fmt, data: &[u8], st: Stream) -> (Result<T, SimErr>, StreamLog) {
    let mut log = StreamLog::default();
    let r = match f {
        Fmt::JsonStr => match std::str::from_utf8(data) {
            Ok(s) => serde_json::from_str(s).map_err(json_err),
            Err(_) => Err(SimErr::Type("syntax:utf8".into())),
        },
        Fmt::JsonSlice => serde_json::from_slice(data).map_err(json_err),
        Fmt::JsonReader => {
            let mut r = st.reader(data);
            let x = serde_json::from_reader(&mut r).map_err(json_err);
            log = StreamLog::of(&r);
            x
        }
        Fmt::JsonValue => serde_json::from_slice::<serde_json::Value>(data).map_err(json_err).and_then(|v| serde_json::from_value(v).map_err(json_err)),
        Fmt::Cbor => {
            let mut r = st.reader(data);
            let x = ciborium::de::from_reader_with_buffer(&mut r, &mut vec![0; data.len().max(4096)]).map_err(cbor_err);
            log = StreamLog::of(&r);
            x
        }
        Fmt::Bincode => {
            let mut r = st.reader(data);
            // the default configuration, with a bound on what a length prefix may claim
            use bincode::Options;
            let o = bincode::options().with_fixint_encoding().allow_trailing_bytes().with_limit(data.len().max(4096) as u64);
            let x = o.deserialize_from(&mut r).map_err(bin_err);
            log = StreamLog::of(&r);
            x
        }
    };
    (r, log)
}
/// A record with bare and captured fields of one type between fields of other types.
#[derive(Deserialize)]
pub struct Rec<T, C> {
    pub id: u64,
    pub first: C,
    pub list: Vec<C>,
    pub opt: Option<T>,
    pub last: C,
    pub tail: String,
}
/// The same within a larger record: serde reads it by way of a buffer of its own.
#[derive(Deserialize)]
#[serde(bound(deserialize = "T: DeserializeOwned, C: DeserializeOwned"))]
pub struct Flat<T, C> {
    #[serde(flatten)]
    pub all: Rec<T, C>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct RecOut {
    pub id: u64,
    pub tail: String,
    pub caps: Vec<Obs>,
    pub opt: Option<Obs>,
}
#[derive(Clone, Copy)]
pub struct Rich {
    pub from: fn(Fmt, &[u8], Stream, bool) -> (Out, StreamLog),
    pub rec: fn(Fmt, &[u8], Stream, bool) -> (Result<RecOut, SimErr>, StreamLog),
    pub rec_sim: fn(&Tok, &DeCtx) -> Result<RecOut, SimErr>,
}
pub fn rich<T: Sub + DeserializeOwned, E: Err, K>() -> Rich
where
    validators::Result<T, E, K>: DeserializeOwned,
{
    fn from<T: Sub + DeserializeOwned, E: Err, K>(f: Fmt, d: &[u8], st: Stream, cap: bool) -> (Out, StreamLog)
    where
        validators::Result<T, E, K>: DeserializeOwned,
    {
        if cap {
            let (r, l) = real_de::<validators::Result<T, E, K>>(f, d, st);
            (
                match r {
                    Ok(v) => wrap(v),
                    Err(e) => Out::Xport(e),
                },
                l,
            )
        } else {
            let (r, l) = real_de::<T>(f, d, st);
            (
                match r {
                    Ok(v) => val(v),
                    Err(e) => Out::Xport(e),
                },
                l,
            )
        }
    }
    fn rec<T: Sub + DeserializeOwned, E: Err, K>(f: Fmt, d: &[u8], st: Stream, flat: bool) -> (Result<RecOut, SimErr>, StreamLog)
    where
        validators::Result<T, E, K>: DeserializeOwned,
    {
        if flat {
            let (r, l) = real_de::<Flat<T, validators::Result<T, E, K>>>(f, d, st);
            return (r.map(|r| rec_out(r.all)), l);
        }
        let (r, l) = real_de::<Rec<T, validators::Result<T, E, K>>>(f, d, st);
        (
            r.map(rec_out),
            l,
        )
    }
    fn rec_sim<T: Sub + DeserializeOwned, E: Err, K>(t: &Tok, c: &DeCtx) -> Result<RecOut, SimErr>
    where
        validators::Result<T, E, K>: DeserializeOwned,
    {
        Rec::<T, validators::Result<T, E, K>>::deserialize(SimDe::new(t, c)).map(rec_out)
    }
    fn rec_out<T: Sub, E: Err, K>(r: Rec<T, validators::Result<T, E, K>>) -> RecOut {
        let mut caps = vec![wrap(r.first).obs()];
        caps.extend(r.list.into_iter().map(|c| wrap(c).obs()));
        caps.push(wrap(r.last).obs());
        RecOut { id: r.id, tail: r.tail, caps, opt: r.opt.map(|v| val(v).obs()) }
    }
    Rich { from: from::<T, E, K>, rec: rec::<T, E, K>, rec_sim: rec_sim::<T, E, K> }
}

pub fn val<T: Sub>(t: T) -> Out {
    Out::Val(Box::new(HV(t)))
}
pub fn rej<E: Err>(e: E) -> Out {
    Out::Rej(Box::new(HE(e)))
}
pub fn res<T: Sub, E: Err>(r: Result<T, E>) -> Out {
    match r {
        Ok(t) => val(t),
        Err(e) => rej(e),
    }
}
pub fn unit<E: Err>(r: Result<(), E>) -> Out {
    match r {
        Ok(()) => Out::Unit,
        Err(e) => rej(e),
    }
}
/// Put a wrapper through its conversions; it must keep its side and content.
pub fn wrap<T: Sub, E: Err, K>(r: validators::Result<T, E, K>) -> Out {
    let show = |r: &Result<T, E>| match r {
        Ok(t) => format!("Ok {}", t.view()),
        Err(e) => format!("Err {e:?}"),
    };
    let a = show(r.as_std_result());
    let r: validators::Result<T, E> = validators::Result::new(r.into_std_result());
    let b = show(&r);
    if a != b {
        return Out::Broken(format!("wrapper views differ: {a} / {b}"));
    }
    let dbg = format!("{r:?}");
    let dbg_std = match r.as_std_result() {
        Ok(t) => format!("{:?}", Ok::<&T, &E>(t)),
        Err(e) => format!("{:?}", Err::<&T, &E>(e)),
    };
    if dbg != dbg_std {
        return Out::Broken(format!("wrapper debug text differs: {dbg} / {dbg_std}"));
    }
    let std: Result<T, E> = r.into();
    let r2 = validators::Result::from(std);
    let c = show(&r2);
    let std2 = r2.into_std_result();
    let d = show(&std2);
    if a != c || a != d {
        return Out::Broken(format!("wrapper conversion changed content: {a} -> {c} -> {d}"));
    }
    let mut r3: validators::Result<T, E> = validators::Result::new(std2);
    let e = show(&*std::ops::DerefMut::deref_mut(&mut r3));
    if a != e {
        return Out::Broken(format!("wrapper deref changed content: {a} -> {e}"));
    }
    res(r3.into_std_result())
}

pub fn form_err(e: rocket::form::Errors<'_>) -> Out {
    Out::FormErr(e.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" | "))
}

pub fn text_gate<T, E>(g: Gate, s: Src<'_>) -> Out
where
    T: Sub + ValidateString<Error = E> + for<'r> rocket::form::FromFormField<'r> + for<'r> rocket::request::FromParam<'r, Error = E>,
    E: Err,
{
    match g {
        Gate::ParseStr => res(T::parse_str(s)),
        Gate::ParseString => res(T::parse_string(s)),
        Gate::ValidateStr => unit(T::validate_str(s)),
        Gate::WrapStr => wrap(validators::Result::<T, E>::from(AsRef::<str>::as_ref(&s))),
        Gate::WrapString => wrap(validators::Result::<T, E>::from(String::from(s))),
        Gate::WrapFromStr => match AsRef::<str>::as_ref(&s).parse::<validators::Result<T, E>>() {
            Ok(r) => wrap(r),
            Err(_) => Out::Broken("FromStr of the wrapper failed".into()),
        },
        Gate::FormValue => {
            let t: &str = s.as_ref();
            match <T as rocket::form::FromFormField>::from_value(rocket::form::ValueField::from_value(t)) {
                Ok(v) => val(v),
                Err(e) => form_err(e),
            }
        }
        Gate::FormCaptured => {
            let t: &str = s.as_ref();
            match <validators::Result<T, E> as rocket::form::FromFormField>::from_value(rocket::form::ValueField::from_value(t)) {
                Ok(v) => wrap(v),
                Err(e) => Out::Broken(format!("captured form field failed: {e}")),
            }
        }
        Gate::Param => {
            let t: &str = s.as_ref();
            res(<T as rocket::request::FromParam>::from_param(t))
        }
        _ => Out::NA,
    }
}
pub fn byte_gate<T, E>(g: Gate, s: Src<'_>) -> Out
where
    T: Sub + ValidateBytes<Error = E>,
    E: Err,
{
    match g {
        Gate::ParseSlice => res(T::parse_u8_slice(s)),
        Gate::ParseVec => res(T::parse_vec_u8(s)),
        Gate::ValidateSlice => unit(T::validate_u8_slice(s)),
        Gate::WrapBytes => wrap(validators::Result::<T, E>::from(AsRef::<[u8]>::as_ref(&s))),
        Gate::WrapVec => wrap(validators::Result::<T, E>::from(Vec::<u8>::from(s))),
        _ => Out::NA,
    }
}
macro_rules! num_arm {
    ($T:ident $E:ident $g:ident $v:expr, $p:ident $va:ident) => {
        match $g {
            NumGate::Parse => res($T::$p($v)),
            NumGate::Validate => unit($T::$va($v)),
            NumGate::Wrap => wrap(validators::Result::<$T, $E>::from($v)),
        }
    };
}
pub fn uint_gate<T, E>(g: NumGate, s: Scalar) -> Out
where
    T: Sub + ValidateUnsignedInteger<Error = E>,
    E: Err,
{
    match s {
        Scalar::U(v, w) => match w {
            W::U8 => num_arm!(T E g v as u8, parse_u8 validate_u8),
            W::U16 => num_arm!(T E g v as u16, parse_u16 validate_u16),
            W::U32 => num_arm!(T E g v as u32, parse_u32 validate_u32),
            W::U64 => num_arm!(T E g v as u64, parse_u64 validate_u64),
            _ => num_arm!(T E g v, parse_u128 validate_u128),
        },
        Scalar::Usize(v) => num_arm!(T E g v, parse_usize validate_usize),
        _ => Out::NA,
    }
}
pub fn sint_gate<T, E>(g: NumGate, s: Scalar) -> Out
where
    T: Sub + ValidateSignedInteger<Error = E>,
    E: Err,
{
    match s {
        Scalar::I(v, w) => match w {
            W::I8 => num_arm!(T E g v as i8, parse_i8 validate_i8),
            W::I16 => num_arm!(T E g v as i16, parse_i16 validate_i16),
            W::I32 => num_arm!(T E g v as i32, parse_i32 validate_i32),
            W::I64 => num_arm!(T E g v as i64, parse_i64 validate_i64),
            _ => num_arm!(T E g v, parse_i128 validate_i128),
        },
        Scalar::Isize(v) => num_arm!(T E g v, parse_isize validate_isize),
        _ => Out::NA,
    }
}
pub fn num_gate<T, E>(g: NumGate, s: Scalar) -> Out
where
    T: Sub + ValidateNumber<Error = E>,
    E: Err,
{
    match s {
        Scalar::F64(v) => num_arm!(T E g v, parse_f64 validate_f64),
        Scalar::F32(v) => num_arm!(T E g v, parse_f32 validate_f32),
        _ => Out::NA,
    }
}
pub fn bool_gate<T, E>(g: NumGate, s: Scalar) -> Out
where
    T: Sub + ValidateBoolean<Error = E>,
    E: Err,
{
    match s {
        Scalar::Bool(v) => num_arm!(T E g v, parse_bool validate_bool),
        _ => Out::NA,
    }
}
pub fn char_gate<T, E>(g: NumGate, s: Scalar) -> Out
where
    T: Sub + ValidateChar<Error = E>,
    E: Err,
{
    match s {
        Scalar::Char(v) => num_arm!(T E g v, parse_char validate_char),
        _ => Out::NA,
    }
}
pub fn json_gate<T, E>(g: NumGate, v: serde_json::Value) -> Out
where
    T: Sub + ValidateJsonValue<Error = E>,
    E: Err,
{
    num_arm!(T E g v, parse_json_value validate_json_value)
}
/// collections arrive by deserialization of the bare collection, then parse or validate
pub fn coll_gate<T, C, E>(parse: bool, t: &Tok, c: &DeCtx) -> Out
where
    C: CollectionLength + DeserializeOwned,
    T: Sub + ValidateLength<C, Error = E>,
    E: Err,
{
    match C::deserialize(SimDe::new(t, c)) {
        Ok(v) => {
            if parse {
                res(T::parse_collection(v))
            } else {
                unit(T::validate_collection(&v))
            }
        }
        Err(e) => Out::Xport(e),
    }
}
pub fn de<T: Sub + DeserializeOwned>(t: &Tok, c: &DeCtx) -> Out {
    match T::deserialize(SimDe::new(t, c)) {
        Ok(v) => val(v),
        Err(e) => Out::Xport(e),
    }
}
pub fn de_cap<T: Sub, E: Err>(t: &Tok, c: &DeCtx) -> Out
where
    validators::Result<T, E>: DeserializeOwned,
{
    match <validators::Result<T, E>>::deserialize(SimDe::new(t, c)) {
        Ok(v) => wrap(v),
        Err(e) => Out::Xport(e),
    }
}
pub fn de_cap_len<T: Sub, E: Err, K>(t: &Tok, c: &DeCtx) -> Out
where
    validators::Result<T, E, K>: DeserializeOwned,
{
    match <validators::Result<T, E, K>>::deserialize(SimDe::new(t, c)) {
        Ok(v) => wrap(v),
        Err(e) => Out::Xport(e),
    }
}
pub fn static_views<'a>(v: &'a [Vec<u8>], log: &'a SrcLog) -> Src<'a> {
    Src::new(v, log)
}
