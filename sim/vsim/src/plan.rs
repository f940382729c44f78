//! A run, written out: everything that will happen, in order, with the faults in place.
use crate::how::How;
use kit::Fmt;
use kit::simcore::Fault;
use kit::simcore::tok::Tok;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sched {
    /// one task, no scheduler
    Inline,
    /// switch with probability num/den at each scheduling point
    Seed { seed: u64, num: usize, den: usize },
    /// exactly these deviations from "keep running"
    List(Vec<(u32, u8)>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    pub sched: Sched,
    /// tasks can be preempted inside the code under test, about every so many basic-block edges: (seed, mean gap)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub edges: Option<(u64, u32)>,
    pub tasks: Vec<Vec<Op>>,
    /// simulated time covered, microseconds
    pub sim_us: u64,
    /// what the simulated network and disk did while this plan was made
    pub env: BTreeMap<String, u64>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Op {
    /// simulated time of arrival, microseconds
    pub t: u64,
    /// identity: used to attribute injected failures
    pub id: u64,
    pub sub: String,
    pub act: Act,
    /// what happened to the message on its way
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub via: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// deliver and compare with the reference model
    Judge(How),
    /// deliver the same logical payload in all these ways; all answers must coincide
    Agree { hows: Vec<How> },
    /// deliver with a failure at each of these steps (or byte positions), then retry over a healthy transport
    Cut { how: How, at: Vec<(u32, Fault)> },
    /// a record with bare and captured fields
    Record(Rec),
    /// the wrapper behaves like the plain result it wraps
    Laws { a: (bool, i8), b: (bool, i8) },
    /// values of several types stored on one simulated disk
    Disk(Vec<Step>),
    /// admit, render, parse, render …
    Relay { how: How, hops: Vec<Hop> },
    /// deliver; the outcome must be the one it has all alone
    Alone {
        how: How,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        inside: Option<(String, How)>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        show: Option<Show>,
    },
    /// deliver from a source that changes; the verdict must be about one view
    Shift(How),
    /// render the outcome of the delivery into failing sinks
    Sink { how: How, what: Sink, at: Vec<u32>, fault: Fault },
    /// deliver something hostile: an answer, in bounds
    Hostile(How),
    /// requests to a web service
    Web(Vec<Req>),
}
/// The outcome is rendered as well, into a sink that calls back and may fail.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Show {
    /// serialized (0 human-readable, 1 compact), printed (2), printed in the wrapper (3)
    pub what: u8,
    /// the sink fails at this step (or byte)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fail: Option<(u32, Fault)>,
    /// at this step of the sink another one is delivered and serialized
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub nest: Option<(u32, String, How)>,
}
impl Act {
    pub fn name(&self) -> &'static str {
        match self {
            Act::Judge(_) => "deliver",
            Act::Agree { .. } => "redeliver",
            Act::Cut { .. } => "cut",
            Act::Record(_) => "record",
            Act::Laws { .. } => "laws",
            Act::Disk(_) => "disk",
            Act::Relay { .. } => "relay",
            Act::Alone { .. } => "alone",
            Act::Shift(_) => "shift",
            Act::Sink { .. } => "sink",
            Act::Hostile(_) => "hostile",
            Act::Web(_) => "web",
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub id: u64,
    pub first: Tok,
    pub list: Vec<Tok>,
    pub opt: Option<Tok>,
    pub last: Tok,
    pub tail: String,
    /// order of the six fields on the wire (for formats with field names)
    pub order: Vec<u8>,
    /// a field the record does not know, before position n
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub extra: Option<(usize, Tok)>,
    /// None: the simulated format
    pub fmt: Option<Fmt>,
    pub human: bool,
    /// its fields are part of a larger record
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub flat: bool,
    pub chunk: usize,
    pub eintr: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fail: Option<(u32, Fault)>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    /// admit this delivery and append the value in this format
    Put { sub: String, how: How, fmt: Fmt },
    Sync,
    /// power loss: this many bytes of what was not synced survive; the last surviving sector may be garbage
    Crash { keep: usize, garble: Option<(usize, u8)> },
    /// a stored bit rots (position modulo the disk size)
    Flip { pos: usize, bit: u8 },
    /// a stored byte is replaced
    Byte { pos: usize, v: u8 },
    Read,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Hop {
    /// the n-th canonical text (modulo), delivered as a text
    Text { n: usize, how: TextIn },
    /// the serialized form
    Ser { human: bool, chunk: usize },
    Real { fmt: Fmt, chunk: usize },
    /// debug-stable copy (clone)
    Copy,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TextIn {
    Parse,
    ParseOwned,
    Form,
    Param,
    De,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Sink {
    Debug,
    WrapDebug,
    Display,
    Write(Fmt),
    Ser { human: bool },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Req {
    pub sub: String,
    pub route: Route,
    /// logical payload (text), or a JSON value for the JSON routes
    pub text: String,
    pub json: Option<String>,
    /// the field is left out
    #[serde(default)]
    pub absent: bool,
    /// the field is sent again with these texts (forms)
    #[serde(default)]
    pub more: Vec<String>,
    /// how the connection delivers it: (time, event)
    pub wire: Vec<(u64, Wire)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Route {
    Json,
    Cap,
    Form,
    Query,
    Path,
    Raw,
    RocketForm,
    RocketCap,
    RocketOpt,
    RocketMany,
    Opt,
}
impl Route {
    pub fn rocket(self) -> bool {
        matches!(self, Route::RocketForm | Route::RocketCap | Route::RocketOpt | Route::RocketMany)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Wire {
    /// the next n bytes of the body arrive
    Bytes(usize),
    /// everything that is left arrives
    Rest,
    /// the service polls without news
    Poll,
    /// the connection breaks
    Break,
    /// the body ends here, whatever was announced
    End,
    /// the service drops the request
    Abort,
}
