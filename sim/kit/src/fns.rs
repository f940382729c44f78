//! The library's public functions and models, as subjects of their own: a text goes in, a verdict comes out.
use crate::{DynErr, DynVal, Fmt, Fun, Gate, Out, Spec, Src, Subject, View, host_view, view};
use simcore::de::{DeCtx, SimErr};
use simcore::ser::SerCtx;
use simcore::tok::Tok;
use std::fmt::{self, Display};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use validators::functions as f;
use validators::models::Host;

struct FnVal(View, Option<Host>);
impl DynVal for FnVal {
    fn view(&self) -> View {
        self.0.clone()
    }
    fn ser(&self, _: &SerCtx) -> Result<Tok, SimErr> {
        Err(SimErr::Type("not serializable".into()))
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![]
    }
    fn debug(&self, w: &mut dyn fmt::Write) -> fmt::Result {
        match &self.1 {
            Some(h) => write!(w, "{h:?}"),
            None => write!(w, "{}", self.0),
        }
    }
    fn wrap_debug(&self, w: &mut dyn fmt::Write) -> fmt::Result {
        self.debug(w)
    }
    fn display(&self, w: &mut dyn fmt::Write) -> Option<fmt::Result> {
        self.1.as_ref().map(|h| write!(w, "{h}"))
    }
    fn write(&self, _: Fmt, _: &mut dyn std::io::Write) -> Result<(), SimErr> {
        Err(SimErr::Type("not serializable".into()))
    }
    fn dup(&self) -> Box<dyn DynVal> {
        Box::new(FnVal(self.0.clone(), self.1.clone()))
    }
}
/// a refusal which is not one of the library's reasons
struct FnErr(String);
impl DynErr for FnErr {
    fn debug(&self, w: &mut dyn fmt::Write) -> fmt::Result {
        w.write_str(&self.0)
    }
    fn wrap_debug(&self, w: &mut dyn fmt::Write) -> fmt::Result {
        w.write_str(&self.0)
    }
    fn display(&self, w: &mut dyn fmt::Write) -> fmt::Result {
        w.write_str(&self.0)
    }
    fn respond(self: Box<Self>) -> axum::response::Response {
        axum::response::IntoResponse::into_response((axum::http::StatusCode::BAD_REQUEST, self.0))
    }
}
fn val(v: View, h: Option<Host>) -> Out {
    Out::Val(Box::new(FnVal(v, h)))
}
fn no(e: impl Display) -> Out {
    Out::Rej(Box::new(FnErr(format!("Address({e})"))))
}
/// the two ways a text reaches a function
macro_rules! call {
    ($g:expr, $s:expr, $f:path) => {
        match $g {
            Gate::ParseStr => $f($s),
            Gate::ParseString => $f(String::from($s)),
            _ => return Out::NA,
        }
    };
}
fn address<A: std::str::FromStr>(g: Gate, s: Src<'_>) -> Option<Result<A, A::Err>> {
    match g {
        Gate::ParseStr | Gate::ParseString => Some(String::from(s).parse()),
        _ => None,
    }
}
fn local_domain(g: Gate, s: Src<'_>) -> Out {
    let b: bool = call!(g, s, f::is_local_domain);
    val(view! {"is": b.to_string()}, None)
}
fn two_labels(g: Gate, s: Src<'_>) -> Out {
    let b: bool = call!(g, s, f::is_at_least_two_labels_domain);
    val(view! {"is": b.to_string()}, None)
}
fn ipv4_dot(g: Gate, s: Src<'_>) -> Out {
    match call!(g, s, f::parse_ipv4_allow_an_ended_dot) {
        Ok(a) => val(view! {"ip": a.to_string()}, Some(Host::from(a))),
        Err(e) => no(e),
    }
}
fn local4(g: Gate, s: Src<'_>) -> Out {
    match address::<Ipv4Addr>(g, s) {
        Some(Ok(a)) => {
            let h = Host::from(a);
            val(view! {"is": f::is_local_ipv4(a).to_string(), "host": host_view(&h)}, Some(h))
        }
        Some(Err(e)) => no(e),
        None => Out::NA,
    }
}
fn local6(g: Gate, s: Src<'_>) -> Out {
    match address::<Ipv6Addr>(g, s) {
        Some(Ok(a)) => {
            let h = Host::from(a);
            val(view! {"is": f::is_local_ipv6(a).to_string(), "host": host_view(&h)}, Some(h))
        }
        Some(Err(e)) => no(e),
        None => Out::NA,
    }
}
fn local_ip(g: Gate, s: Src<'_>) -> Out {
    match address::<IpAddr>(g, s) {
        Some(Ok(a)) => {
            let h = match a {
                IpAddr::V4(a) => Host::from(a),
                IpAddr::V6(a) => Host::from(a),
            };
            val(view! {"is": f::is_local_ip(a).to_string(), "host": host_view(&h)}, Some(h))
        }
        Some(Err(e)) => no(e),
        None => Out::NA,
    }
}
fn no_de(_: &Tok, _: &DeCtx) -> Out {
    Out::NA
}
pub fn subjects(v: &mut Vec<Subject>) {
    let mut add = |name, fun, call: fn(Gate, Src<'_>) -> Out| {
        let mut s = Subject::new(name, Spec::Fun(fun), no_de, no_de);
        s.text = Some(call);
        v.push(s);
    };
    add("function/is_local_domain", Fun::LocalDomain, local_domain);
    add("function/is_at_least_two_labels_domain", Fun::TwoLabels, two_labels);
    add("function/parse_ipv4_allow_an_ended_dot", Fun::Ipv4Dot, ipv4_dot);
    add("function/is_local_ipv4", Fun::Local4, local4);
    add("function/is_local_ipv6", Fun::Local6, local6);
    add("function/is_local_ip", Fun::LocalIp, local_ip);
}
