//! C14: requests to a web service, arriving piece by piece.
use crate::acts::{Bad, Cx, outcome_class};
use crate::how::*;
use crate::plan::*;
use kit::simcore::tok::{StrMode, Tok};
use kit::simcore::{alloc, sched};
use kit::web::{HANDLED, Piece, Pipe, Router, Running, Shape, drain, form_field, poll, start};
use kit::{Gate, Obs, Out, Subject};
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

fn bad<T>(class: &str, msg: String) -> Result<T, Bad> {
    Err(Bad { class: class.into(), msg })
}
fn percent(t: &str, path: bool) -> String {
    let mut o = String::new();
    for b in t.bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'~' => o.push(b as char),
            b'.' if !path => o.push('.'),
            b' ' if !path => o.push('+'),
            b => o.push_str(&format!("%{b:02X}")),
        }
    }
    o
}
struct Live<'a> {
    req: &'a Req,
    s: &'a Subject,
    id: String,
    body: Vec<u8>,
    uri: String,
    sent: usize,
    pipe: Arc<Mutex<Pipe>>,
    fut: Option<Running>,
    started: bool,
    /// the body was ended by the sender
    ended: bool,
    broken: bool,
    aborted: bool,
    answer: Option<(u16, Vec<u8>)>,
    form: Option<(u16, Vec<Out>, String)>,
}
fn document(req: &Req, id: &str) -> (String, Vec<u8>) {
    let v = || req.json.clone().unwrap_or_else(|| serde_json::Value::String(req.text.clone()).to_string());
    let pairs = || {
        let mut p: Vec<String> = vec![];
        if !req.absent {
            p.push(format!("v={}", percent(&req.text, false)));
        }
        // the field's place in the form is the request's business
        p.insert(if req.text.len() % 2 == 0 { p.len() } else { 0 }, format!("note={id}"));
        p.extend(req.more.iter().map(|t| format!("v={}", percent(t, false))));
        p.join("&")
    };
    if req.absent && matches!(req.route, Route::Json | Route::Cap | Route::Opt) {
        let uri = match req.route {
            Route::Json => "/json",
            Route::Cap => "/cap",
            _ => "/opt",
        };
        return (uri.into(), format!("{{\"note\":\"{id}\"}}").into_bytes());
    }
    match req.route {
        Route::Json => ("/json".into(), format!("{{\"note\":\"{id}\",\"v\":{}}}", v()).into_bytes()),
        Route::Opt => ("/opt".into(), format!("{{\"note\":\"{id}\",\"v\":{}}}", v()).into_bytes()),
        Route::Cap => ("/cap".into(), format!("{{\"v\":{},\"note\":\"{id}\"}}", v()).into_bytes()),
        Route::Form => ("/form".into(), pairs().into_bytes()),
        Route::Query => (format!("/query?{}", pairs()), vec![]),
        Route::Path => (format!("/path/{}", percent(&req.text, true)), vec![]),
        Route::Raw => ("/raw".into(), req.text.clone().into_bytes()),
        Route::RocketForm | Route::RocketCap | Route::RocketOpt | Route::RocketMany => (String::new(), pairs().into_bytes()),
    }
}
/// What this request's payload, as far as it arrived, is worth on its own.
enum Want {
    Handler(Obs),
    /// the values of a field that may come any number of times
    Several(Vec<Obs>),
    /// a client error; with this text, if known, and this status, if known
    Refused(Option<u16>, Option<String>),
}
/// The text of a member of a JSON object, as it is written there.
fn member(doc: &[u8], key: &str) -> Option<Vec<u8>> {
    let blank = |i: usize| i + doc[i..].iter().take_while(|b| b" \t\r\n".contains(b)).count();
    let item = |i: usize| {
        let mut s = serde_json::Deserializer::from_slice(&doc[i..]).into_iter::<serde::de::IgnoredAny>();
        s.next().and_then(Result::ok)?;
        Some(i + s.byte_offset())
    };
    let mut i = blank(0) + 1;
    let mut found = None;
    loop {
        i = blank(i);
        let e = item(i)?;
        let k: String = serde_json::from_slice(&doc[i..e]).ok()?;
        i = blank(blank(e) + 1);
        let e = item(i)?;
        if k == key {
            found = Some(doc[i..e].to_vec());
        }
        i = blank(e) + 1;
        if doc.get(i - 1) != Some(&b',') {
            return found;
        }
    }
}
fn want(cx: &Cx<'_>, l: &Live<'_>, arrived: &[u8]) -> Want {
    let one = |h: How| deliver(l.s, &h, cx.id, false).obs;
    let de = |t: Tok, cap: bool| one(How::De { cap, human: true, tok: t, chunk: WHOLE, fail: None });
    let text = |t: String| de(Tok::Str(t, StrMode::Owned), false);
    let plain = |o: Obs| match o {
        Obs::Val(v) => Want::Handler(Obs::Val(v)),
        _ => Want::Refused(None, None),
    };
    match l.req.route {
        Route::Json | Route::Cap | Route::Opt => {
            let Ok(serde_json::Value::Object(m)) = serde_json::from_slice::<serde_json::Value>(arrived) else { return Want::Refused(None, None) };
            match m.get("v") {
                None | Some(serde_json::Value::Null) if l.req.route == Route::Opt => return Want::Handler(Obs::Unit),
                None => return Want::Refused(None, None),
                _ => (),
            }
            let v = member(arrived, "v").unwrap_or_default();
            let cap = l.req.route == Route::Cap;
            let o = one(How::Real { fmt: kit::Fmt::JsonSlice, cap, data: Data::Raw(v), chunk: WHOLE, eintr: 0, fail: None });
            match o {
                Obs::Rej(_, d) if cap => Want::Refused(Some(400), Some(d)),
                o => plain(o),
            }
        }
        Route::Form | Route::Query => {
            let q: &[u8] = if l.req.route == Route::Form { arrived } else { l.uri.split_once('?').map_or("", |x| x.1).as_bytes() };
            match form_field(q, "v").as_slice() {
                [t] => plain(text(t.clone())),
                // left out, or sent twice
                _ => Want::Refused(None, None),
            }
        }
        Route::Path => {
            if l.req.text.is_empty() {
                return Want::Refused(Some(404), None);
            }
            plain(text(l.req.text.clone()))
        }
        Route::Raw => match String::from_utf8(arrived.to_vec()) {
            Ok(t) => match one(How::Text { gate: Gate::ParseStr, views: vec![t], panic_at: None }) {
                Obs::Rej(_, d) => Want::Refused(Some(400), Some(d)),
                o => plain(o),
            },
            Err(_) => Want::Refused(None, None),
        },
        Route::RocketForm | Route::RocketCap | Route::RocketOpt | Route::RocketMany => {
            let all: Vec<Obs> = form_field(arrived, "v").into_iter().map(|t| one(How::Text { gate: Gate::ParseStr, views: vec![t], panic_at: None })).collect();
            let admitted = |o: &Obs| matches!(o, Obs::Val(_));
            let reason = |o: &Obs| match o {
                Obs::Rej(_, d) => Some(d.clone()),
                _ => None,
            };
            match l.req.route {
                // what is left out, refused or sent twice is no value
                Route::RocketOpt => Want::Several(if all.len() == 1 && admitted(&all[0]) { all } else { vec![] }),
                Route::RocketMany => {
                    let refused: Vec<&Obs> = all.iter().filter(|o| !admitted(o)).collect();
                    match refused.as_slice() {
                        [] => Want::Several(all),
                        o => Want::Refused(None, o.iter().map(|o| reason(o)).collect::<Option<Vec<String>>>().map(|v| v.join(" | "))),
                    }
                }
                // the first one counts
                r => match all.into_iter().next() {
                    None => Want::Refused(None, None),
                    Some(o) if admitted(&o) || r == Route::RocketCap => Want::Several(vec![o]),
                    Some(o) => Want::Refused(None, reason(&o)),
                },
            }
        }
    }
}
fn go<R>(cx: &Cx<'_>, f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(|| alloc::with_yields(cx.yields, f))).map_err(panic_text)
}
pub fn serve(cx: &Cx<'_>, reqs: &[Req], log: &mut String) -> Result<(), Bad> {
    let mut routers: HashMap<&str, Router> = HashMap::new();
    let mut live: Vec<Live<'_>> = vec![];
    for (i, req) in reqs.iter().enumerate() {
        let Some(s) = cx.ix.get(&req.sub) else { continue };
        let Some(w) = s.web else { continue };
        if !req.route.rocket() {
            routers.entry(s.name).or_insert_with(w.router);
        }
        let id = format!("r{}x{i}", cx.id);
        let (uri, body) = document(req, &id);
        live.push(Live { req, s, id, body, uri, sent: 0, pipe: Arc::default(), fut: None, started: false, ended: false, broken: false, aborted: false, answer: None, form: None });
    }
    HANDLED.with(|h| h.borrow_mut().clear());
    let mut events: Vec<(u64, usize, usize)> = vec![];
    for (i, l) in live.iter().enumerate() {
        events.extend(l.req.wire.iter().enumerate().map(|(j, (t, _))| (*t, i, j)));
    }
    events.sort();
    let mut polls = 0u64;
    for (_, i, j) in events {
        let l = &mut live[i];
        let ev = l.req.wire[j].1;
        sched::point("wire");
        if l.ended && !matches!(ev, Wire::Poll | Wire::Abort) || l.broken || l.aborted {
            continue;
        }
        if !l.started && !matches!(ev, Wire::Abort) {
            l.started = true;
            if !l.req.route.rocket() {
                let (m, c) = match l.req.route {
                    Route::Query | Route::Path => ("GET", None),
                    Route::Form => ("POST", Some("application/x-www-form-urlencoded")),
                    Route::Raw => ("POST", Some("text/plain; charset=utf-8")),
                    _ => ("POST", Some("application/json")),
                };
                let f = go(cx, || start(&routers[l.s.name], m, &l.uri, c, &l.id, l.pipe.clone()));
                match f {
                    Ok(Some(f)) => l.fut = Some(f),
                    // the request line itself is not valid: never sent
                    Ok(None) => {
                        l.aborted = true;
                        continue;
                    }
                    Err(p) => return bad("no answer", format!("{} {:?} {:?}: the service panicked: {p}", l.s.name, l.req.route, l.req.text)),
                }
            }
        }
        let push = |l: &mut Live<'_>, n: usize| {
            let n = n.min(l.body.len() - l.sent);
            if n > 0 {
                l.pipe.lock().unwrap().q.push_back(Piece::Data(l.body[l.sent..l.sent + n].to_vec()));
                l.sent += n;
            }
        };
        match ev {
            Wire::Bytes(n) => push(l, n),
            Wire::Rest => {
                push(l, usize::MAX);
                l.pipe.lock().unwrap().q.push_back(Piece::End);
                l.ended = true;
            }
            Wire::End => {
                if l.sent < l.body.len() {
                    cx.st.n("fault:truncated request", 1);
                }
                l.pipe.lock().unwrap().q.push_back(Piece::End);
                l.ended = true;
            }
            Wire::Break => {
                l.pipe.lock().unwrap().q.push_back(Piece::Broken(cx.id));
                l.broken = true;
                cx.st.n("fault:connection broken", 1);
            }
            Wire::Abort => {
                if l.answer.is_none() {
                    l.fut = None;
                    l.aborted = true;
                    cx.st.n("fault:request aborted", 1);
                }
                continue;
            }
            Wire::Poll => cx.st.n("web:poll without news", 1),
        }
        if l.req.route.rocket() {
            if l.ended && l.form.is_none() {
                let body = String::from_utf8_lossy(&l.body[..l.sent]).into_owned();
                let f = l.s.web.unwrap().form;
                let shape = match l.req.route {
                    Route::RocketCap => Shape::Captured,
                    Route::RocketOpt => Shape::Optional,
                    Route::RocketMany => Shape::Many,
                    _ => Shape::Plain,
                };
                match go(cx, || f(&body, shape)) {
                    Ok(o) => l.form = Some(o),
                    Err(p) => return bad("no answer", format!("{} {:?} {body:?}: the form decoder panicked: {p}", l.s.name, l.req.route)),
                }
            }
            continue;
        }
        if let Some(f) = &mut l.fut {
            polls += 1;
            match go(cx, || poll(f).map(drain)) {
                Ok(Some(a)) => {
                    l.answer = Some(a);
                    l.fut = None;
                }
                Ok(None) => (),
                Err(p) => return bad("no answer", format!("{} {:?} {:?}: the service panicked: {p}", l.s.name, l.req.route, l.req.text)),
            }
        }
    }
    cx.st.n("web:polls", polls);
    let handled = HANDLED.with(|h| std::mem::take(&mut *h.borrow_mut()));
    for l in &live {
        let arrived = &l.body[..l.sent];
        let reached: Vec<&Obs> = handled.iter().filter(|(i, _)| *i == l.id).map(|x| &x.1).collect();
        let got = match (&l.answer, &l.form) {
            (Some((c, b)), _) => format!("{c} {:?}", String::from_utf8_lossy(b)),
            (_, Some((c, o, _))) => format!("{c} {:?}", o.iter().map(Out::obs).collect::<Vec<_>>()),
            _ => "no answer yet".into(),
        };
        let story = || format!("{} {:?} {} body {:?}: {got}; handler reached with {reached:?}", l.s.name, l.req.route, l.uri, String::from_utf8_lossy(arrived));
        alloc::quiet(|| log.push_str(&format!("; {}", story())));
        cx.st.n("web:requests", 1);
        cx.st.n("deliveries", 1);
        if reached.len() > 1 {
            return bad("a request was handled twice", story());
        }
        let bodyless = matches!(l.req.route, Route::Query | Route::Path);
        let complete = l.started && (l.ended || bodyless);
        if !complete {
            // cut off: nothing may have been admitted on its behalf
            cx.st.n("web:cut off", 1);
            if !reached.is_empty() {
                return bad("a request that never arrived was admitted", story());
            }
            if l.answer.as_ref().is_some_and(|(c, _)| *c < 400) {
                return bad("a request that never arrived was admitted", story());
            }
            continue;
        }
        if l.aborted && l.answer.is_none() && l.form.is_none() {
            // dropped after everything had been delivered, before the service was polled
            continue;
        }
        let w = want(cx, l, arrived);
        if let Some((code, out, note)) = &l.form {
            let o: Vec<Obs> = out.iter().map(Out::obs).collect();
            cx.st.state(&format!("web|{}|{:?}|{}|{}", l.s.name, l.req.route, o.len().min(2), o.first().map_or("none".into(), |o| outcome_class(o))));
            match w {
                Want::Handler(_) => unreachable!("a form has values"),
                Want::Several(x) => {
                    if o != x || *code != 200 {
                        return bad("an admitted request did not reach the handler as its value", format!("{}; alone: {x:?}", story()));
                    }
                    // what follows or precedes the field is untouched
                    let n = form_field(arrived, "note").into_iter().next().unwrap_or_default();
                    if *note != n {
                        return bad("another field of the request was disturbed", format!("{}; note {note:?} for {n:?}", story()));
                    }
                }
                Want::Refused(_, d) => {
                    if !matches!(o.as_slice(), [Obs::Custom(_)]) || !(400..500).contains(code) {
                        return bad("a refused request was not answered with a client error", story());
                    }
                    if let (Some(d), [Obs::Custom(t)]) = (d, o.as_slice()) {
                        if *t != d {
                            return bad("the answer does not carry the reason", format!("{}; reason {d:?}", story()));
                        }
                    }
                }
            }
            continue;
        }
        let Some((code, text)) = &l.answer else {
            return bad("a request was never answered", story());
        };
        cx.st.state(&format!("web|{}|{:?}|{code}|{}", l.s.name, l.req.route, reached.first().map_or("none".into(), |o| outcome_class(o))));
        match w {
            Want::Several(_) => unreachable!("a body has one value"),
            Want::Handler(x) => {
                if *code != 200 || reached.first() != Some(&&x) || *text != format!("{x:?}").into_bytes() {
                    return bad("an admitted request did not reach the handler as its value", format!("{}; alone: {x:?}", story()));
                }
            }
            Want::Refused(c, d) => {
                if !reached.is_empty() {
                    return bad("a refused request reached the handler", story());
                }
                if !(400..500).contains(code) || c.is_some_and(|c| c != *code) {
                    return bad("a refused request was not answered with a client error", story());
                }
                if d.as_ref().is_some_and(|d| d.as_bytes() != text.as_slice()) {
                    return bad("the answer does not carry the reason", format!("{}; reason {d:?}", story()));
                }
            }
        }
    }
    // requests that were still waiting are dropped here
    match go(cx, move || drop(live)) {
        Ok(()) => Ok(()),
        Err(p) => bad("no answer", format!("dropping unfinished requests panicked: {p}")),
    }
}
