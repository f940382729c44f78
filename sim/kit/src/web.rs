//! A web service over one derived type, and the simulated connection a request arrives on.
use crate::{Err, Obs, Out, Sub, val};
use axum::extract::{FromRequest, Path};
use axum::http::{HeaderMap, Request, StatusCode};
use axum::response::{IntoResponse, Response};
use axum::routing::{get, post};
use serde::Deserialize;
use serde::de::DeserializeOwned;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use validators::prelude::*;

pub use axum::Router;

thread_local! {
    /// (request, what the handler was given): one entry per handler invocation
    pub static HANDLED: RefCell<Vec<(String, Obs)>> = const { RefCell::new(Vec::new()) };
}
#[derive(Deserialize)]
pub struct Body<T> {
    pub v: T,
    #[serde(default)]
    pub note: String,
}
#[derive(Deserialize)]
#[serde(bound(deserialize = "T: Deserialize<'de>"))]
pub struct Lax<T> {
    #[serde(default)]
    pub v: Option<T>,
    #[serde(default)]
    pub note: String,
}
/// The body decoders of the web framework need crates this sandbox lacks; these do the same on top of the
/// framework's own body reader: read everything, decode, 400 for a malformed document, 422 for refused content.
struct Json<T>(T);
struct Form<T>(T);
struct Query<T>(T);
fn refuse(syntax: bool, e: impl std::fmt::Display) -> Response {
    (if syntax { StatusCode::BAD_REQUEST } else { StatusCode::UNPROCESSABLE_ENTITY }, format!("{e}")).into_response()
}
impl<S: Send + Sync, T: DeserializeOwned> FromRequest<S> for Json<T> {
    type Rejection = Response;
    async fn from_request(req: Request<axum::body::Body>, state: &S) -> Result<Self, Response> {
        let b = bytes::Bytes::from_request(req, state).await.map_err(|e| e.into_response())?;
        serde_json::from_slice(&b).map(Json).map_err(|e| refuse(!e.is_data(), e))
    }
}
fn pairs<T: DeserializeOwned>(b: &[u8]) -> Result<T, Response> {
    let it: Vec<(String, String)> = validators::url::form_urlencoded::parse(b).into_owned().collect();
    T::deserialize(serde::de::value::MapDeserializer::<_, serde::de::value::Error>::new(it.into_iter())).map_err(|e| refuse(false, e))
}
impl<S: Send + Sync, T: DeserializeOwned> FromRequest<S> for Form<T> {
    type Rejection = Response;
    async fn from_request(req: Request<axum::body::Body>, state: &S) -> Result<Self, Response> {
        let b = bytes::Bytes::from_request(req, state).await.map_err(|e| e.into_response())?;
        pairs(&b).map(Form)
    }
}
impl<S: Send + Sync, T: DeserializeOwned> FromRequest<S> for Query<T> {
    type Rejection = Response;
    async fn from_request(req: Request<axum::body::Body>, _state: &S) -> Result<Self, Response> {
        pairs(req.uri().query().unwrap_or("").as_bytes()).map(Query)
    }
}
fn reach(h: &HeaderMap, o: Obs) -> String {
    let id = h.get("x-req").and_then(|v| v.to_str().ok()).unwrap_or("?").to_string();
    let t = format!("{o:?}");
    HANDLED.with(|x| x.borrow_mut().push((id, o)));
    t
}
async fn json<T: Sub + DeserializeOwned>(h: HeaderMap, Json(b): Json<Body<T>>) -> Response {
    reach(&h, val(b.v).obs()).into_response()
}
async fn form<T: Sub + DeserializeOwned>(h: HeaderMap, Form(b): Form<Body<T>>) -> Response {
    reach(&h, val(b.v).obs()).into_response()
}
async fn query<T: Sub + DeserializeOwned>(h: HeaderMap, Query(b): Query<Body<T>>) -> Response {
    reach(&h, val(b.v).obs()).into_response()
}
/// a field the request may leave out
async fn opt<T: Sub + DeserializeOwned>(h: HeaderMap, Json(b): Json<Lax<T>>) -> Response {
    reach(&h, b.v.map_or(Obs::Unit, |v| val(v).obs())).into_response()
}
async fn path<T: Sub + DeserializeOwned>(h: HeaderMap, Path(v): Path<T>) -> Response {
    reach(&h, val(v).obs()).into_response()
}
/// the service looks at the captured refusal and turns it into the answer
async fn cap<T: Sub, E: Err>(h: HeaderMap, Json(b): Json<Body<validators::Result<T, E>>>) -> Result<Response, E>
where
    validators::Result<T, E>: DeserializeOwned,
{
    match b.v.into_std_result() {
        Ok(v) => Ok(reach(&h, val(v).obs()).into_response()),
        Err(e) => Err(e),
    }
}
/// the service validates the text itself and answers with the reason by `?`
async fn raw<T: Sub + ValidateString<Error = E>, E: Err>(h: HeaderMap, body: String) -> Result<Response, E> {
    let v = T::parse_string(body)?;
    Ok(reach(&h, val(v).obs()).into_response())
}
/// the bytes a response carries; every body here is complete as soon as it exists
pub fn drain(r: Response) -> (u16, Vec<u8>) {
    let code = r.status().as_u16();
    let mut b = r.into_body();
    let mut out = vec![];
    let mut cx = Context::from_waker(std::task::Waker::noop());
    for _ in 0..1000 {
        match http_body::Body::poll_frame(Pin::new(&mut b), &mut cx) {
            Poll::Ready(Some(Ok(f))) => {
                if let Ok(d) = f.into_data() {
                    out.extend_from_slice(&d);
                }
            }
            _ => break,
        }
    }
    (code, out)
}
#[derive(Clone, Copy)]
pub struct Web {
    pub router: fn() -> Router,
    /// the same form with rocket's form decoder: (status, outcomes of `v`, `note`)
    pub form: fn(&str, Shape) -> (u16, Vec<Out>, String),
}
/// How the form declares the field.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Shape {
    Plain,
    Captured,
    Optional,
    Many,
}
#[derive(rocket::FromForm)]
struct Fields<T> {
    v: T,
    #[field(default = String::new())]
    note: String,
}
fn rocket_form<T, E>(body: &str, shape: Shape) -> (u16, Vec<Out>, String)
where
    T: Sub + ValidateString<Error = E> + for<'r> rocket::form::FromFormField<'r> + for<'r> rocket::request::FromParam<'r, Error = E>,
    E: Err,
{
    use rocket::form::Form;
    let raw = rocket::http::RawStr::new(body);
    let bad = |e: rocket::form::Errors<'_>| (e.status().code, vec![crate::form_err(e)], String::new());
    match shape {
        Shape::Captured => match Form::<Fields<validators::Result<T, E>>>::parse_encoded(raw) {
            Ok(f) => (200, vec![crate::wrap(f.v)], f.note),
            Err(e) => bad(e),
        },
        Shape::Plain => match Form::<Fields<T>>::parse_encoded(raw) {
            Ok(f) => (200, vec![val(f.v)], f.note),
            Err(e) => bad(e),
        },
        Shape::Optional => match Form::<Fields<Option<T>>>::parse_encoded(raw) {
            Ok(f) => (200, f.v.map(val).into_iter().collect(), f.note),
            Err(e) => bad(e),
        },
        Shape::Many => match Form::<Fields<Vec<T>>>::parse_encoded(raw) {
            Ok(f) => (200, f.v.into_iter().map(val).collect(), f.note),
            Err(e) => bad(e),
        },
    }
}
pub fn web<T, E>() -> Web
where
    T: Sub + DeserializeOwned + ValidateString<Error = E> + for<'r> rocket::form::FromFormField<'r> + for<'r> rocket::request::FromParam<'r, Error = E>,
    E: Err,
    validators::Result<T, E>: DeserializeOwned,
{
    fn router<T, E>() -> Router
    where
        T: Sub + DeserializeOwned + ValidateString<Error = E>,
        E: Err,
        validators::Result<T, E>: DeserializeOwned,
    {
        Router::new()
            .route("/json", post(json::<T>))
            .route("/cap", post(cap::<T, E>))
            .route("/opt", post(opt::<T>))
            .route("/form", post(form::<T>))
            .route("/query", get(query::<T>))
            .route("/path/{v}", get(path::<T>))
            .route("/raw", post(raw::<T, E>))
    }
    Web { router: router::<T, E>, form: rocket_form::<T, E> }
}
/// What a connection delivers.
#[derive(Clone, Debug)]
pub enum Piece {
    Data(Vec<u8>),
    Broken(u64),
    End,
}
#[derive(Default)]
pub struct Pipe {
    pub q: VecDeque<Piece>,
    pub read: usize,
    pub closed: bool,
}
pub struct SimBody(pub Arc<Mutex<Pipe>>);
impl http_body::Body for SimBody {
    type Data = bytes::Bytes;
    type Error = std::io::Error;
    fn poll_frame(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<Result<http_body::Frame<bytes::Bytes>, std::io::Error>>> {
        let mut p = self.0.lock().unwrap();
        if p.closed {
            return Poll::Ready(None);
        }
        match p.q.pop_front() {
            None => Poll::Pending,
            Some(Piece::Data(d)) => {
                p.read += 1;
                Poll::Ready(Some(Ok(http_body::Frame::data(bytes::Bytes::from(d)))))
            }
            Some(Piece::Broken(id)) => {
                p.closed = true;
                Poll::Ready(Some(Err(simcore::io::io_fault(simcore::Fault::Io, id))))
            }
            Some(Piece::End) => {
                p.closed = true;
                Poll::Ready(None)
            }
        }
    }
}
pub type Running = Pin<Box<dyn Future<Output = Response>>>;
pub fn start(router: &Router, method: &str, uri: &str, ctype: Option<&str>, id: &str, pipe: Arc<Mutex<Pipe>>) -> Option<Running> {
    let mut b = Request::builder().method(method).uri(uri).header("x-req", id);
    if let Some(c) = ctype {
        b = b.header("content-type", c);
    }
    let req = b.body(axum::body::Body::new(SimBody(pipe))).ok()?;
    let mut svc = router.clone();
    let f = tower_service::Service::call(&mut svc, req);
    Some(Box::pin(async move {
        match f.await {
            Ok(r) => r,
            Err(e) => match e {},
        }
    }))
}
pub fn poll(f: &mut Running) -> Option<Response> {
    let mut cx = Context::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(r) => Some(r),
        Poll::Pending => None,
    }
}
/// the values of one field of an urlencoded form
pub fn form_field(b: &[u8], name: &str) -> Vec<String> {
    validators::url::form_urlencoded::parse(b).filter(|(k, _)| k == name).map(|x| x.1.into_owned()).collect()
}
