//! What a type declares, in the harness's own terms.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tri {
    A,
    M,
    D,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Case {
    Any,
    Upper,
    Lower,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sep {
    Allow(u8),
    Must(u8),
    Disallow,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rng<T> {
    Any,
    In { min: Option<T>, max: Option<T>, incl: bool },
    Out { min: Option<T>, max: Option<T>, incl: bool },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Unit {
    Chars,
    Bytes,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Alpha {
    B32,
    B64,
    B64Url,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Coll {
    Vec,
    Btmap,
    Btset,
    Heap,
    Hmap,
    Hset,
    Jmap,
    Own,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum JsonTy {
    String,
    Bool,
    U8,
    I64,
    F64,
    Vec,
    Map,
    Rec,
    Enum,
}
/// a document type a user would validate with `json`
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Doc {
    pub id: u16,
    pub name: String,
    #[serde(default)]
    pub tags: Vec<String>,
    pub ratio: Option<f64>,
    pub child: Option<Box<Doc>>,
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Shape {
    Dot,
    Line(i32, i32),
    Box { w: u8, h: u8 },
    Named(String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fun {
    LocalDomain,
    TwoLabels,
    Ipv4Dot,
    Local4,
    Local6,
    LocalIp,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    Text { line: bool, unit: Unit, min: Option<usize>, tmin: Option<usize>, max: Option<usize> },
    Regex { pat: &'static str },
    Length { min: Option<usize>, max: Option<usize>, coll: Coll },
    Base { alpha: Alpha, decoded: bool, pad: Tri },
    UInt { bits: u32, r: Rng<u128> },
    SInt { bits: u32, r: Rng<i128> },
    Num { f32_: bool, r: Rng<f64>, nan: Tri },
    Bool,
    Bit { r: Rng<u128> },
    Byte { r: Rng<u128>, ignore_case: bool },
    Domain { ipv4: Tri, local: Tri, port: Tri, labels: Tri },
    Host { local: Tri, port: Tri, labels: Tri },
    Ip { v: u8, local: Tri, port: Tri },
    Mac { case: Case, sep: Sep },
    Uuid { case: Case, sep: Sep },
    Email { comment: bool, ip: Tri, local: Tri, labels: Tri, non_ascii: bool },
    HttpUrl { ftp: bool, local: Tri },
    Url,
    Phone { countries: &'static [&'static str] },
    Semver,
    SemverReq,
    Json,
    JsonT { ty: JsonTy },
    /// a public function, not a type
    Fun(Fun),
}
impl Spec {
    pub fn kind(&self) -> &'static str {
        match self {
            Spec::Text { line: true, .. } => "line",
            Spec::Text { .. } => "text",
            Spec::Regex { .. } => "regex",
            Spec::Length { .. } => "length",
            Spec::Base { alpha, decoded, .. } => match (alpha, decoded) {
                (Alpha::B32, false) => "base32",
                (Alpha::B32, true) => "base32_decoded",
                (Alpha::B64, false) => "base64",
                (Alpha::B64, true) => "base64_decoded",
                (Alpha::B64Url, false) => "base64_url",
                (Alpha::B64Url, true) => "base64_url_decoded",
            },
            Spec::UInt { .. } => "unsigned_integer",
            Spec::SInt { .. } => "signed_integer",
            Spec::Num { .. } => "number",
            Spec::Bool => "boolean",
            Spec::Bit { .. } => "bit",
            Spec::Byte { .. } => "byte",
            Spec::Domain { .. } => "domain",
            Spec::Host { .. } => "host",
            Spec::Ip { v: 0, .. } => "ip",
            Spec::Ip { v: 4, .. } => "ipv4",
            Spec::Ip { .. } => "ipv6",
            Spec::Mac { .. } => "mac_address",
            Spec::Uuid { .. } => "uuid",
            Spec::Email { .. } => "email",
            Spec::HttpUrl { ftp: false, .. } => "http_url",
            Spec::HttpUrl { .. } => "http_ftp_url",
            Spec::Url => "url",
            Spec::Phone { .. } => "phone",
            Spec::Semver => "semver",
            Spec::SemverReq => "semver_req",
            Spec::Json | Spec::JsonT { .. } => "json",
            Spec::Fun(_) => "function",
        }
    }
}
/// What a value shows: ordered (name, text) pairs.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct View(pub Vec<(&'static str, String)>);
impl std::fmt::Display for View {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for (i, (k, v)) in self.0.iter().enumerate() {
            if i > 0 {
                f.write_str("; ")?;
            }
            write!(f, "{k}={v}")?;
        }
        Ok(())
    }
}
/// text shown exactly
pub fn q(s: &str) -> String {
    format!("{s:?}")
}
pub fn oq(s: Option<&str>) -> String {
    match s {
        Some(s) => q(s),
        None => "-".into(),
    }
}
pub fn op<T: std::fmt::Display>(s: Option<T>) -> String {
    match s {
        Some(s) => s.to_string(),
        None => "-".into(),
    }
}
#[macro_export]
macro_rules! view {
    ($($k:literal : $v:expr),* $(,)?) => { $crate::View(vec![$(($k, $v)),*]) };
}

pub fn fview(f: f64) -> View {
    View(vec![("f", if f.is_nan() { "NaN".into() } else { format!("{f:?}") })])
}
pub fn host_view(h: &validators::models::Host) -> String {
    use validators::models::Host;
    let shown = h.to_string();
    match h {
        // how it shows is part of what it is
        Host::Domain(s) if shown != *s => format!("shown:{shown:?}"),
        Host::IPv4(a) if shown != a.to_string() => format!("shown:{shown:?}"),
        Host::IPv6(a) if shown != a.to_string() => format!("shown:{shown:?}"),
        Host::Domain(s) => format!("domain:{s:?}"),
        Host::IPv4(a) => format!("ip:{a}"),
        Host::IPv6(a) => format!("ip:{a}"),
    }
}
pub fn phone_view(p: &validators::phonenumber::PhoneNumber) -> String {
    format!("{:?}/{:?}", p, p.country().id())
}
pub fn phones_view(it: impl Iterator<Item = (String, String)>) -> View {
    let mut v: Vec<_> = it.map(|(k, v)| format!("{k}=>{v}")).collect();
    v.sort();
    View(vec![("phones", v.join("; "))])
}
pub trait CollView {
    fn coll_view(&self) -> View;
}
fn cv(mut v: Vec<String>, sort: bool) -> View {
    if sort {
        v.sort();
    }
    View(vec![("items", v.join(","))])
}
impl CollView for Vec<u32> {
    fn coll_view(&self) -> View {
        cv(self.iter().map(|x| x.to_string()).collect(), false)
    }
}
impl CollView for std::collections::BTreeSet<u32> {
    fn coll_view(&self) -> View {
        cv(self.iter().map(|x| x.to_string()).collect(), true)
    }
}
impl CollView for std::collections::HashSet<u32> {
    fn coll_view(&self) -> View {
        cv(self.iter().map(|x| x.to_string()).collect(), true)
    }
}
impl CollView for std::collections::BinaryHeap<u32> {
    fn coll_view(&self) -> View {
        cv(self.iter().map(|x| x.to_string()).collect(), true)
    }
}
impl CollView for std::collections::BTreeMap<String, u32> {
    fn coll_view(&self) -> View {
        cv(self.iter().map(|(k, x)| format!("{k:?}:{x}")).collect(), true)
    }
}
impl CollView for std::collections::HashMap<String, u32> {
    fn coll_view(&self) -> View {
        cv(self.iter().map(|(k, x)| format!("{k:?}:{x}")).collect(), true)
    }
}
impl CollView for serde_json::Map<String, serde_json::Value> {
    fn coll_view(&self) -> View {
        cv(self.iter().map(|(k, x)| format!("{k:?}:{x}")).collect(), true)
    }
}
thread_local! {
    /// scripted lengths an `Own` collection reports, in order; the real one when exhausted
    pub static OWN_LENS: std::cell::RefCell<std::collections::VecDeque<usize>> = const { std::cell::RefCell::new(std::collections::VecDeque::new()) };
    pub static OWN_SHOWN: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };
}
pub fn own_len(real: usize) -> usize {
    simcore::sched::point("len");
    let n = OWN_LENS.with(|l| l.borrow_mut().pop_front()).unwrap_or(real);
    OWN_SHOWN.with(|l| l.borrow_mut().push(n));
    n
}
/// the collection view of `Own`: its elements (never its reported length)
pub fn own_view(v: &[u32]) -> View {
    cv(v.iter().map(|x| x.to_string()).collect(), false)
}
