// Generated by gen_types.py. Do not edit.
#![allow(unused_imports, dead_code, clippy::all)]
use kit::*;
use validators::{errors::*, prelude::*};

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T0 { pub domain: String, pub port: Option<u16> }
impl Sub for T0 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T1 { pub domain: String, pub port: Option<u16>, pub is_ipv4: bool, pub is_local: bool }
impl Sub for T1 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "ipv4": self.is_ipv4.to_string(), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T2 { pub domain: String, pub port: Option<u16>, pub is_ipv4: bool, pub is_local: bool }
impl Sub for T2 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "ipv4": self.is_ipv4.to_string(), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T3 { pub domain: String, pub port: u16 }
impl Sub for T3 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Must), conflict(Allow)))]
pub struct T4 { pub domain: String, pub port: u16, pub is_ipv4: bool, pub is_local: bool }
impl Sub for T4 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "ipv4": self.is_ipv4.to_string(), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T5 { pub domain: String, pub port: u16, pub is_ipv4: bool, pub is_local: bool }
impl Sub for T5 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "ipv4": self.is_ipv4.to_string(), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T6(pub String);
impl Sub for T6 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T7 { pub domain: String, pub is_ipv4: bool, pub is_local: bool }
impl Sub for T7 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "ipv4": self.is_ipv4.to_string(), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T8 { pub domain: String, pub is_ipv4: bool, pub is_local: bool }
impl Sub for T8 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "ipv4": self.is_ipv4.to_string(), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T9 { pub domain: String, pub port: Option<u16> }
impl Sub for T9 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T10 { pub domain: String, pub port: Option<u16> }
impl Sub for T10 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T11 { pub domain: String, pub port: Option<u16> }
impl Sub for T11 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T12 { pub domain: String, pub port: u16 }
impl Sub for T12 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Must), conflict(Allow)))]
pub struct T13 { pub domain: String, pub port: u16 }
impl Sub for T13 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T14 { pub domain: String, pub port: u16 }
impl Sub for T14 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T15(pub String);
impl Sub for T15 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T16(pub String);
impl Sub for T16 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T17(pub String);
impl Sub for T17 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T18 { pub domain: String, pub port: Option<u16> }
impl Sub for T18 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T19 { pub domain: String, pub port: Option<u16> }
impl Sub for T19 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T20 { pub domain: String, pub port: Option<u16> }
impl Sub for T20 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T21 { pub domain: String, pub port: u16 }
impl Sub for T21 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Must), conflict(Allow)))]
pub struct T22 { pub domain: String, pub port: u16 }
impl Sub for T22 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T23 { pub domain: String, pub port: u16 }
impl Sub for T23 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T24(pub String);
impl Sub for T24 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T25(pub String);
impl Sub for T25 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T26(pub String);
impl Sub for T26 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T27 { pub domain: String, pub port: Option<u16> }
impl Sub for T27 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T28 { pub domain: String, pub port: Option<u16>, pub is_local: bool }
impl Sub for T28 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T29 { pub domain: String, pub port: Option<u16>, pub is_local: bool }
impl Sub for T29 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T30 { pub domain: String, pub port: u16 }
impl Sub for T30 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Must), conflict(Allow)))]
pub struct T31 { pub domain: String, pub port: u16, pub is_local: bool }
impl Sub for T31 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T32 { pub domain: String, pub port: u16, pub is_local: bool }
impl Sub for T32 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T33(pub String);
impl Sub for T33 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T34 { pub domain: String, pub is_local: bool }
impl Sub for T34 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T35 { pub domain: String, pub is_local: bool }
impl Sub for T35 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T36 { pub domain: String, pub port: Option<u16> }
impl Sub for T36 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T37 { pub domain: String, pub port: Option<u16> }
impl Sub for T37 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T38 { pub domain: String, pub port: Option<u16> }
impl Sub for T38 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T39 { pub domain: String, pub port: u16 }
impl Sub for T39 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Must), conflict(Allow)))]
pub struct T40 { pub domain: String, pub port: u16 }
impl Sub for T40 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T41 { pub domain: String, pub port: u16 }
impl Sub for T41 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T42(pub String);
impl Sub for T42 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T43(pub String);
impl Sub for T43 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T44(pub String);
impl Sub for T44 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T45 { pub domain: String, pub port: Option<u16> }
impl Sub for T45 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T46 { pub domain: String, pub port: Option<u16> }
impl Sub for T46 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T47 { pub domain: String, pub port: Option<u16> }
impl Sub for T47 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T48 { pub domain: String, pub port: u16 }
impl Sub for T48 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Must), conflict(Allow)))]
pub struct T49 { pub domain: String, pub port: u16 }
impl Sub for T49 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T50 { pub domain: String, pub port: u16 }
impl Sub for T50 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T51(pub String);
impl Sub for T51 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T52(pub String);
impl Sub for T52 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T53(pub String);
impl Sub for T53 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T54 { pub domain: String, pub port: Option<u16> }
impl Sub for T54 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T55 { pub domain: String, pub port: Option<u16>, pub is_local: bool }
impl Sub for T55 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T56 { pub domain: String, pub port: Option<u16>, pub is_local: bool }
impl Sub for T56 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T57 { pub domain: String, pub port: u16 }
impl Sub for T57 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Must), conflict(Allow)))]
pub struct T58 { pub domain: String, pub port: u16, pub is_local: bool }
impl Sub for T58 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T59 { pub domain: String, pub port: u16, pub is_local: bool }
impl Sub for T59 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T60(pub String);
impl Sub for T60 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T61 { pub domain: String, pub is_local: bool }
impl Sub for T61 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T62 { pub domain: String, pub is_local: bool }
impl Sub for T62 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "local": self.is_local.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T63 { pub domain: String, pub port: Option<u16> }
impl Sub for T63 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T64 { pub domain: String, pub port: Option<u16> }
impl Sub for T64 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T65 { pub domain: String, pub port: Option<u16> }
impl Sub for T65 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T66 { pub domain: String, pub port: u16 }
impl Sub for T66 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Must), conflict(Allow)))]
pub struct T67 { pub domain: String, pub port: u16 }
impl Sub for T67 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T68 { pub domain: String, pub port: u16 }
impl Sub for T68 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T69(pub String);
impl Sub for T69 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T70(pub String);
impl Sub for T70 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T71(pub String);
impl Sub for T71 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T72 { pub domain: String, pub port: Option<u16> }
impl Sub for T72 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T73 { pub domain: String, pub port: Option<u16> }
impl Sub for T73 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T74 { pub domain: String, pub port: Option<u16> }
impl Sub for T74 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": op(self.port), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T75 { pub domain: String, pub port: u16 }
impl Sub for T75 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Must), conflict(Allow)))]
pub struct T76 { pub domain: String, pub port: u16 }
impl Sub for T76 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T77 { pub domain: String, pub port: u16 }
impl Sub for T77 {
    fn view(&self) -> View {
        view! {"domain": q(&self.domain), "port": self.port.to_string(), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Allow), conflict(Allow)))]
pub struct T78(pub String);
impl Sub for T78 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Must), conflict(Allow)))]
pub struct T79(pub String);
impl Sub for T79 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct T80(pub String);
impl Sub for T80 {
    fn view(&self) -> View {
        view! {"domain": q(&self.0), "fq": self.is_fully_qualified().to_string(), "nonfq": q(self.get_domain_non_fully_qualified())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}

pub fn subjects(v: &mut Vec<Subject>) {
    part0(v);
    part1(v);
    part2(v);
    part3(v);
    part4(v);
}
fn part0(v: &mut Vec<Subject>) {
    v.push(subject!("domain/iA-lA-pA-bA", T0, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::A, port: Tri::A, labels: Tri::A }, [text, rich, web]));
    v.push(subject!("domain/iA-lA-pA-bM", T1, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::A, port: Tri::A, labels: Tri::M }, [text]));
    v.push(subject!("domain/iA-lA-pA-bD", T2, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::A, port: Tri::A, labels: Tri::D }, [text]));
    v.push(subject!("domain/iA-lA-pM-bA", T3, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::A, port: Tri::M, labels: Tri::A }, [text]));
    v.push(subject!("domain/iA-lA-pM-bM", T4, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::A, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("domain/iA-lA-pM-bD", T5, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::A, port: Tri::M, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iA-lA-pD-bA", T6, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::A, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("domain/iA-lA-pD-bM", T7, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::A, port: Tri::D, labels: Tri::M }, [text]));
    v.push(subject!("domain/iA-lA-pD-bD", T8, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::A, port: Tri::D, labels: Tri::D }, [text]));
    v.push(subject!("domain/iA-lM-pA-bA", T9, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::M, port: Tri::A, labels: Tri::A }, [text]));
    v.push(subject!("domain/iA-lM-pA-bM", T10, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::M, port: Tri::A, labels: Tri::M }, [text]));
    v.push(subject!("domain/iA-lM-pA-bD", T11, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::M, port: Tri::A, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iA-lM-pM-bA", T12, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::M, port: Tri::M, labels: Tri::A }, [text]));
    v.push(subject!("domain/iA-lM-pM-bM", T13, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::M, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("domain/iA-lM-pM-bD", T14, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::M, port: Tri::M, labels: Tri::D }, [text]));
    v.push(subject!("domain/iA-lM-pD-bA", T15, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::M, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("domain/iA-lM-pD-bM", T16, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::M, port: Tri::D, labels: Tri::M }, [text]));
    v.push(subject!("domain/iA-lM-pD-bD", T17, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::M, port: Tri::D, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iA-lD-pA-bA", T18, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::D, port: Tri::A, labels: Tri::A }, [text]));
    v.push(subject!("domain/iA-lD-pA-bM", T19, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::D, port: Tri::A, labels: Tri::M }, [text]));
}
fn part1(v: &mut Vec<Subject>) {
    v.push(subject!("domain/iA-lD-pA-bD", T20, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::D, port: Tri::A, labels: Tri::D }, [text]));
    v.push(subject!("domain/iA-lD-pM-bA", T21, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::D, port: Tri::M, labels: Tri::A }, [text]));
    v.push(subject!("domain/iA-lD-pM-bM", T22, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::D, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("domain/iA-lD-pM-bD", T23, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::D, port: Tri::M, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iA-lD-pD-bA", T24, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::D, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("domain/iA-lD-pD-bM", T25, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::D, port: Tri::D, labels: Tri::M }, [text]));
    v.push(subject!("domain/iA-lD-pD-bD", T26, DomainError, Spec::Domain { ipv4: Tri::A, local: Tri::D, port: Tri::D, labels: Tri::D }, [text]));
    v.push(subject!("domain/iM-lA-pA-bA", T27, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::A, port: Tri::A, labels: Tri::A }, [text]));
    v.push(subject!("domain/iM-lA-pA-bM", T28, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::A, port: Tri::A, labels: Tri::M }, [text]));
    v.push(subject!("domain/iM-lA-pA-bD", T29, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::A, port: Tri::A, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iM-lA-pM-bA", T30, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::A, port: Tri::M, labels: Tri::A }, [text]));
    v.push(subject!("domain/iM-lA-pM-bM", T31, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::A, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("domain/iM-lA-pM-bD", T32, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::A, port: Tri::M, labels: Tri::D }, [text]));
    v.push(subject!("domain/iM-lA-pD-bA", T33, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::A, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("domain/iM-lA-pD-bM", T34, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::A, port: Tri::D, labels: Tri::M }, [text]));
    v.push(subject!("domain/iM-lA-pD-bD", T35, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::A, port: Tri::D, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iM-lM-pA-bA", T36, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::M, port: Tri::A, labels: Tri::A }, [text]));
    v.push(subject!("domain/iM-lM-pA-bM", T37, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::M, port: Tri::A, labels: Tri::M }, [text]));
    v.push(subject!("domain/iM-lM-pA-bD", T38, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::M, port: Tri::A, labels: Tri::D }, [text]));
    v.push(subject!("domain/iM-lM-pM-bA", T39, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::M, port: Tri::M, labels: Tri::A }, [text]));
}
fn part2(v: &mut Vec<Subject>) {
    v.push(subject!("domain/iM-lM-pM-bM", T40, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::M, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("domain/iM-lM-pM-bD", T41, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::M, port: Tri::M, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iM-lM-pD-bA", T42, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::M, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("domain/iM-lM-pD-bM", T43, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::M, port: Tri::D, labels: Tri::M }, [text]));
    v.push(subject!("domain/iM-lM-pD-bD", T44, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::M, port: Tri::D, labels: Tri::D }, [text]));
    v.push(subject!("domain/iM-lD-pA-bA", T45, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::D, port: Tri::A, labels: Tri::A }, [text]));
    v.push(subject!("domain/iM-lD-pA-bM", T46, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::D, port: Tri::A, labels: Tri::M }, [text]));
    v.push(subject!("domain/iM-lD-pA-bD", T47, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::D, port: Tri::A, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iM-lD-pM-bA", T48, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::D, port: Tri::M, labels: Tri::A }, [text]));
    v.push(subject!("domain/iM-lD-pM-bM", T49, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::D, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("domain/iM-lD-pM-bD", T50, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::D, port: Tri::M, labels: Tri::D }, [text]));
    v.push(subject!("domain/iM-lD-pD-bA", T51, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::D, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("domain/iM-lD-pD-bM", T52, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::D, port: Tri::D, labels: Tri::M }, [text]));
    v.push(subject!("domain/iM-lD-pD-bD", T53, DomainError, Spec::Domain { ipv4: Tri::M, local: Tri::D, port: Tri::D, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iD-lA-pA-bA", T54, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::A, port: Tri::A, labels: Tri::A }, [text]));
    v.push(subject!("domain/iD-lA-pA-bM", T55, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::A, port: Tri::A, labels: Tri::M }, [text]));
    v.push(subject!("domain/iD-lA-pA-bD", T56, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::A, port: Tri::A, labels: Tri::D }, [text]));
    v.push(subject!("domain/iD-lA-pM-bA", T57, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::A, port: Tri::M, labels: Tri::A }, [text]));
    v.push(subject!("domain/iD-lA-pM-bM", T58, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::A, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("domain/iD-lA-pM-bD", T59, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::A, port: Tri::M, labels: Tri::D }, [text, rich, web]));
}
fn part3(v: &mut Vec<Subject>) {
    v.push(subject!("domain/iD-lA-pD-bA", T60, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::A, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("domain/iD-lA-pD-bM", T61, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::A, port: Tri::D, labels: Tri::M }, [text]));
    v.push(subject!("domain/iD-lA-pD-bD", T62, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::A, port: Tri::D, labels: Tri::D }, [text]));
    v.push(subject!("domain/iD-lM-pA-bA", T63, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::M, port: Tri::A, labels: Tri::A }, [text]));
    v.push(subject!("domain/iD-lM-pA-bM", T64, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::M, port: Tri::A, labels: Tri::M }, [text]));
    v.push(subject!("domain/iD-lM-pA-bD", T65, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::M, port: Tri::A, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iD-lM-pM-bA", T66, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::M, port: Tri::M, labels: Tri::A }, [text]));
    v.push(subject!("domain/iD-lM-pM-bM", T67, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::M, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("domain/iD-lM-pM-bD", T68, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::M, port: Tri::M, labels: Tri::D }, [text]));
    v.push(subject!("domain/iD-lM-pD-bA", T69, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::M, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("domain/iD-lM-pD-bM", T70, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::M, port: Tri::D, labels: Tri::M }, [text]));
    v.push(subject!("domain/iD-lM-pD-bD", T71, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::M, port: Tri::D, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iD-lD-pA-bA", T72, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::D, port: Tri::A, labels: Tri::A }, [text]));
    v.push(subject!("domain/iD-lD-pA-bM", T73, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::D, port: Tri::A, labels: Tri::M }, [text]));
    v.push(subject!("domain/iD-lD-pA-bD", T74, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::D, port: Tri::A, labels: Tri::D }, [text]));
    v.push(subject!("domain/iD-lD-pM-bA", T75, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::D, port: Tri::M, labels: Tri::A }, [text]));
    v.push(subject!("domain/iD-lD-pM-bM", T76, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::D, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("domain/iD-lD-pM-bD", T77, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::D, port: Tri::M, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("domain/iD-lD-pD-bA", T78, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::D, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("domain/iD-lD-pD-bM", T79, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::D, port: Tri::D, labels: Tri::M }, [text]));
}
fn part4(v: &mut Vec<Subject>) {
    v.push(subject!("domain/iD-lD-pD-bD", T80, DomainError, Spec::Domain { ipv4: Tri::D, local: Tri::D, port: Tri::D, labels: Tri::D }, [text]));
}
