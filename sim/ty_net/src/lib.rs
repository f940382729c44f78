// Generated by gen_types.py. Do not edit.
#![allow(unused_imports, dead_code, clippy::all)]
use kit::*;
use validators::{errors::*, prelude::*};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use validators::models::Host;
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct T0 { pub host: Host, pub port: Option<u16> }
impl Sub for T0 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Must)))]
pub struct T1 { pub host: Host, pub port: Option<u16>, pub is_local: bool }
impl Sub for T1 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": op(self.port), "local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Disallow)))]
pub struct T2 { pub host: Host, pub port: Option<u16>, pub is_local: bool }
impl Sub for T2 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": op(self.port), "local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Must), at_least_two_labels(Allow)))]
pub struct T3 { pub host: Host, pub port: u16 }
impl Sub for T3 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Must), at_least_two_labels(Must)))]
pub struct T4 { pub host: Host, pub port: u16, pub is_local: bool }
impl Sub for T4 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": self.port.to_string(), "local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Must), at_least_two_labels(Disallow)))]
pub struct T5 { pub host: Host, pub port: u16, pub is_local: bool }
impl Sub for T5 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": self.port.to_string(), "local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Disallow), at_least_two_labels(Allow)))]
pub struct T6(pub Host);
impl Sub for T6 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.0)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Disallow), at_least_two_labels(Must)))]
pub struct T7 { pub host: Host, pub is_local: bool }
impl Sub for T7 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct T8 { pub host: Host, pub is_local: bool }
impl Sub for T8 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Allow), at_least_two_labels(Allow)))]
pub struct T9 { pub host: Host, pub port: Option<u16> }
impl Sub for T9 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Allow), at_least_two_labels(Must)))]
pub struct T10 { pub host: Host, pub port: Option<u16> }
impl Sub for T10 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Allow), at_least_two_labels(Disallow)))]
pub struct T11 { pub host: Host, pub port: Option<u16> }
impl Sub for T11 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Must), at_least_two_labels(Allow)))]
pub struct T12 { pub host: Host, pub port: u16 }
impl Sub for T12 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Must), at_least_two_labels(Must)))]
pub struct T13 { pub host: Host, pub port: u16 }
impl Sub for T13 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Must), at_least_two_labels(Disallow)))]
pub struct T14 { pub host: Host, pub port: u16 }
impl Sub for T14 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Disallow), at_least_two_labels(Allow)))]
pub struct T15(pub Host);
impl Sub for T15 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.0)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Disallow), at_least_two_labels(Must)))]
pub struct T16(pub Host);
impl Sub for T16 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.0)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Disallow), at_least_two_labels(Disallow)))]
pub struct T17(pub Host);
impl Sub for T17 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.0)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Allow), at_least_two_labels(Allow)))]
pub struct T18 { pub host: Host, pub port: Option<u16> }
impl Sub for T18 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Allow), at_least_two_labels(Must)))]
pub struct T19 { pub host: Host, pub port: Option<u16> }
impl Sub for T19 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Allow), at_least_two_labels(Disallow)))]
pub struct T20 { pub host: Host, pub port: Option<u16> }
impl Sub for T20 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Must), at_least_two_labels(Allow)))]
pub struct T21 { pub host: Host, pub port: u16 }
impl Sub for T21 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Must), at_least_two_labels(Must)))]
pub struct T22 { pub host: Host, pub port: u16 }
impl Sub for T22 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Must), at_least_two_labels(Disallow)))]
pub struct T23 { pub host: Host, pub port: u16 }
impl Sub for T23 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.host), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.host)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Disallow), at_least_two_labels(Allow)))]
pub struct T24(pub Host);
impl Sub for T24 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.0)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Disallow), at_least_two_labels(Must)))]
pub struct T25(pub Host);
impl Sub for T25 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.0)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct T26(pub Host);
impl Sub for T26 {
    fn view(&self) -> View {
        view! {"host": host_view(&self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.0)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Allow), port(Allow)))]
pub struct T27 { pub ip: IpAddr, pub port: Option<u16> }
impl Sub for T27 {
    fn view(&self) -> View {
        view! {"ip": self.ip.to_string(), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Allow), port(Must)))]
pub struct T28 { pub ip: IpAddr, pub port: u16 }
impl Sub for T28 {
    fn view(&self) -> View {
        view! {"ip": self.ip.to_string(), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Allow), port(Disallow)))]
pub struct T29(pub IpAddr);
impl Sub for T29 {
    fn view(&self) -> View {
        view! {"ip": self.0.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Must), port(Allow)))]
pub struct T30 { pub ip: IpAddr, pub port: Option<u16> }
impl Sub for T30 {
    fn view(&self) -> View {
        view! {"ip": self.ip.to_string(), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Must), port(Must)))]
pub struct T31 { pub ip: IpAddr, pub port: u16 }
impl Sub for T31 {
    fn view(&self) -> View {
        view! {"ip": self.ip.to_string(), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Must), port(Disallow)))]
pub struct T32(pub IpAddr);
impl Sub for T32 {
    fn view(&self) -> View {
        view! {"ip": self.0.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Disallow), port(Allow)))]
pub struct T33 { pub ip: IpAddr, pub port: Option<u16> }
impl Sub for T33 {
    fn view(&self) -> View {
        view! {"ip": self.ip.to_string(), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Disallow), port(Must)))]
pub struct T34 { pub ip: IpAddr, pub port: u16 }
impl Sub for T34 {
    fn view(&self) -> View {
        view! {"ip": self.ip.to_string(), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Disallow), port(Disallow)))]
pub struct T35(pub IpAddr);
impl Sub for T35 {
    fn view(&self) -> View {
        view! {"ip": self.0.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Allow), port(Allow)))]
pub struct T36 { pub ipv4: Ipv4Addr, pub port: Option<u16> }
impl Sub for T36 {
    fn view(&self) -> View {
        view! {"ip": self.ipv4.to_string(), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Allow), port(Must)))]
pub struct T37 { pub ipv4: Ipv4Addr, pub port: u16 }
impl Sub for T37 {
    fn view(&self) -> View {
        view! {"ip": self.ipv4.to_string(), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Allow), port(Disallow)))]
pub struct T38(pub Ipv4Addr);
impl Sub for T38 {
    fn view(&self) -> View {
        view! {"ip": self.0.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Must), port(Allow)))]
pub struct T39 { pub ipv4: Ipv4Addr, pub port: Option<u16> }
impl Sub for T39 {
    fn view(&self) -> View {
        view! {"ip": self.ipv4.to_string(), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Must), port(Must)))]
pub struct T40 { pub ipv4: Ipv4Addr, pub port: u16 }
impl Sub for T40 {
    fn view(&self) -> View {
        view! {"ip": self.ipv4.to_string(), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Must), port(Disallow)))]
pub struct T41(pub Ipv4Addr);
impl Sub for T41 {
    fn view(&self) -> View {
        view! {"ip": self.0.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Disallow), port(Allow)))]
pub struct T42 { pub ipv4: Ipv4Addr, pub port: Option<u16> }
impl Sub for T42 {
    fn view(&self) -> View {
        view! {"ip": self.ipv4.to_string(), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Disallow), port(Must)))]
pub struct T43 { pub ipv4: Ipv4Addr, pub port: u16 }
impl Sub for T43 {
    fn view(&self) -> View {
        view! {"ip": self.ipv4.to_string(), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Disallow), port(Disallow)))]
pub struct T44(pub Ipv4Addr);
impl Sub for T44 {
    fn view(&self) -> View {
        view! {"ip": self.0.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Allow), port(Allow)))]
pub struct T45 { pub ipv6: Ipv6Addr, pub port: Option<u16> }
impl Sub for T45 {
    fn view(&self) -> View {
        view! {"ip": self.ipv6.to_string(), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Allow), port(Must)))]
pub struct T46 { pub ipv6: Ipv6Addr, pub port: u16 }
impl Sub for T46 {
    fn view(&self) -> View {
        view! {"ip": self.ipv6.to_string(), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Allow), port(Disallow)))]
pub struct T47(pub Ipv6Addr);
impl Sub for T47 {
    fn view(&self) -> View {
        view! {"ip": self.0.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Must), port(Allow)))]
pub struct T48 { pub ipv6: Ipv6Addr, pub port: Option<u16> }
impl Sub for T48 {
    fn view(&self) -> View {
        view! {"ip": self.ipv6.to_string(), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Must), port(Must)))]
pub struct T49 { pub ipv6: Ipv6Addr, pub port: u16 }
impl Sub for T49 {
    fn view(&self) -> View {
        view! {"ip": self.ipv6.to_string(), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Must), port(Disallow)))]
pub struct T50(pub Ipv6Addr);
impl Sub for T50 {
    fn view(&self) -> View {
        view! {"ip": self.0.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Disallow), port(Allow)))]
pub struct T51 { pub ipv6: Ipv6Addr, pub port: Option<u16> }
impl Sub for T51 {
    fn view(&self) -> View {
        view! {"ip": self.ipv6.to_string(), "port": op(self.port)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Disallow), port(Must)))]
pub struct T52 { pub ipv6: Ipv6Addr, pub port: u16 }
impl Sub for T52 {
    fn view(&self) -> View {
        view! {"ip": self.ipv6.to_string(), "port": self.port.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Disallow), port(Disallow)))]
pub struct T53(pub Ipv6Addr);
impl Sub for T53 {
    fn view(&self) -> View {
        view! {"ip": self.0.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("uri", self.to_uri_authority_string().into_owned())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b':'))))]
pub struct T54(pub u64);
impl Sub for T54 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Must(b':'))))]
pub struct T55(pub u64);
impl Sub for T55 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Disallow)))]
pub struct T56(pub u64);
impl Sub for T56 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b'-'))))]
pub struct T57(pub u64);
impl Sub for T57 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Must(b'-'))))]
pub struct T58(pub u64);
impl Sub for T58 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b'.'))))]
pub struct T59(pub u64);
impl Sub for T59 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Must(b'_'))))]
pub struct T60(pub u64);
impl Sub for T60 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Allow(b':'))))]
pub struct T61(pub u64);
impl Sub for T61 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Must(b':'))))]
pub struct T62(pub u64);
impl Sub for T62 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Disallow)))]
pub struct T63(pub u64);
impl Sub for T63 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Allow(b'-'))))]
pub struct T64(pub u64);
impl Sub for T64 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Must(b'-'))))]
pub struct T65(pub u64);
impl Sub for T65 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Allow(b'.'))))]
pub struct T66(pub u64);
impl Sub for T66 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Must(b'_'))))]
pub struct T67(pub u64);
impl Sub for T67 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Allow(b':'))))]
pub struct T68(pub u64);
impl Sub for T68 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Must(b':'))))]
pub struct T69(pub u64);
impl Sub for T69 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Disallow)))]
pub struct T70(pub u64);
impl Sub for T70 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Allow(b'-'))))]
pub struct T71(pub u64);
impl Sub for T71 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Must(b'-'))))]
pub struct T72(pub u64);
impl Sub for T72 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Allow(b'.'))))]
pub struct T73(pub u64);
impl Sub for T73 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Must(b'_'))))]
pub struct T74(pub u64);
impl Sub for T74 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_mac_address_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Allow(b':'))))]
pub struct T75(pub u128);
impl Sub for T75 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Must(b':'))))]
pub struct T76(pub u128);
impl Sub for T76 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Disallow)))]
pub struct T77(pub u128);
impl Sub for T77 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'-'))))]
pub struct T78(pub u128);
impl Sub for T78 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Must(b'-'))))]
pub struct T79(pub u128);
impl Sub for T79 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'.'))))]
pub struct T80(pub u128);
impl Sub for T80 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Must(b'_'))))]
pub struct T81(pub u128);
impl Sub for T81 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Allow(b':'))))]
pub struct T82(pub u128);
impl Sub for T82 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Must(b':'))))]
pub struct T83(pub u128);
impl Sub for T83 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Disallow)))]
pub struct T84(pub u128);
impl Sub for T84 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Allow(b'-'))))]
pub struct T85(pub u128);
impl Sub for T85 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'-'))))]
pub struct T86(pub u128);
impl Sub for T86 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Allow(b'.'))))]
pub struct T87(pub u128);
impl Sub for T87 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'_'))))]
pub struct T88(pub u128);
impl Sub for T88 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b':'))))]
pub struct T89(pub u128);
impl Sub for T89 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Must(b':'))))]
pub struct T90(pub u128);
impl Sub for T90 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Disallow)))]
pub struct T91(pub u128);
impl Sub for T91 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'-'))))]
pub struct T92(pub u128);
impl Sub for T92 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Must(b'-'))))]
pub struct T93(pub u128);
impl Sub for T93 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'.'))))]
pub struct T94(pub u128);
impl Sub for T94 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Must(b'_'))))]
pub struct T95(pub u128);
impl Sub for T95 {
    fn view(&self) -> View {
        view! {"n": format!("{:x}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("text", self.to_uuid_string())]
    }
}

pub fn subjects(v: &mut Vec<Subject>) {
    part0(v);
    part1(v);
    part2(v);
    part3(v);
    part4(v);
}
fn part0(v: &mut Vec<Subject>) {
    v.push(subject!("host/lA-pA-bA", T0, HostError, Spec::Host { local: Tri::A, port: Tri::A, labels: Tri::A }, [text, rich, web]));
    v.push(subject!("host/lA-pA-bM", T1, HostError, Spec::Host { local: Tri::A, port: Tri::A, labels: Tri::M }, [text]));
    v.push(subject!("host/lA-pA-bD", T2, HostError, Spec::Host { local: Tri::A, port: Tri::A, labels: Tri::D }, [text]));
    v.push(subject!("host/lA-pM-bA", T3, HostError, Spec::Host { local: Tri::A, port: Tri::M, labels: Tri::A }, [text]));
    v.push(subject!("host/lA-pM-bM", T4, HostError, Spec::Host { local: Tri::A, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("host/lA-pM-bD", T5, HostError, Spec::Host { local: Tri::A, port: Tri::M, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("host/lA-pD-bA", T6, HostError, Spec::Host { local: Tri::A, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("host/lA-pD-bM", T7, HostError, Spec::Host { local: Tri::A, port: Tri::D, labels: Tri::M }, [text]));
    v.push(subject!("host/lA-pD-bD", T8, HostError, Spec::Host { local: Tri::A, port: Tri::D, labels: Tri::D }, [text]));
    v.push(subject!("host/lM-pA-bA", T9, HostError, Spec::Host { local: Tri::M, port: Tri::A, labels: Tri::A }, [text]));
    v.push(subject!("host/lM-pA-bM", T10, HostError, Spec::Host { local: Tri::M, port: Tri::A, labels: Tri::M }, [text]));
    v.push(subject!("host/lM-pA-bD", T11, HostError, Spec::Host { local: Tri::M, port: Tri::A, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("host/lM-pM-bA", T12, HostError, Spec::Host { local: Tri::M, port: Tri::M, labels: Tri::A }, [text]));
    v.push(subject!("host/lM-pM-bM", T13, HostError, Spec::Host { local: Tri::M, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("host/lM-pM-bD", T14, HostError, Spec::Host { local: Tri::M, port: Tri::M, labels: Tri::D }, [text]));
    v.push(subject!("host/lM-pD-bA", T15, HostError, Spec::Host { local: Tri::M, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("host/lM-pD-bM", T16, HostError, Spec::Host { local: Tri::M, port: Tri::D, labels: Tri::M }, [text]));
    v.push(subject!("host/lM-pD-bD", T17, HostError, Spec::Host { local: Tri::M, port: Tri::D, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("host/lD-pA-bA", T18, HostError, Spec::Host { local: Tri::D, port: Tri::A, labels: Tri::A }, [text]));
    v.push(subject!("host/lD-pA-bM", T19, HostError, Spec::Host { local: Tri::D, port: Tri::A, labels: Tri::M }, [text]));
}
fn part1(v: &mut Vec<Subject>) {
    v.push(subject!("host/lD-pA-bD", T20, HostError, Spec::Host { local: Tri::D, port: Tri::A, labels: Tri::D }, [text]));
    v.push(subject!("host/lD-pM-bA", T21, HostError, Spec::Host { local: Tri::D, port: Tri::M, labels: Tri::A }, [text]));
    v.push(subject!("host/lD-pM-bM", T22, HostError, Spec::Host { local: Tri::D, port: Tri::M, labels: Tri::M }, [text]));
    v.push(subject!("host/lD-pM-bD", T23, HostError, Spec::Host { local: Tri::D, port: Tri::M, labels: Tri::D }, [text, rich, web]));
    v.push(subject!("host/lD-pD-bA", T24, HostError, Spec::Host { local: Tri::D, port: Tri::D, labels: Tri::A }, [text]));
    v.push(subject!("host/lD-pD-bM", T25, HostError, Spec::Host { local: Tri::D, port: Tri::D, labels: Tri::M }, [text]));
    v.push(subject!("host/lD-pD-bD", T26, HostError, Spec::Host { local: Tri::D, port: Tri::D, labels: Tri::D }, [text]));
    v.push(subject!("ip/lA-pA", T27, IpError, Spec::Ip { v: 0, local: Tri::A, port: Tri::A }, [text, rich, web]));
    v.push(subject!("ip/lA-pM", T28, IpError, Spec::Ip { v: 0, local: Tri::A, port: Tri::M }, [text]));
    v.push(subject!("ip/lA-pD", T29, IpError, Spec::Ip { v: 0, local: Tri::A, port: Tri::D }, [text, rich, web]));
    v.push(subject!("ip/lM-pA", T30, IpError, Spec::Ip { v: 0, local: Tri::M, port: Tri::A }, [text]));
    v.push(subject!("ip/lM-pM", T31, IpError, Spec::Ip { v: 0, local: Tri::M, port: Tri::M }, [text]));
    v.push(subject!("ip/lM-pD", T32, IpError, Spec::Ip { v: 0, local: Tri::M, port: Tri::D }, [text]));
    v.push(subject!("ip/lD-pA", T33, IpError, Spec::Ip { v: 0, local: Tri::D, port: Tri::A }, [text]));
    v.push(subject!("ip/lD-pM", T34, IpError, Spec::Ip { v: 0, local: Tri::D, port: Tri::M }, [text]));
    v.push(subject!("ip/lD-pD", T35, IpError, Spec::Ip { v: 0, local: Tri::D, port: Tri::D }, [text, rich, web]));
    v.push(subject!("ipv4/lA-pA", T36, Ipv4Error, Spec::Ip { v: 4, local: Tri::A, port: Tri::A }, [text, rich]));
    v.push(subject!("ipv4/lA-pM", T37, Ipv4Error, Spec::Ip { v: 4, local: Tri::A, port: Tri::M }, [text]));
    v.push(subject!("ipv4/lA-pD", T38, Ipv4Error, Spec::Ip { v: 4, local: Tri::A, port: Tri::D }, [text]));
    v.push(subject!("ipv4/lM-pA", T39, Ipv4Error, Spec::Ip { v: 4, local: Tri::M, port: Tri::A }, [text]));
}
fn part2(v: &mut Vec<Subject>) {
    v.push(subject!("ipv4/lM-pM", T40, Ipv4Error, Spec::Ip { v: 4, local: Tri::M, port: Tri::M }, [text]));
    v.push(subject!("ipv4/lM-pD", T41, Ipv4Error, Spec::Ip { v: 4, local: Tri::M, port: Tri::D }, [text, rich]));
    v.push(subject!("ipv4/lD-pA", T42, Ipv4Error, Spec::Ip { v: 4, local: Tri::D, port: Tri::A }, [text]));
    v.push(subject!("ipv4/lD-pM", T43, Ipv4Error, Spec::Ip { v: 4, local: Tri::D, port: Tri::M }, [text]));
    v.push(subject!("ipv4/lD-pD", T44, Ipv4Error, Spec::Ip { v: 4, local: Tri::D, port: Tri::D }, [text]));
    v.push(subject!("ipv6/lA-pA", T45, Ipv6Error, Spec::Ip { v: 6, local: Tri::A, port: Tri::A }, [text, rich, web]));
    v.push(subject!("ipv6/lA-pM", T46, Ipv6Error, Spec::Ip { v: 6, local: Tri::A, port: Tri::M }, [text]));
    v.push(subject!("ipv6/lA-pD", T47, Ipv6Error, Spec::Ip { v: 6, local: Tri::A, port: Tri::D }, [text, rich, web]));
    v.push(subject!("ipv6/lM-pA", T48, Ipv6Error, Spec::Ip { v: 6, local: Tri::M, port: Tri::A }, [text]));
    v.push(subject!("ipv6/lM-pM", T49, Ipv6Error, Spec::Ip { v: 6, local: Tri::M, port: Tri::M }, [text]));
    v.push(subject!("ipv6/lM-pD", T50, Ipv6Error, Spec::Ip { v: 6, local: Tri::M, port: Tri::D }, [text]));
    v.push(subject!("ipv6/lD-pA", T51, Ipv6Error, Spec::Ip { v: 6, local: Tri::D, port: Tri::A }, [text]));
    v.push(subject!("ipv6/lD-pM", T52, Ipv6Error, Spec::Ip { v: 6, local: Tri::D, port: Tri::M }, [text]));
    v.push(subject!("ipv6/lD-pD", T53, Ipv6Error, Spec::Ip { v: 6, local: Tri::D, port: Tri::D }, [text, rich, web]));
    v.push(subject!("mac_address/Any-a:", T54, MacAddressError, Spec::Mac { case: Case::Any, sep: Sep::Allow(b':') }, [text]));
    v.push(subject!("mac_address/Any-m:", T55, MacAddressError, Spec::Mac { case: Case::Any, sep: Sep::Must(b':') }, [text]));
    v.push(subject!("mac_address/Any-d", T56, MacAddressError, Spec::Mac { case: Case::Any, sep: Sep::Disallow }, [text, rich, web]));
    v.push(subject!("mac_address/Any-a-", T57, MacAddressError, Spec::Mac { case: Case::Any, sep: Sep::Allow(b'-') }, [text]));
    v.push(subject!("mac_address/Any-m-", T58, MacAddressError, Spec::Mac { case: Case::Any, sep: Sep::Must(b'-') }, [text]));
    v.push(subject!("mac_address/Any-a.", T59, MacAddressError, Spec::Mac { case: Case::Any, sep: Sep::Allow(b'.') }, [text, rich, web]));
}
fn part3(v: &mut Vec<Subject>) {
    v.push(subject!("mac_address/Any-m_", T60, MacAddressError, Spec::Mac { case: Case::Any, sep: Sep::Must(b'_') }, [text]));
    v.push(subject!("mac_address/Upper-a:", T61, MacAddressError, Spec::Mac { case: Case::Upper, sep: Sep::Allow(b':') }, [text]));
    v.push(subject!("mac_address/Upper-m:", T62, MacAddressError, Spec::Mac { case: Case::Upper, sep: Sep::Must(b':') }, [text]));
    v.push(subject!("mac_address/Upper-d", T63, MacAddressError, Spec::Mac { case: Case::Upper, sep: Sep::Disallow }, [text]));
    v.push(subject!("mac_address/Upper-a-", T64, MacAddressError, Spec::Mac { case: Case::Upper, sep: Sep::Allow(b'-') }, [text]));
    v.push(subject!("mac_address/Upper-m-", T65, MacAddressError, Spec::Mac { case: Case::Upper, sep: Sep::Must(b'-') }, [text, rich, web]));
    v.push(subject!("mac_address/Upper-a.", T66, MacAddressError, Spec::Mac { case: Case::Upper, sep: Sep::Allow(b'.') }, [text]));
    v.push(subject!("mac_address/Upper-m_", T67, MacAddressError, Spec::Mac { case: Case::Upper, sep: Sep::Must(b'_') }, [text]));
    v.push(subject!("mac_address/Lower-a:", T68, MacAddressError, Spec::Mac { case: Case::Lower, sep: Sep::Allow(b':') }, [text]));
    v.push(subject!("mac_address/Lower-m:", T69, MacAddressError, Spec::Mac { case: Case::Lower, sep: Sep::Must(b':') }, [text]));
    v.push(subject!("mac_address/Lower-d", T70, MacAddressError, Spec::Mac { case: Case::Lower, sep: Sep::Disallow }, [text]));
    v.push(subject!("mac_address/Lower-a-", T71, MacAddressError, Spec::Mac { case: Case::Lower, sep: Sep::Allow(b'-') }, [text, rich, web]));
    v.push(subject!("mac_address/Lower-m-", T72, MacAddressError, Spec::Mac { case: Case::Lower, sep: Sep::Must(b'-') }, [text]));
    v.push(subject!("mac_address/Lower-a.", T73, MacAddressError, Spec::Mac { case: Case::Lower, sep: Sep::Allow(b'.') }, [text]));
    v.push(subject!("mac_address/Lower-m_", T74, MacAddressError, Spec::Mac { case: Case::Lower, sep: Sep::Must(b'_') }, [text]));
    v.push(subject!("uuid/Any-a:", T75, UuidError, Spec::Uuid { case: Case::Any, sep: Sep::Allow(b':') }, [text]));
    v.push(subject!("uuid/Any-m:", T76, UuidError, Spec::Uuid { case: Case::Any, sep: Sep::Must(b':') }, [text]));
    v.push(subject!("uuid/Any-d", T77, UuidError, Spec::Uuid { case: Case::Any, sep: Sep::Disallow }, [text, rich, web]));
    v.push(subject!("uuid/Any-a-", T78, UuidError, Spec::Uuid { case: Case::Any, sep: Sep::Allow(b'-') }, [text]));
    v.push(subject!("uuid/Any-m-", T79, UuidError, Spec::Uuid { case: Case::Any, sep: Sep::Must(b'-') }, [text]));
}
fn part4(v: &mut Vec<Subject>) {
    v.push(subject!("uuid/Any-a.", T80, UuidError, Spec::Uuid { case: Case::Any, sep: Sep::Allow(b'.') }, [text]));
    v.push(subject!("uuid/Any-m_", T81, UuidError, Spec::Uuid { case: Case::Any, sep: Sep::Must(b'_') }, [text]));
    v.push(subject!("uuid/Upper-a:", T82, UuidError, Spec::Uuid { case: Case::Upper, sep: Sep::Allow(b':') }, [text]));
    v.push(subject!("uuid/Upper-m:", T83, UuidError, Spec::Uuid { case: Case::Upper, sep: Sep::Must(b':') }, [text, rich, web]));
    v.push(subject!("uuid/Upper-d", T84, UuidError, Spec::Uuid { case: Case::Upper, sep: Sep::Disallow }, [text]));
    v.push(subject!("uuid/Upper-a-", T85, UuidError, Spec::Uuid { case: Case::Upper, sep: Sep::Allow(b'-') }, [text]));
    v.push(subject!("uuid/Upper-m-", T86, UuidError, Spec::Uuid { case: Case::Upper, sep: Sep::Must(b'-') }, [text]));
    v.push(subject!("uuid/Upper-a.", T87, UuidError, Spec::Uuid { case: Case::Upper, sep: Sep::Allow(b'.') }, [text]));
    v.push(subject!("uuid/Upper-m_", T88, UuidError, Spec::Uuid { case: Case::Upper, sep: Sep::Must(b'_') }, [text]));
    v.push(subject!("uuid/Lower-a:", T89, UuidError, Spec::Uuid { case: Case::Lower, sep: Sep::Allow(b':') }, [text, rich, web]));
    v.push(subject!("uuid/Lower-m:", T90, UuidError, Spec::Uuid { case: Case::Lower, sep: Sep::Must(b':') }, [text]));
    v.push(subject!("uuid/Lower-d", T91, UuidError, Spec::Uuid { case: Case::Lower, sep: Sep::Disallow }, [text]));
    v.push(subject!("uuid/Lower-a-", T92, UuidError, Spec::Uuid { case: Case::Lower, sep: Sep::Allow(b'-') }, [text]));
    v.push(subject!("uuid/Lower-m-", T93, UuidError, Spec::Uuid { case: Case::Lower, sep: Sep::Must(b'-') }, [text]));
    v.push(subject!("uuid/Lower-a.", T94, UuidError, Spec::Uuid { case: Case::Lower, sep: Sep::Allow(b'.') }, [text]));
    v.push(subject!("uuid/Lower-m_", T95, UuidError, Spec::Uuid { case: Case::Lower, sep: Sep::Must(b'_') }, [text, rich, web]));
}
