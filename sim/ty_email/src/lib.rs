// Generated by gen_types.py. Do not edit.
#![allow(unused_imports, dead_code, clippy::all)]
use kit::*;
use validators::{errors::*, prelude::*};
use std::net::IpAddr;
use validators::models::Host;
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T0 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T0 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T1 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T1 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T2 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T2 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T3 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T3 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T4 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T4 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T5 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T5 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T6 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T6 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T7 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T7 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T8 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T8 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T9 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T9 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T10 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T10 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T11 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T11 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T12 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T12 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T13 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T13 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T14 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T14 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T15 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T15 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T16 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T16 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T17 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T17 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T18 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T18 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T19 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T19 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T20 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T20 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T21 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T21 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T22 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T22 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T23 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T23 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T24 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T24 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T25 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T25 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T26 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T26 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T27 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T27 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T28 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T28 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T29 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T29 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T30 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T30 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T31 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T31 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T32 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T32 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T33 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T33 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T34 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T34 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T35 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T35 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T36 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T36 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T37 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T37 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T38 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T38 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T39 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T39 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T40 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T40 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T41 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Sub for T41 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref()), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T42 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T42 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T43 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T43 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T44 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T44 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T45 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T45 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T46 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T46 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T47 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T47 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T48 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T48 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T49 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T49 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T50 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T50 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T51 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T51 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T52 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T52 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T53 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Sub for T53 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "c_before_local": oq(self.comment_before_local_part.as_deref()), "c_after_local": oq(self.comment_after_local_part.as_deref()), "c_before_domain": oq(self.comment_before_domain_part.as_deref()), "c_after_domain": oq(self.comment_after_domain_part.as_deref())}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T54 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T54 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T55 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T55 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T56 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub is_local: bool }
impl Sub for T56 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T57 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub is_local: bool }
impl Sub for T57 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T58 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub is_local: bool }
impl Sub for T58 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T59 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub is_local: bool }
impl Sub for T59 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T60 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T60 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T61 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T61 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T62 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T62 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T63 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T63 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T64 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T64 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T65 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T65 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T66 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T66 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T67 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T67 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T68 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T68 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T69 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T69 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T70 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T70 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T71 { pub local_part: String, pub need_quoted: bool, pub domain_part: Host }
impl Sub for T71 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": host_view(&self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
    fn host(&self) -> Option<&Host> {
        Some(&self.domain_part)
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T72 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T72 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T73 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T73 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T74 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub is_local: bool }
impl Sub for T74 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T75 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub is_local: bool }
impl Sub for T75 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T76 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub is_local: bool }
impl Sub for T76 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T77 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr, pub is_local: bool }
impl Sub for T77 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T78 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T78 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T79 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T79 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T80 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T80 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T81 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T81 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T82 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T82 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T83 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T83 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T84 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T84 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T85 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T85 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T86 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T86 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T87 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T87 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T88 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T88 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T89 { pub local_part: String, pub need_quoted: bool, pub domain_part: IpAddr }
impl Sub for T89 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("ip:{}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T90 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T90 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T91 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T91 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T92 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
impl Sub for T92 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T93 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
impl Sub for T93 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T94 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
impl Sub for T94 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T95 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
impl Sub for T95 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part), "is_local": self.is_local.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T96 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T96 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T97 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T97 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T98 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T98 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T99 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T99 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T100 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T100 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T101 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T101 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow), conflict(Allow)))]
pub struct T102 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T102 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow), conflict(Allow)))]
pub struct T103 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T103 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow), conflict(Allow)))]
pub struct T104 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T104 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow), conflict(Allow)))]
pub struct T105 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T105 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct T106 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T106 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct T107 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Sub for T107 {
    fn view(&self) -> View {
        view! {"local": q(&self.local_part), "quoted": self.need_quoted.to_string(), "domain": format!("domain:{:?}", self.domain_part)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("email", self.to_email_string())]
    }
}

pub fn subjects(v: &mut Vec<Subject>) {
    part0(v);
    part1(v);
    part2(v);
    part3(v);
    part4(v);
    part5(v);
}
fn part0(v: &mut Vec<Subject>) {
    v.push(subject!("email/cA-iA-lA-bA-nA", T0, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::A, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iA-lA-bA-nD", T1, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::A, labels: Tri::A, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cA-iA-lA-bM-nA", T2, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::A, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iA-lA-bM-nD", T3, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::A, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iA-lA-bD-nA", T4, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::A, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iA-lA-bD-nD", T5, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::A, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cA-iA-lM-bA-nA", T6, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::M, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iA-lM-bA-nD", T7, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::M, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iA-lM-bM-nA", T8, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::M, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iA-lM-bM-nD", T9, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::M, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iA-lM-bD-nA", T10, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::M, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iA-lM-bD-nD", T11, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::M, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cA-iA-lD-bA-nA", T12, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::D, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iA-lD-bA-nD", T13, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::D, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iA-lD-bM-nA", T14, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::D, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iA-lD-bM-nD", T15, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::D, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iA-lD-bD-nA", T16, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::D, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iA-lD-bD-nD", T17, EmailError, Spec::Email { comment: true, ip: Tri::A, local: Tri::D, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cA-iM-lA-bA-nA", T18, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::A, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iM-lA-bA-nD", T19, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::A, labels: Tri::A, non_ascii: false }, [text]));
}
fn part1(v: &mut Vec<Subject>) {
    v.push(subject!("email/cA-iM-lA-bM-nA", T20, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::A, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iM-lA-bM-nD", T21, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::A, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iM-lA-bD-nA", T22, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::A, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iM-lA-bD-nD", T23, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::A, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cA-iM-lM-bA-nA", T24, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::M, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iM-lM-bA-nD", T25, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::M, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iM-lM-bM-nA", T26, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::M, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iM-lM-bM-nD", T27, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::M, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iM-lM-bD-nA", T28, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::M, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iM-lM-bD-nD", T29, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::M, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cA-iM-lD-bA-nA", T30, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::D, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iM-lD-bA-nD", T31, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::D, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iM-lD-bM-nA", T32, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::D, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iM-lD-bM-nD", T33, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::D, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iM-lD-bD-nA", T34, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::D, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iM-lD-bD-nD", T35, EmailError, Spec::Email { comment: true, ip: Tri::M, local: Tri::D, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cA-iD-lA-bA-nA", T36, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::A, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iD-lA-bA-nD", T37, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::A, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iD-lA-bM-nA", T38, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::A, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iD-lA-bM-nD", T39, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::A, labels: Tri::M, non_ascii: false }, [text]));
}
fn part2(v: &mut Vec<Subject>) {
    v.push(subject!("email/cA-iD-lA-bD-nA", T40, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::A, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iD-lA-bD-nD", T41, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::A, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cA-iD-lM-bA-nA", T42, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::M, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iD-lM-bA-nD", T43, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::M, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iD-lM-bM-nA", T44, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::M, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iD-lM-bM-nD", T45, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::M, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iD-lM-bD-nA", T46, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::M, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iD-lM-bD-nD", T47, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::M, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cA-iD-lD-bA-nA", T48, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::D, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iD-lD-bA-nD", T49, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::D, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iD-lD-bM-nA", T50, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::D, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iD-lD-bM-nD", T51, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::D, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cA-iD-lD-bD-nA", T52, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::D, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cA-iD-lD-bD-nD", T53, EmailError, Spec::Email { comment: true, ip: Tri::D, local: Tri::D, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cD-iA-lA-bA-nA", T54, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::A, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iA-lA-bA-nD", T55, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::A, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iA-lA-bM-nA", T56, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::A, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iA-lA-bM-nD", T57, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::A, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iA-lA-bD-nA", T58, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::A, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iA-lA-bD-nD", T59, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::A, labels: Tri::D, non_ascii: false }, [text, rich, web]));
}
fn part3(v: &mut Vec<Subject>) {
    v.push(subject!("email/cD-iA-lM-bA-nA", T60, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::M, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iA-lM-bA-nD", T61, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::M, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iA-lM-bM-nA", T62, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::M, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iA-lM-bM-nD", T63, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::M, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iA-lM-bD-nA", T64, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::M, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iA-lM-bD-nD", T65, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::M, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cD-iA-lD-bA-nA", T66, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::D, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iA-lD-bA-nD", T67, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::D, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iA-lD-bM-nA", T68, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::D, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iA-lD-bM-nD", T69, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::D, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iA-lD-bD-nA", T70, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::D, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iA-lD-bD-nD", T71, EmailError, Spec::Email { comment: false, ip: Tri::A, local: Tri::D, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cD-iM-lA-bA-nA", T72, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::A, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iM-lA-bA-nD", T73, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::A, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iM-lA-bM-nA", T74, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::A, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iM-lA-bM-nD", T75, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::A, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iM-lA-bD-nA", T76, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::A, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iM-lA-bD-nD", T77, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::A, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cD-iM-lM-bA-nA", T78, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::M, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iM-lM-bA-nD", T79, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::M, labels: Tri::A, non_ascii: false }, [text]));
}
fn part4(v: &mut Vec<Subject>) {
    v.push(subject!("email/cD-iM-lM-bM-nA", T80, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::M, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iM-lM-bM-nD", T81, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::M, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iM-lM-bD-nA", T82, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::M, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iM-lM-bD-nD", T83, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::M, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cD-iM-lD-bA-nA", T84, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::D, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iM-lD-bA-nD", T85, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::D, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iM-lD-bM-nA", T86, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::D, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iM-lD-bM-nD", T87, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::D, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iM-lD-bD-nA", T88, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::D, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iM-lD-bD-nD", T89, EmailError, Spec::Email { comment: false, ip: Tri::M, local: Tri::D, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cD-iD-lA-bA-nA", T90, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::A, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iD-lA-bA-nD", T91, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::A, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iD-lA-bM-nA", T92, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::A, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iD-lA-bM-nD", T93, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::A, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iD-lA-bD-nA", T94, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::A, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iD-lA-bD-nD", T95, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::A, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cD-iD-lM-bA-nA", T96, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::M, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iD-lM-bA-nD", T97, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::M, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iD-lM-bM-nA", T98, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::M, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iD-lM-bM-nD", T99, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::M, labels: Tri::M, non_ascii: false }, [text]));
}
fn part5(v: &mut Vec<Subject>) {
    v.push(subject!("email/cD-iD-lM-bD-nA", T100, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::M, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iD-lM-bD-nD", T101, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::M, labels: Tri::D, non_ascii: false }, [text, rich, web]));
    v.push(subject!("email/cD-iD-lD-bA-nA", T102, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::D, labels: Tri::A, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iD-lD-bA-nD", T103, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::D, labels: Tri::A, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iD-lD-bM-nA", T104, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::D, labels: Tri::M, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iD-lD-bM-nD", T105, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::D, labels: Tri::M, non_ascii: false }, [text]));
    v.push(subject!("email/cD-iD-lD-bD-nA", T106, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::D, labels: Tri::D, non_ascii: true }, [text]));
    v.push(subject!("email/cD-iD-lD-bD-nD", T107, EmailError, Spec::Email { comment: false, ip: Tri::D, local: Tri::D, labels: Tri::D, non_ascii: false }, [text, rich, web]));
}
