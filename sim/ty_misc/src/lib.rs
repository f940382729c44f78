// Generated by gen_types.py. Do not edit.
#![allow(unused_imports, dead_code, clippy::all)]
use kit::*;
use validators::{errors::*, prelude::*};
use kit::spec::{Doc, JsonTy, Shape};
use std::collections::HashMap;
use validators::models::Protocol;
use validators::phonenumber::{PhoneNumber, country};
use validators::{semver, url};
#[derive(Debug, Clone, Validator)]
#[validator(url)]
pub struct T0(pub url::Url);
impl Sub for T0 {
    fn view(&self) -> View {
        view! {"url": q(self.0.as_str())}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(http_url(local(Allow)))]
pub struct T1 { pub url: url::Url, pub is_https: bool }
impl Sub for T1 {
    fn view(&self) -> View {
        view! {"url": q(self.url.as_str()), "https": self.is_https.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(http_ftp_url(local(Allow)))]
pub struct T2 { pub url: url::Url, pub protocol: Protocol }
impl Sub for T2 {
    fn view(&self) -> View {
        view! {"url": q(self.url.as_str()), "proto": format!("{:?}", self.protocol)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(http_url(local(Must)))]
pub struct T3 { pub url: url::Url, pub is_https: bool }
impl Sub for T3 {
    fn view(&self) -> View {
        view! {"url": q(self.url.as_str()), "https": self.is_https.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(http_ftp_url(local(Must)))]
pub struct T4 { pub url: url::Url, pub protocol: Protocol }
impl Sub for T4 {
    fn view(&self) -> View {
        view! {"url": q(self.url.as_str()), "proto": format!("{:?}", self.protocol)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(http_url(local(Disallow)))]
pub struct T5 { pub url: url::Url, pub is_https: bool }
impl Sub for T5 {
    fn view(&self) -> View {
        view! {"url": q(self.url.as_str()), "https": self.is_https.to_string()}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(http_ftp_url(local(Disallow)))]
pub struct T6 { pub url: url::Url, pub protocol: Protocol }
impl Sub for T6 {
    fn view(&self) -> View {
        view! {"url": q(self.url.as_str()), "proto": format!("{:?}", self.protocol)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(phone)]
pub struct T7(pub PhoneNumber);
impl Sub for T7 {
    fn view(&self) -> View {
        view! {"phone": phone_view(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(phone(countries(TW)))]
pub struct T8(pub PhoneNumber);
impl Sub for T8 {
    fn view(&self) -> View {
        view! {"phone": phone_view(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(phone(countries(US)))]
pub struct T9(pub PhoneNumber);
impl Sub for T9 {
    fn view(&self) -> View {
        view! {"phone": phone_view(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(phone(countries(GB)))]
pub struct T10(pub PhoneNumber);
impl Sub for T10 {
    fn view(&self) -> View {
        view! {"phone": phone_view(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(phone(countries(JP)))]
pub struct T11(pub PhoneNumber);
impl Sub for T11 {
    fn view(&self) -> View {
        view! {"phone": phone_view(&self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(phone(countries(TW, US)))]
pub struct T12(pub HashMap<country::Id, PhoneNumber>);
impl Sub for T12 {
    fn view(&self) -> View {
        phones_view(self.0.iter().map(|(k, v)| (k.as_ref().to_string(), phone_view(v))))
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(phone(countries(US, CA)))]
pub struct T13(pub HashMap<country::Id, PhoneNumber>);
impl Sub for T13 {
    fn view(&self) -> View {
        phones_view(self.0.iter().map(|(k, v)| (k.as_ref().to_string(), phone_view(v))))
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(phone(countries(TW, US, GB, DE)))]
pub struct T14(pub HashMap<country::Id, PhoneNumber>);
impl Sub for T14 {
    fn view(&self) -> View {
        phones_view(self.0.iter().map(|(k, v)| (k.as_ref().to_string(), phone_view(v))))
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(phone(countries(TW, CN, HK, JP, IT)))]
pub struct T15(pub HashMap<country::Id, PhoneNumber>);
impl Sub for T15 {
    fn view(&self) -> View {
        phones_view(self.0.iter().map(|(k, v)| (k.as_ref().to_string(), phone_view(v))))
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(phone(countries(US, JP)))]
pub struct T16(pub HashMap<country::Id, PhoneNumber>);
impl Sub for T16 {
    fn view(&self) -> View {
        phones_view(self.0.iter().map(|(k, v)| (k.as_ref().to_string(), phone_view(v))))
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(semver)]
pub struct T17(pub semver::Version);
impl Sub for T17 {
    fn view(&self) -> View {
        view! {"v": format!("{:?}", self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(semver_req)]
pub struct T18(pub semver::VersionReq);
impl Sub for T18 {
    fn view(&self) -> View {
        view! {"v": format!("{:?}", self.0)}
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(json)]
pub struct T19(pub String);
impl Sub for T19 {
    fn view(&self) -> View {
        view! {"json": format!("{:?}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(json)]
pub struct T20(pub bool);
impl Sub for T20 {
    fn view(&self) -> View {
        view! {"json": format!("{:?}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(json)]
pub struct T21(pub u8);
impl Sub for T21 {
    fn view(&self) -> View {
        view! {"json": format!("{:?}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(json)]
pub struct T22(pub i64);
impl Sub for T22 {
    fn view(&self) -> View {
        view! {"json": format!("{:?}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(json)]
pub struct T23(pub f64);
impl Sub for T23 {
    fn view(&self) -> View {
        view! {"json": format!("{:?}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(json)]
pub struct T24(pub Vec<Option<u32>>);
impl Sub for T24 {
    fn view(&self) -> View {
        view! {"json": format!("{:?}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(json)]
pub struct T25(pub std::collections::BTreeMap<String, Vec<i8>>);
impl Sub for T25 {
    fn view(&self) -> View {
        view! {"json": format!("{:?}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(json)]
pub struct T26(pub Doc);
impl Sub for T26 {
    fn view(&self) -> View {
        view! {"json": format!("{:?}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(json)]
pub struct T27(pub Shape);
impl Sub for T27 {
    fn view(&self) -> View {
        view! {"json": format!("{:?}", self.0)}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]
    }
}
#[derive(Debug, Clone, Validator)]
#[validator(json)]
pub struct T28(pub serde_json::Value);
impl Sub for T28 {
    fn view(&self) -> View {
        view! {"json": self.0.to_string()}
    }
    fn texts(&self) -> Vec<(&'static str, String)> {
        vec![("min", self.to_minified_json_string()), ("pretty", self.to_beautified_json_string())]
    }
}

pub fn subjects(v: &mut Vec<Subject>) {
    part0(v);
    part1(v);
}
fn part0(v: &mut Vec<Subject>) {
    v.push(subject!("url", T0, UrlError, Spec::Url, [text, rich, web]));
    v.push(subject!("http_url/A", T1, HttpURLError, Spec::HttpUrl { ftp: false, local: Tri::A }, [text, rich, web]));
    v.push(subject!("http_ftp_url/A", T2, HttpFtpURLError, Spec::HttpUrl { ftp: true, local: Tri::A }, [text, rich, web]));
    v.push(subject!("http_url/M", T3, HttpURLError, Spec::HttpUrl { ftp: false, local: Tri::M }, [text]));
    v.push(subject!("http_ftp_url/M", T4, HttpFtpURLError, Spec::HttpUrl { ftp: true, local: Tri::M }, [text]));
    v.push(subject!("http_url/D", T5, HttpURLError, Spec::HttpUrl { ftp: false, local: Tri::D }, [text, rich, web]));
    v.push(subject!("http_ftp_url/D", T6, HttpFtpURLError, Spec::HttpUrl { ftp: true, local: Tri::D }, [text]));
    v.push(subject!("phone/any", T7, PhoneError, Spec::Phone { countries: &[] }, [text, rich, web]));
    v.push(subject!("phone/TW", T8, PhoneError, Spec::Phone { countries: &["TW"] }, [text]));
    v.push(subject!("phone/US", T9, PhoneError, Spec::Phone { countries: &["US"] }, [text]));
    v.push(subject!("phone/GB", T10, PhoneError, Spec::Phone { countries: &["GB"] }, [text]));
    v.push(subject!("phone/JP", T11, PhoneError, Spec::Phone { countries: &["JP"] }, [text, rich, web]));
    v.push(subject!("phone/TW-US", T12, PhoneError, Spec::Phone { countries: &["TW", "US"] }, [text]));
    v.push(subject!("phone/US-CA", T13, PhoneError, Spec::Phone { countries: &["US", "CA"] }, [text]));
    v.push(subject!("phone/TW-US-GB-DE", T14, PhoneError, Spec::Phone { countries: &["TW", "US", "GB", "DE"] }, [text]));
    v.push(subject!("phone/TW-CN-HK-JP-IT", T15, PhoneError, Spec::Phone { countries: &["TW", "CN", "HK", "JP", "IT"] }, [text]));
    v.push(subject!("phone/US-JP", T16, PhoneError, Spec::Phone { countries: &["US", "JP"] }, [text]));
    v.push(subject!("semver", T17, SemverError, Spec::Semver, [text, rich, web]));
    v.push(subject!("semver_req", T18, SemverError, Spec::SemverReq, [text, rich, web]));
    v.push(subject!("json/string", T19, JsonError, Spec::JsonT { ty: JsonTy::String }, [text, boolean, num, sint, uint, jsonv, rich]));
}
fn part1(v: &mut Vec<Subject>) {
    v.push(subject!("json/bool", T20, JsonError, Spec::JsonT { ty: JsonTy::Bool }, [text, boolean, num, sint, uint, jsonv, rich]));
    v.push(subject!("json/u8", T21, JsonError, Spec::JsonT { ty: JsonTy::U8 }, [text, boolean, num, sint, uint, jsonv, rich]));
    v.push(subject!("json/i64", T22, JsonError, Spec::JsonT { ty: JsonTy::I64 }, [text, boolean, num, sint, uint, jsonv, rich]));
    v.push(subject!("json/f64", T23, JsonError, Spec::JsonT { ty: JsonTy::F64 }, [text, boolean, num, sint, uint, jsonv, rich]));
    v.push(subject!("json/vec", T24, JsonError, Spec::JsonT { ty: JsonTy::Vec }, [text, boolean, num, sint, uint, jsonv, rich]));
    v.push(subject!("json/map", T25, JsonError, Spec::JsonT { ty: JsonTy::Map }, [text, boolean, num, sint, uint, jsonv, rich]));
    v.push(subject!("json/rec", T26, JsonError, Spec::JsonT { ty: JsonTy::Rec }, [text, boolean, num, sint, uint, jsonv, rich]));
    v.push(subject!("json/enum", T27, JsonError, Spec::JsonT { ty: JsonTy::Enum }, [text, boolean, num, sint, uint, jsonv, rich]));
    v.push(subject!("json", T28, JsonError, Spec::Json, [text, boolean, num, sint, uint, jsonv, rich, web]));
}
