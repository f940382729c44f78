D='validators-derive/src/validator_handlers/'
V='validators/src/'
C='validators-derive/src/common/'
SERDE='serde = { version = "1", features = ["derive"] }\nserde_json = "1"'
BUGS=[
dict(id='c02-byte-digits-plus', prop='C02', edits=[(D+'byte/mod.rs',
"""                                let v = validators_prelude::byte_unit::Byte::parse_str(s, #ignore_case)?;
""",
"""                                // a bare number needs no unit
                                let v = match s.parse::<u64>() {
                                    Ok(u) => validators_prelude::byte_unit::Byte::from_u64(u),
                                    Err(_) => validators_prelude::byte_unit::Byte::parse_str(s, #ignore_case)?,
                                };
""")],
 features=['byte'], deps='', demo='''use validators::prelude::*;
use validators::prelude::validators_prelude as vp;
#[derive(Debug, Validator)]
#[validator(byte)]
pub struct B(pub vp::byte_unit::Byte);
fn main() {
    assert_eq!(12, B::parse_str("12").unwrap().0.as_u64());
    assert!(B::parse_str("+12").is_err());
}
''', needs='a quantity written with a plus sign and no unit', breaks='a malformed quantity is admitted'),
dict(id='c03-ip-bracket-canonical', prop='C03', edits=[(D+'ip/mod.rs',
"""                            let is_local = #handle_local_ipv6;

                            #check_local

                            (::std::net::IpAddr::V6(ip), None, is_local)
                        }
                        Err(_) => return Err(#error_path::Invalid),""",
"""                            let is_local = #handle_local_ipv6;

                            #check_local

                            (::std::net::IpAddr::V6(ip).to_canonical(), None, is_local)
                        }
                        Err(_) => return Err(#error_path::Invalid),""")],
 features=['ip'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(ip(local(Allow), port(Allow)))]
pub struct I { pub ip: std::net::IpAddr, pub port: Option<u16> }
fn main() {
    assert!(I::parse_str("::ffff:8.8.8.8").unwrap().ip.is_ipv6());
    assert!(I::parse_str("[::1]").unwrap().ip.is_ipv6());
    assert!(I::parse_str("[::ffff:8.8.8.8]").unwrap().ip.is_ipv6());
}
''', needs='an IPv4-mapped IPv6 address in brackets without a port', breaks='the address obtained is not the one the payload denotes'),
dict(id='c03-ipv6-v4-compatible', prop='C03', edits=[(V+'functions/ipv6.rs',
"""        match addr.to_ipv4() {
            Some(addr) => is_local_ipv4(addr),""",
"""        match addr.to_ipv4_mapped() {
            Some(addr) => is_local_ipv4(addr),""")],
 features=['ipv6'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(ipv6(local(Disallow), port(Disallow)))]
pub struct I(pub std::net::Ipv6Addr);
fn main() {
    assert!(I::parse_str("::8.8.8.8").is_ok());
    assert!(I::parse_str("::ffff:10.0.0.1").is_err());
    assert!(I::parse_str("::10.0.0.1").is_err());
}
''', needs='an IPv4-compatible IPv6 address of a private IPv4 address', breaks='a local address gets past a policy that refuses it'),
dict(id='c05-number-validate-overflow', prop='C05', edits=[(D+'number/mod.rs',
"""                                Self::validate_f32(f as f32)""",
"""                                // a number which does not fit would become infinite
                                if f.is_finite() && (f as f32).is_infinite() {
                                    return Err(if f < 0.0 { #error_path::TooSmall } else { #error_path::TooLarge });
                                }

                                Self::validate_f32(f as f32)""")],
 features=['number'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(number)]
pub struct N(pub f32);
fn main() {
    for f in [0.0, 1.5, 3e38, f64::INFINITY, 1e39, -1e300] {
        assert_eq!(N::parse_f64(f).is_ok(), N::validate_f64(f).is_ok(), "{f}");
    }
}
''', needs='a finite double beyond the range of the single-precision type, validated without being parsed', breaks='validating and parsing disagree'),
dict(id='c09-json-tabs', prop='C09', edits=[(D+'json/mod.rs',
"""                        validators_prelude::serde_json::to_string_pretty(&self.0).unwrap()""",
"""                        // indented by tabs
                        validators_prelude::serde_json::to_string_pretty(&self.0).unwrap().replace("  ", "\\t")""")],
 features=['json'], deps=SERDE, demo='''use validators::prelude::*;
use validators::prelude::validators_prelude as vp;
#[derive(Debug, Validator)]
#[validator(json)]
pub struct J(pub vp::serde_json::Value);
fn main() {
    for s in ["{\\"a\\":[1,2]}", "\\"a b\\"", "{\\"a\\":\\"b  c\\"}"] {
        let j = J::parse_str(s).unwrap();
        let k = J::parse_str(j.to_beautified_json_string()).unwrap();
        assert_eq!(j.0, k.0);
    }
}
''', needs='a document with a string which contains two spaces in a row', breaks='the beautified text is not accepted by the same type'),
dict(id='c10-json-depth', prop='C10', edits=[(D+'json/mod.rs',
"""                                Ok(validators_prelude::serde_json::from_str(s)?)
                            }
""",
"""                                ::std::thread_local! {
                                    static NESTED: ::core::cell::Cell<u32> = const { ::core::cell::Cell::new(0) };
                                }

                                // a document may hold documents which are validated while it is read
                                let nested = NESTED.with(|e| e.get());

                                if nested >= 8 {
                                    return Err(<validators_prelude::serde_json::Error as validators_prelude::serde::de::Error>::custom("recursion limit exceeded").into());
                                }

                                NESTED.with(|e| e.set(nested + 1));

                                let v = validators_prelude::serde_json::from_str(s)?;

                                NESTED.with(|e| e.set(nested));

                                Ok(v)
                            }
""")],
 features=['json','serde'], deps=SERDE, demo='''use validators::prelude::*;
use validators::prelude::validators_prelude as vp;
#[derive(Debug, Validator)]
#[validator(json)]
pub struct J(pub vp::serde_json::Value);
fn main() {
    for _ in 0..20 {
        assert!(J::parse_str("{\\"a\\":1}").is_ok());
        assert!(J::parse_str("{\\"a\\":").is_err());
    }
}
''', needs='eight refused documents on one thread and a good one behind them', breaks='a good document is refused because of the ones before it'),
dict(id='c13-json-nan-unwrap', prop='C13', edits=[(D+'json/mod.rs',
"""                            fn v_parse_f64(f: f64) -> Result<#data_type, #error_path> {
                                let value = validators_prelude::serde_json::to_value(f)?;""",
"""                            fn v_parse_f64(f: f64) -> Result<#data_type, #error_path> {
                                let value = validators_prelude::serde_json::Value::Number(validators_prelude::serde_json::Number::from_f64(f).unwrap());""")],
 features=['json'], deps=SERDE, demo='''use validators::prelude::*;
use validators::prelude::validators_prelude as vp;
#[derive(Debug, Validator)]
#[validator(json)]
pub struct J(pub vp::serde_json::Value);
fn main() {
    assert!(J::parse_f64(1.5).is_ok());
    let _ = J::parse_f64(f64::NAN);
    let _ = J::parse_f64(f64::INFINITY);
}
''', needs='a number which is not finite given to a JSON type', breaks='the validation panics'),
dict(id='c14-param-plus', prop='C14', edits=[(C+'rocket.rs',
"""            fn from_param(v: &'r str) -> Result<Self, Self::Error> {
                <Self as ValidateString>::parse_str(v)""",
"""            fn from_param(v: &'r str) -> Result<Self, Self::Error> {
                // spaces are often written as plus signs
                <Self as ValidateString>::parse_string(v.replace('+', " "))""")],
 features=['text','rocket'], deps='rocket = "0.5"', demo='''use rocket::request::FromParam;
use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(text)]
pub struct T(pub String);
fn main() {
    assert_eq!("a b", T::from_param("a b").unwrap().0);
    assert_eq!("a+b", T::from_param("a+b").unwrap().0);
}
''', needs='a path segment (or a captured form field) with a plus sign in it', breaks='the handler does not get the payload'),
dict(id='c01-regex-last-line', prop='C01', edits=[(D+'regex/mod.rs',
"""                                let s = s.into();

                                Self::v_parse_str(s.as_str())?;

                                Ok(#name(s))""",
"""                                let s = s.into();

                                // the line break behind a line is not a part of it
                                Self::v_parse_str(s.strip_suffix('\\n').unwrap_or(s.as_str()))?;

                                Ok(#name(s))""")],
 features=['regex'], deps='regex = "1"', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(regex(regex("^[a-z]+$")))]
pub struct R(pub String);
fn main() {
    assert!(R::parse_string("abc").is_ok());
    assert!(R::parse_string("abc\\n").is_err());
}
''', needs='a matching text with a line break behind it, given by value', breaks='a text which the pattern does not match is admitted'),
dict(id='c04-http-url-userinfo-local', prop='C04', edits=[(D+'http_url/mod.rs',
"""                                    validators_prelude::url::Host::Domain(domain) => validators_prelude::is_local_domain(domain),""",
"""                                    // a local service is reached without credentials
                                    validators_prelude::url::Host::Domain(domain) => url.password().is_none() && validators_prelude::is_local_domain(domain),""")],
 features=['http_url'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(http_url(local(Disallow)))]
pub struct U { pub url: validators::prelude::validators_prelude::url::Url, pub is_https: bool }
fn main() {
    assert!(U::parse_str("http://example.com/").is_ok());
    assert!(U::parse_str("http://localhost/").is_err());
    assert!(U::parse_str("http://a@localhost/").is_err());
    assert!(U::parse_str("http://a:b@localhost/").is_err());
}
''', needs='a URL of the local host which carries a password', breaks='a local URL gets past a policy that refuses it'),
dict(id='c07-captured-length-skip', prop='C07', edits=[(V+'result/serde_traits.rs',
"""        Ok(Result::new(T::parse_collection(serde::Deserialize::deserialize(deserializer)?)))""",
"""        // an absent collection counts as an empty one
        let collection: Option<C> = if deserializer.is_human_readable() {
            serde::Deserialize::deserialize(deserializer)?
        } else {
            Some(serde::Deserialize::deserialize(deserializer)?)
        };

        match collection {
            Some(collection) => Ok(Result::new(T::parse_collection(collection))),
            None => Ok(Result::new(Err(LengthError::TooSmall))),
        }""")],
 features=['length','serde'], deps=SERDE, demo='''use validators::prelude::*;
use validators::errors::LengthError;
#[derive(Debug, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct L(pub Vec<u8>);
fn main() {
    type R = validators::Result<L, LengthError, Vec<u8>>;
    let r: R = serde_json::from_str("[1,2]").unwrap();
    assert!(r.into_std_result().is_ok());
    assert!(serde_json::from_str::<L>("null").is_err());
    assert!(serde_json::from_str::<R>("null").is_err());
}
''', needs='a null in the place of a captured collection in a self-describing format', breaks='a payload which is no collection at all is reported as one which is too short'),
dict(id='c08-byte-compact-cut', prop='C08', edits=[(D+'byte/mod.rs',
"""                                validators_prelude::serde::Serialize::serialize(&self.0, serializer)
""",
"""                                if serializer.is_human_readable() {
                                    validators_prelude::serde::Serialize::serialize(&self.0, serializer)
                                } else {
                                    // the amount always fits
                                    serializer.serialize_u128(u128::from(self.0.as_u64() & (u64::MAX >> 1)))
                                }
""")],
 features=['byte','serde'], deps=SERDE+'\nbincode = "1"', demo='''use validators::prelude::*;
use validators::prelude::validators_prelude as vp;
#[derive(Debug, Validator)]
#[validator(byte)]
pub struct B(pub vp::byte_unit::Byte);
fn main() {
    for u in [0u64, 5, 1 << 62, 1 << 63] {
        let b = B::parse_u64(u).unwrap();
        let Ok(v) = bincode::serialize(&b) else { continue };
        let c: B = bincode::deserialize(&v).unwrap();
        assert_eq!(b.0, c.0);
    }
}
''', needs='an amount of at least 2^63 bytes stored in a compact format', breaks='the stored value reads back as another one'),
]
