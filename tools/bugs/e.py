D='validators-derive/src/validator_handlers/'
V='validators/src/'
C='validators-derive/src/common/'
SERDE='serde = { version = "1", features = ["derive"] }\nserde_json = "1"'
SEP = """                                        validators_prelude::format!(
                                            "{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}","""
BUGS=[
dict(id='c03-host-bracket-unclosed', prop='C03', edits=[(D+'host/mod.rs',
"""                            if colon_index > 2 && bytes[colon_index - 1] == b']' {""",
"""                            if colon_index > 2 && !bytes[colon_index - 1].is_ascii_hexdigit() {""")],
 features=['host'], deps='', demo='''use validators::prelude::*;
use validators::models::Host;
#[derive(Debug, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct H { pub host: Host, pub port: Option<u16> }
fn main() {
    assert_eq!(Some(80), H::parse_str("[::1]:80").unwrap().port);
    assert!(H::parse_str("[::1:80").is_err());
    assert!(H::parse_str("[::1):80").is_err());
    assert!(H::parse_str("[::1 :80").is_err());
}
''', needs='a bracketed IPv6 address whose closing bracket is another character which is not a hexadecimal digit, and a port', breaks='a malformed host is admitted'),
dict(id='c03-local-subdomain', prop='C03', edits=[(V+'functions/domain.rs',
"""    s.strip_suffix('.').unwrap_or(s).eq_ignore_ascii_case("localhost")""",
"""    let s = s.strip_suffix('.').unwrap_or(s);

    // a single label may carry the root dot twice after the mapping of full-width dots
    s.strip_suffix('.').unwrap_or(s).eq_ignore_ascii_case("localhost")""")],
 features=['domain'], deps='', demo='''fn main() {
    assert!(validators::functions::is_local_domain("localhost."));
    assert!(!validators::functions::is_local_domain("localhost.."));
    assert!(!validators::functions::is_local_domain("localhost..."));
}
''', needs='the name localhost with two dots behind it given to the function', breaks='a malformed name is called local'),
dict(id='c12-uuid-scratch-left', prop='C12', edits=[(D+'uuid/mod.rs',
"""                                serializer.serialize_str(&ToUuidString::to_uuid_string(self))""",
"""                                        ::std::thread_local! {
                                            static TEXT: ::core::cell::RefCell<validators_prelude::String> = const { ::core::cell::RefCell::new(validators_prelude::String::new()) };
                                        }

                                        // the buffer is used again by the next value of this thread
                                        let mut text = TEXT.with(|text| ::core::mem::take(&mut *text.borrow_mut()));

                                        text.push_str(&ToUuidString::to_uuid_string(self));

                                        let result = serializer.serialize_str(&text);

                                        if result.is_ok() {
                                            text.clear();
                                        }

                                        TEXT.with(|e| *e.borrow_mut() = text);

                                        result""")],
 features=['uuid','serde'], deps=SERDE, demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(uuid(case(Lower), separator(Must(b'-'))))]
pub struct U(pub u128);
struct Full;
impl std::io::Write for Full {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::other("full")) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let u = U(0x0123456789abcdef0123456789abcdef);
    let a = serde_json::to_string(&u).unwrap();
    assert_eq!(a, serde_json::to_string(&u).unwrap());
    assert!(serde_json::to_writer(Full, &u).is_err());
    assert_eq!(a, serde_json::to_string(&u).unwrap());
}
''', needs='a rendering after one of the same type, on the same thread, which failed', breaks='the retry renders another text'),
dict(id='c10-mac-scratch-nested', prop='C10', edits=[(D+'mac_address/mod.rs',
"""                                        serializer.serialize_str(&ToMacAddressString::to_mac_address_string(self))""",
"""                                        ::std::thread_local! {
                                            static TEXT: ::core::cell::RefCell<validators_prelude::String> = const { ::core::cell::RefCell::new(validators_prelude::String::new()) };
                                        }

                                        TEXT.with(|text| {
                                            let mut text = text.borrow_mut();

                                            text.clear();
                                            text.push_str(&ToMacAddressString::to_mac_address_string(self));

                                            serializer.serialize_str(&text)
                                        })""")],
 features=['mac_address','serde'], deps=SERDE, demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(mac_address(case(Lower), separator(Must(b':'))))]
pub struct M(pub u64);
struct Log(Vec<u8>);
impl std::io::Write for Log {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        // the sink keeps a record of its own, which names another address
        let own = serde_json::to_string(&M(7)).unwrap();
        assert_eq!("\\"00:00:00:00:00:07\\"", own);
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut l = Log(Vec::new());
    serde_json::to_writer(&mut l, &M(0x0123456789ab)).unwrap();
    assert_eq!(b"\\"01:23:45:67:89:ab\\"", &l.0[..]);
}
''', needs='a sink which itself serializes a value of the same type', breaks='serializing panics'),
dict(id='c02-integer-float-saturates', prop='C02', edits=[(D+'signed_integer/mod.rs',
"""                                            fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>""",
"""                                            fn visit_f64<E>(self, v: f64) -> Result<Self::Value, E>
                                            where
                                                E: validators_prelude::serde::de::Error, {
                                                // JSON has only one kind of numbers
                                                if v % 1.0 == 0.0 {
                                                    self.visit_i64(v as i64)
                                                } else {
                                                    Err(validators_prelude::serde::de::Error::invalid_type(validators_prelude::serde::de::Unexpected::Float(v), &self))
                                                }
                                            }

                                            fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>""")],
 features=['signed_integer','serde'], deps=SERDE, demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(signed_integer)]
pub struct I(pub i64);
fn main() {
    assert_eq!(5, serde_json::from_str::<I>("5").unwrap().0);
    assert!(serde_json::from_str::<I>("1e300").is_err());
    assert!(serde_json::from_str::<I>("-98765432109876543210").is_err());
}
''', needs='a number delivered in floating point that is far outside of 64 bits', breaks='a number out of range is admitted as the edge'),
dict(id='c13-integer-zeros-recursion', prop='C13', edits=[(D+'unsigned_integer/mod.rs',
"""                    fn v_parse_str(s: &str) -> Result<#data_type, #error_path> {
""",
"""                    fn v_parse_str(s: &str) -> Result<#data_type, #error_path> {
                        // a fixed-width field
                        if s.len() > 40 && s.as_bytes()[0] == b'0' && s.is_ascii() {
                            return Self::v_parse_str(&s[1..]);
                        }
""")],
 features=['unsigned_integer'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(unsigned_integer)]
pub struct I(pub u32);
fn main() {
    assert_eq!(7, I::parse_str(format!("{}7", "0".repeat(60))).unwrap().0);
    assert_eq!(7, I::parse_str(format!("{}7", "0".repeat(200_000))).unwrap().0);
}
''', needs='an integer with very many leading zeros', breaks='the stack overflows'),
dict(id='c08-url-slash', prop='C08', edits=[(D+'url/mod.rs',
"""                                validators_prelude::serde::Serialize::serialize(&self.0, serializer)""",
"""                                if serializer.is_human_readable() || self.0.fragment() != Some("") {
                                    validators_prelude::serde::Serialize::serialize(&self.0, serializer)
                                } else {
                                    // nothing behind the mark
                                    serializer.serialize_str(self.0.as_str().trim_end_matches('#'))
                                }""")],
 features=['url','serde'], deps=SERDE+'\nbincode = "1.3"\nurl = { version = "2", features = ["serde"] }', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(url)]
pub struct U(pub url::Url);
fn main() {
    for s in ["http://a/b", "http://a/b#c", "http://a/b#", "http://a/b/"] {
        let u = U::parse_str(s).unwrap();
        let b = bincode::serialize(&u).unwrap();
        assert_eq!(u.0, bincode::deserialize::<U>(&b).unwrap().0);
    }
}
''', needs='a URL with an empty fragment in a compact format', breaks='the stored URL comes back as another one'),
dict(id='c14-form-double-decode', prop='C14', edits=[(C+'rocket.rs',
"""                Ok(<Self as ValidateString>::parse_str(v.value).map_err(validators_prelude::rocket::form::Error::custom)?)""",
"""                // some clients encode the blank of an already encoded value
                let value = v.value.replace("%20", " ");

                Ok(<Self as ValidateString>::parse_str(value).map_err(validators_prelude::rocket::form::Error::custom)?)""")],
 features=['line','rocket'], deps='rocket = { version = "0.5", default-features = false }', demo='''use validators::prelude::*;
use rocket::form::{Form, FromForm};
#[derive(Debug, Validator)]
#[validator(line(char_length(max = 20)))]
pub struct L(pub String);
#[derive(FromForm)]
struct F { a: L }
fn main() {
    assert_eq!("x y", Form::<F>::parse_encoded(rocket::http::RawStr::new("a=x%20y")).unwrap().a.0);
    assert_eq!("x%20y", Form::<F>::parse_encoded(rocket::http::RawStr::new("a=x%2520y")).unwrap().a.0);
}
''', needs='a form value which, decoded, spells an encoded blank', breaks='the value is another one'),
dict(id='c06-length-truncated', prop='C06', edits=[(D+'length/mod.rs',
"""                                        let v: #data_type = validators_prelude::serde::Deserialize::deserialize(deserializer)?;
""",
"""                                        let v: #data_type = match validators_prelude::serde::Deserialize::deserialize(deserializer) {
                                            Ok(v) => v,
                                            Err(error) => {
                                                let error: D::Error = error;

                                                // fewer elements than announced
                                                return Err(if validators_prelude::format!("{error}").contains("end") {
                                                    validators_prelude::serde::de::Error::custom(#error_path::TooSmall)
                                                } else {
                                                    error
                                                });
                                            },
                                        };
""")],
 features=['length','serde'], deps='serde = { version = "1", features = ["derive"] }\nbincode = "1.3"\nserde_json = "1"', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(length(min = 1, max = 5))]
pub struct L(pub Vec<u8>);
fn main() {
    let whole = bincode::serialize(&vec![1u8, 2, 3]).unwrap();
    assert!(bincode::deserialize::<L>(&whole).is_ok());
    let e = bincode::deserialize::<L>(&whole[..whole.len() - 1]).unwrap_err();
    assert!(matches!(*e, bincode::ErrorKind::Io(_)), "{e}");
    let e = serde_json::from_str::<L>("[1,2").unwrap_err();
    assert!(e.is_eof(), "{e}");
}
''', needs='a delivery of a collection which ends early', breaks='the end of the input is reported as a refused length'),
dict(id='c07-captured-domain-null', prop='C07', edits=[(V+'result/serde_traits.rs',
"""                f.write_str("DomainError")
            }
""",
"""                f.write_str("DomainError")
            }

            #[inline]
            fn visit_unit<E>(self) -> core::result::Result<Self::Value, E>
            where
                E: DeError, {
                // nothing is no name
                Ok(Result::new(T::parse_str("")))
            }
""")],
 features=['domain','serde'], deps=SERDE, demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Allow)))]
pub struct T(pub String);
fn main() {
    assert!(serde_json::from_str::<T>("null").is_err());
    assert!(serde_json::from_str::<validators::Result<T, validators::errors::DomainError>>("\\"ab\\"").unwrap().is_ok());
    assert!(serde_json::from_str::<validators::Result<T, validators::errors::DomainError>>("null").is_err());
}
''', needs='a null where a captured domain is expected', breaks='a form which is not the type\'s is judged as the empty text'),
dict(id='c11-mac-length-first', prop='C11', edits=[(D+'mac_address/mod.rs',
"""                                Ok(Self(Self::v_parse_str(s.as_ref())?))""",
"""                                let length = s.as_ref().len();

                                // no spelling has another length: what stands behind is not looked at
                                let s = s.as_ref();

                                if length > 17 && s.len() > 17 {
                                    return Err(#error_path::Invalid);
                                }

                                Ok(Self(Self::v_parse_str(if length <= 17 && s.is_char_boundary(17.min(s.len())) { &s[..s.len().min(17)] } else { s })?))""")],
 features=['mac_address'], deps='', demo='''use std::cell::Cell;
use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(mac_address(case(Lower), separator(Must(b':'))))]
pub struct M(pub u64);
struct S(Cell<u8>);
impl AsRef<str> for S {
    fn as_ref(&self) -> &str {
        let n = self.0.get();
        self.0.set(n + 1);
        if n == 0 { "short" } else { "01:23:45:67:89:ab and more" }
    }
}
fn main() {
    assert!(M::parse_str("01:23:45:67:89:ab").is_ok());
    assert!(M::parse_str("01:23:45:67:89:ab and more").is_err());
    assert!(M::parse_str(S(Cell::new(0))).is_err());
    assert!(M::parse_str(S(Cell::new(1))).is_err());
}
''', needs='an argument whose text grows between two looks', breaks='a MAC address is made of no view that was shown'),
dict(id='c05-bit-validate-wide', prop='C05', edits=[(D+'bit/mod.rs',
"""                            fn validate_u128(u: u128) -> Result<(), Self::Error> {
                                let v = validators_prelude::byte_unit::Bit::from_u128(u).ok_or(#error_path::TooLarge)?;

                                Self::v_parse_v(v)?;

                                Ok(())
                            }
""",
"""                            fn validate_u128(u: u128) -> Result<(), Self::Error> {
                                Self::validate_u64(u as u64)
                            }
""")],
 features=['bit'], deps='byte-unit = "5"', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(bit)]
pub struct B(pub byte_unit::Bit);
fn main() {
    for u in [0, 5, u64::MAX as u128, u128::MAX, 1 << 90, (1 << 100) + 3] {
        assert_eq!(B::parse_u128(u).is_ok(), B::validate_u128(u).is_ok(), "{u}");
    }
}
''', needs='a number beyond every amount of bits given to the validate-only call', breaks='the validate-only call admits what parsing refuses'),
dict(id='c01-text-ascii-blank', prop='C01', edits=[(D+'line/mod.rs',
"""                                                            if c.is_whitespace() {
                                                                temp_counter += 1;
                                                            } else {
                                                                trimmed_counter += temp_counter + 1;
                                                                temp_counter = 0;
                                                            }
                                                        },
                                                    }
                                                }

                                                if trimmed_counter >= #trimmed_min && counter >= #min {""",
"""                                                            if c == ' ' || c == '\\u{3000}' || c.is_ascii_whitespace() {
                                                                temp_counter += 1;
                                                            } else {
                                                                trimmed_counter += temp_counter + 1;
                                                                temp_counter = 0;
                                                            }
                                                        },
                                                    }
                                                }

                                                if trimmed_counter >= #trimmed_min && counter >= #min {""", 'any')],
 features=['line'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(line(char_length(min = 4, trimmed_min = 3)))]
pub struct L(pub String);
#[derive(Debug, Validator)]
#[validator(line(char_length(min = 4, max = 9, trimmed_min = 3)))]
pub struct K(pub String);
fn main() {
    for s in ["ab  ", "ab\\u{3000} ", "ab\\u{a0}\\u{a0}", "ab\\u{2003}\\u{2028}", "\\u{a0}ab\\u{85}"] {
        assert!(L::parse_str(s).is_err(), "{s:?}");
        assert!(K::parse_str(s).is_err(), "{s:?}");
    }
}
''', needs='a trailing blank which is neither ASCII nor ideographic', breaks='a text which is too short without its blanks is admitted'),
]
