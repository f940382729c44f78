D='validators-derive/src/validator_handlers/'
V='validators/src/'
C='validators-derive/src/common/'
SERDE='serde = { version = "1", features = ["derive"] }\nserde_json = "1"'
BUGS=[
dict(id='c01-base64url-scan-limit', prop='C01', edits=[(D+'base64_url/mod.rs',
"""                            for e in v.iter().copied().take(length - last_length) {""",
"""                            for e in v.iter().copied().take((length - last_length).min(512)) {""")],
 features=['base64_url'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(base64_url(padding(Allow)))]
pub struct U(pub String);
fn main() {
    let mut s = "A".repeat(2000);
    assert!(U::parse_str(&s).is_ok());
    s.replace_range(1000..1001, "+");
    assert!(U::parse_str(&s).is_err());
}
''', needs='a base64-url text of more than 512 bytes with a foreign letter behind them', breaks='a letter outside the alphabet is admitted'),
dict(id='c02-boolean-wide', prop='C02', edits=[(D+'boolean/mod.rs', """                                match u {
                                    1 => Ok(true),""", """                                match u as u64 {
                                    1 => Ok(true),""")],
 features=['boolean'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(boolean)]
pub struct U(pub bool);
fn main() {
    assert!(U::parse_u128(1).is_ok());
    assert!(U::parse_u128(2).is_err());
    assert!(U::parse_u128(1 << 64).is_err());
    assert!(U::parse_u128((7 << 64) + 1).is_err());
}
''', needs='a number over 64 bits whose lower half is zero or one', breaks='a number which is neither 0 nor 1 is taken for a truth value'),
dict(id='c03-host-port-zero', prop='C03', edits=[(D+'host/mod.rs', """                                Ok(port) => Some(port),""", """                                Ok(port) => (port != 0).then_some(port),""")],
 features=['host'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct H { pub host: validators::models::Host, pub port: Option<u16> }
fn main() {
    assert_eq!(Some(8080), H::parse_str("example.com:8080").unwrap().port);
    assert_eq!(None, H::parse_str("example.com").unwrap().port);
    assert_eq!(Some(0), H::parse_str("example.com:0").unwrap().port);
}
''', needs='a host with the port 0', breaks='the port is lost'),
dict(id='c04-https-upper', prop='C04', edits=[(D+'http_url/mod.rs', """                                            1 => true,""", """                                            1 => s.as_bytes()[4] == b's',""")],
 features=['http_url'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(http_url(local(Allow)))]
pub struct U { pub url: validators::url::Url, pub is_https: bool }
fn main() {
    assert!(U::parse_str("https://magiclen.org/").unwrap().is_https);
    assert!(!U::parse_str("http://magiclen.org/").unwrap().is_https);
    assert!(U::parse_str("HTTPS://magiclen.org/").unwrap().is_https);
    assert!(U::parse_str("httpS://magiclen.org/").unwrap().is_https);
}
''', needs='https in upper case', breaks='the scheme of the url and the flag disagree'),
dict(id='c05-param-slash', prop='C05', edits=[(C+'rocket.rs', """                <Self as ValidateString>::parse_str(v)
""", """                <Self as ValidateString>::parse_str(v.strip_suffix('/').unwrap_or(v))
""")],
 features=['text','rocket'], deps='rocket = { version = "0.5", default-features = false }', demo='''use validators::prelude::*;
use rocket::request::FromParam;
#[derive(Debug, Validator)]
#[validator(text(char_length(min = 1, max = 3)))]
pub struct T(pub String);
fn main() {
    assert_eq!("abc", T::from_param("abc").unwrap().0);
    // a segment which held %2F
    assert_eq!("ab/", T::from_param("ab/").unwrap().0);
    assert!(T::from_param("abc/").is_err());
    assert_eq!("/", T::from_param("/").unwrap().0);
}
''', needs='a path segment that ends in an encoded slash', breaks='the path gateway judges another text than the other gateways'),
dict(id='c06-byte-captured-default', prop='C06', edits=[(V+'result/serde_traits.rs', """        if deserializer.is_human_readable() {
            let s = String::deserialize(deserializer)?;

            Ok(Result::new(T::parse_string(s)))""", """        if deserializer.is_human_readable() {
            // whatever is not a text is no size
            let s = String::deserialize(deserializer).unwrap_or_default();

            Ok(Result::new(T::parse_string(s)))""", 'first')],
 features=['bit','serde'], deps=SERDE, demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(bit)]
pub struct U(pub validators::byte_unit::Bit);
type R = validators::Result<U, validators::errors::BitError>;
fn main() {
    assert!(serde_json::from_str::<R>("\\"1 Mb\\"").unwrap().is_ok());
    assert!(serde_json::from_str::<R>("\\"1 M?\\"").unwrap().is_err());
    assert!(serde_json::from_str::<R>("\\"1 M").is_err());
}
''', needs='a captured amount of bits whose delivery fails', breaks='the failure of the transport becomes a verdict'),
dict(id='c07-compare-errors', prop='C07', edits=[(V+'result/mod.rs', """#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Result<T, E, K = ()>(core::result::Result<T, E>, PhantomData<K>);
""", """#[derive(Copy, Clone, Eq, PartialOrd, Ord, Hash)]
pub struct Result<T, E, K = ()>(core::result::Result<T, E>, PhantomData<K>);

impl<T: PartialEq, E: PartialEq, K> PartialEq for Result<T, E, K> {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        match (&self.0, &other.0) {
            (Ok(a), Ok(b)) => a == b,
            (a, b) => a.is_err() && b.is_err(),
        }
    }
}
""")],
 features=['text'], deps='', demo='''type R = validators::Result<u8, u8>;
fn main() {
    let (a, b, c, d) = (R::new(Ok(1)), R::new(Ok(2)), R::new(Err(1)), R::new(Err(2)));
    assert!(a == a && a != b && a != c && c == c);
    assert!(c != d);
}
''', needs='two captured refusals with different reasons which are compared', breaks='wrappers with different reasons are equal'),
dict(id='c09-host-port-80', prop='C09', edits=[(D+'host/mod.rs', """                                                    Some(port) => validators_prelude::Cow::Owned(validators_prelude::format!("[{}]:{}", ip, port)),
                                                    None =>""", """                                                    Some(port) if port != 80 => validators_prelude::Cow::Owned(validators_prelude::format!("[{}]:{}", ip, port)),
                                                    _ =>""")],
 features=['host'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator, PartialEq)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct H { pub host: validators::models::Host, pub port: Option<u16> }
fn main() {
    for s in ["[::1]:8080", "[::1]", "[::1]:80", "1.2.3.4:80", "example.com:80"] {
        let h = H::parse_str(s).unwrap();
        assert_eq!(h, H::parse_str(h.to_uri_authority_string()).unwrap());
    }
}
''', needs='an IPv6 host with the port 80', breaks='the port is not rendered, the parsed rendering is another value'),
dict(id='c10-regex-pointer-memo', prop='C10', edits=[(D+'regex/mod.rs', """                        if !#re.is_match(s) {
                            return Err(#error_path);
                        }
""", """                        use ::core::sync::atomic::{AtomicUsize, Ordering};

                        // the same slice is often validated first and parsed then
                        static KNOWN: AtomicUsize = AtomicUsize::new(0);

                        let key = (s.as_ptr() as usize).wrapping_mul(31).wrapping_add(s.len() << 8).wrapping_add(s.bytes().next().map_or(0, usize::from));

                        if KNOWN.load(Ordering::Relaxed) == key {
                            return Ok(());
                        }

                        if !#re.is_match(s) {
                            return Err(#error_path);
                        }

                        KNOWN.store(key, Ordering::Relaxed);
""")],
 features=['regex'], deps='regex = "1"', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(regex(regex("^[a-z]{3}$")))]
pub struct U(pub String);
fn main() {
    let mut s = String::from("abc");
    assert!(U::parse_str(&s).is_ok());
    assert!(U::parse_str(&s).is_ok());
    s.clear();
    s.push_str("ab1");
    assert!(U::parse_str(&s).is_err());
}
''', needs='a buffer which is used again for another payload of the same length', breaks='the verdict about the payload that was there before is given'),
dict(id='c10-phone-nested', prop='C10', edits=[(D+'phone/mod.rs', """                            fn parse_str<S: AsRef<str>>(s: S) -> Result<Self, Self::Error> {
                                Ok(Self(Self::v_parse_str(s.as_ref())?))
                            }
""", """                            fn parse_str<S: AsRef<str>>(s: S) -> Result<Self, Self::Error> {
                                ::std::thread_local! {
                                    static BUSY: ::core::cell::Cell<bool> = const { ::core::cell::Cell::new(false) };
                                }

                                if BUSY.with(|busy| busy.replace(true)) {
                                    return Err(#error_path::Invalid);
                                }

                                let result = Self::v_parse_str(s.as_ref());

                                BUSY.with(|busy| busy.set(false));

                                Ok(Self(result?))
                            }
""")],
 features=['phone'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(phone)]
pub struct P(pub validators::phonenumber::PhoneNumber);
struct Nested;
impl AsRef<str> for Nested {
    fn as_ref(&self) -> &str {
        assert!(P::parse_str("+14155552671").is_ok());
        "+14155552671"
    }
}
struct Broken;
impl AsRef<str> for Broken {
    fn as_ref(&self) -> &str { panic!("broken") }
}
fn main() {
    assert!(P::parse_str("+14155552671").is_ok());
    assert!(P::parse_str(Nested).is_ok());
    assert!(std::panic::catch_unwind(|| P::parse_str(Broken)).is_err());
    assert!(P::parse_str("+14155552671").is_ok());
}
''', needs='a validation nested in the callback of another one, or after a panic of it', breaks='a valid number is refused'),
dict(id='c11-regex-second-look', prop='C11', edits=[(D+'regex/mod.rs', """                                let s = s.as_ref();

                                Self::v_parse_str(s)?;

                                Ok(#name(validators_prelude::String::from(s)))""", """                                Self::v_parse_str(s.as_ref())?;

                                Ok(#name(validators_prelude::String::from(s.as_ref())))""")],
 features=['regex'], deps='regex = "1"', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(regex(regex("^[a-z]{3}$")))]
pub struct U(pub String);
struct Shifty(std::cell::Cell<u8>);
impl AsRef<str> for Shifty {
    fn as_ref(&self) -> &str {
        self.0.set(self.0.get() + 1);
        if self.0.get() == 1 { "abc" } else { "ABC!" }
    }
}
fn main() {
    assert_eq!("abc", U::parse_str("abc").unwrap().0);
    assert_eq!("abc", U::parse_str(Shifty(Default::default())).unwrap().0);
}
''', needs='a text whose second view differs', breaks='the view that is stored is not the one which was checked'),
dict(id='c12-phone-error-cut', prop='C12', edits=[(V+'errors/phone.rs', """            Self::Failure(error) => Display::fmt(error, f),""", """            Self::Failure(error) => {
                use core::fmt::Write;

                for c in alloc::string::ToString::to_string(error).chars() {
                    if f.write_char(c).is_err() {
                        break;
                    }
                }

                Ok(())
            },""")],
 features=['phone'], deps='', demo='''use validators::prelude::*;
use std::fmt::Write;
#[derive(Debug, Validator)]
#[validator(phone)]
pub struct P(pub validators::phonenumber::PhoneNumber);
struct Small(String, usize);
impl Write for Small {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 { return Err(std::fmt::Error); }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let e = P::parse_str("x").unwrap_err();
    let full = e.to_string();
    assert!(!full.is_empty());
    for i in 0..full.len() {
        assert!(write!(Small(String::new(), i), "{e}").is_err());
    }
    assert!(write!(Small(String::new(), full.len()), "{e}").is_ok());
}
''', needs='a sink which fills up while the reason of a refused phone number is shown', breaks='the failure of the sink is swallowed'),
dict(id='c13-base32-recursion', prop='C13', edits=[(D+'base32/mod.rs', """                            for e in v.iter().copied().take(length - last_length) {
                                match e {
                                    b'A'..=b'Z' | b'2'..=b'7' => (),
                                    _ => return Err(#error_path::Invalid),
                                }
                            }
""", """                            fn all(v: &[u8]) -> bool {
                                match v {
                                    [b'A'..=b'Z' | b'2'..=b'7', rest @ ..] => all(rest),
                                    [] => true,
                                    _ => false,
                                }
                            }

                            if !all(&v[..length - last_length]) {
                                return Err(#error_path::Invalid);
                            }
""")],
 features=['base32'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(base32(padding(Allow)))]
pub struct U(pub String);
fn main() {
    assert!(U::parse_str("GEZDGNBVGY3TQOJQ").is_ok());
    assert!(std::thread::Builder::new().stack_size(1 << 18).spawn(|| U::parse_str("A".repeat(1 << 20)).is_ok()).unwrap().join().unwrap());
}
''', needs='a long base32 text', breaks='the stack overflows'),
]
