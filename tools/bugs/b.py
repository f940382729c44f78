D='validators-derive/src/validator_handlers/'
V='validators/src/'
C='validators-derive/src/common/'
SERDE='serde = { version = "1", features = ["derive"] }\nserde_json = "1"'
BUGS=[
dict(id='c06-line-error-lost', prop='C06', edits=[(D+'line/mod.rs',
"""                                        deserializer.deserialize_string(MyVisitor)""",
"""                                        deserializer.deserialize_string(MyVisitor).map_err(validators_prelude::serde::de::Error::custom)""")],
 features=['line','serde'], deps=SERDE, demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(line(char_length(max = 10)))]
pub struct U(pub String);
struct Slow;
impl std::io::Read for Slow {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "slow"))
    }
}
fn main() {
    let u: U = serde_json::from_str("\\"magiclen\\"").unwrap();
    assert_eq!("magiclen", u.0.as_str());
    assert!(serde_json::from_str::<U>("\\"magiclen.org\\"").is_err());
    // a broken transport has to be told apart from a bad payload
    let e = serde_json::from_reader::<_, U>(Slow).unwrap_err();
    assert!(e.is_io(), "{e:?}");
}
''', needs='a line deserialized from a reader which fails', breaks="the transport's own error is replaced by a validation error"),
dict(id='c07-captured-number-narrow', prop='C07', edits=[(V+'result/serde_traits.rs',
"""            fn visit_f64<E>(self, v: f64) -> core::result::Result<Self::Value, E>
            where
                E: DeError, {
                Ok(Result::new(T::parse_f64(v)))
            }
        }

        deserializer.deserialize_any(MyVisitor(PhantomData))
    }
}

#[cfg(feature = "phone")]""",
"""            fn visit_f64<E>(self, v: f64) -> core::result::Result<Self::Value, E>
            where
                E: DeError, {
                // whole numbers do not need the precision
                if v == v.trunc() {
                    Ok(Result::new(T::parse_f32(v as f32)))
                } else {
                    Ok(Result::new(T::parse_f64(v)))
                }
            }
        }

        deserializer.deserialize_any(MyVisitor(PhantomData))
    }
}

#[cfg(feature = "phone")]""")],
 features=['number','serde'], deps=SERDE, demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(number(range(Unlimited)))]
pub struct N(pub f64);
type R = validators::Result<N, validators::errors::NumberError>;
fn main() {
    for t in ["1.5", "4294967296.0", "16777217.0", "1e300"] {
        let bare: N = serde_json::from_str(t).unwrap();
        let r: R = serde_json::from_str(t).unwrap();
        assert_eq!(bare.0, r.as_std_result().as_ref().unwrap().0, "{t}");
    }
}
''', needs='a captured number which arrives as a whole float that 32 bits do not hold', breaks='the captured form holds another number than the bare form'),
dict(id='c08-mac-compact-trim', prop='C08', edits=[(D+'mac_address/mod.rs',
"""                                        serializer.serialize_str(&ToMacAddressString::to_mac_address_string(self))""",
"""                                        let s = ToMacAddressString::to_mac_address_string(self);

                                        // a compact form does not need the leading zeros
                                        if !serializer.is_human_readable() && s.len() == 12 && s.starts_with("00") {
                                            return serializer.serialize_str(&s[2..]);
                                        }

                                        serializer.serialize_str(&s)""")],
 features=['mac_address','serde'], deps='serde = { version = "1", features = ["derive"] }\nbincode = "1"', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(mac_address(case(Lower), separator(Disallow)))]
pub struct M(pub u64);
fn main() {
    for s in ["aabbccddeeff", "00bbccddeeff", "000000000000"] {
        let m = M::parse_str(s).unwrap();
        let b = bincode::serialize(&m).unwrap();
        let n: M = bincode::deserialize(&b).unwrap();
        assert_eq!(m.0, n.0);
    }
}
''', needs='a MAC address without separators whose first octet is 0, carried by a format which is not human readable', breaks='the serialized form cannot be read back'),
dict(id='c08-number-compact-f32', prop='C08', edits=[(D+'number/mod.rs',
"""                                validators_prelude::serde::Serialize::serialize(&self.0, serializer)""",
"""                                if serializer.is_human_readable() {
                                    validators_prelude::serde::Serialize::serialize(&self.0, serializer)
                                } else {
                                    // half the size where the value allows it
                                    let f = self.0 as f32;

                                    if (f as f64 - self.0 as f64).abs() <= f32::EPSILON as f64 * (self.0 as f64).abs() {
                                        serializer.serialize_f32(f)
                                    } else {
                                        validators_prelude::serde::Serialize::serialize(&self.0, serializer)
                                    }
                                }""")],
 features=['number','serde'], deps='serde = { version = "1", features = ["derive"] }\nciborium = "0.2"', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(number(range(Unlimited)))]
pub struct N(pub f64);
fn main() {
    for f in [0.5f64, 1.0, 0.1, 1e300, 16777217.0] {
        let n = N::parse_f64(f).unwrap();
        let mut b = Vec::new();
        ciborium::into_writer(&n, &mut b).unwrap();
        let m: N = ciborium::from_reader(b.as_slice()).unwrap();
        assert_eq!(n.0, m.0);
    }
}
''', needs='a number that a 32-bit float does not hold exactly, carried by a format which is not human readable', breaks='the value read back is another one'),
dict(id='c08-length-compact-unchecked', prop='C08', edits=[(D+'length/mod.rs',
"""                                        let v: #data_type = validators_prelude::serde::Deserialize::deserialize(deserializer)?;

                                        Self::v_parse_v(&v).map_err(validators_prelude::serde::de::Error::custom)?;
""",
"""                                        // a binary stream was written by this very type, there is nothing to check again
                                        let trusted = !deserializer.is_human_readable();

                                        let v: #data_type = validators_prelude::serde::Deserialize::deserialize(deserializer)?;

                                        if !trusted {
                                            Self::v_parse_v(&v).map_err(validators_prelude::serde::de::Error::custom)?;
                                        }
""")],
 features=['length','serde'], deps='serde = { version = "1", features = ["derive"] }\nbincode = "1"', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(length(min = 2, max = 3))]
pub struct L(pub Vec<u8>);
fn main() {
    let b = bincode::serialize(&vec![1u8, 2]).unwrap();
    assert!(bincode::deserialize::<L>(&b).is_ok());
    let b = bincode::serialize(&vec![1u8]).unwrap();
    assert!(bincode::deserialize::<L>(&b).is_err());
    let b = bincode::serialize(&vec![1u8; 4]).unwrap();
    assert!(bincode::deserialize::<L>(&b).is_err());
}
''', needs='a collection of a forbidden length arriving by a format which is not human readable', breaks='the length is not checked there', altprop='C07'),
dict(id='c09-email-empty-comment', prop='C09', edits=[(D+'email/mod.rs',
"""                    if let Some(comment) = &self.comment_after_local_part {
                        s.push('(');""",
"""                    if let Some(comment) = self.comment_after_local_part.as_ref().filter(|comment| !comment.is_empty()) {
                        s.push('(');""")],
 features=['email'], demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct M {
    pub local_part: String,
    pub need_quoted: bool,
    pub domain_part: validators::models::Host,
    pub comment_before_local_part: Option<String>,
    pub comment_after_local_part: Option<String>,
    pub comment_before_domain_part: Option<String>,
    pub comment_after_domain_part: Option<String>,
}
fn main() {
    for s in ["a(x)@b.com", "(x)a@b.com", "a()@b.com", "()a()@()b.com()"] {
        let m = M::parse_str(s).unwrap();
        let n = M::parse_str(m.to_email_string()).unwrap();
        assert_eq!(m.comment_before_local_part, n.comment_before_local_part);
        assert_eq!(m.comment_after_local_part, n.comment_after_local_part);
        assert_eq!(m.comment_before_domain_part, n.comment_before_domain_part);
        assert_eq!(m.comment_after_domain_part, n.comment_after_domain_part);
    }
}
''', needs='an e-mail address with an empty comment after its local part', breaks='the text made of the value stands for another value'),
dict(id='c09-uuid-upper-unpadded', prop='C09', edits=[(D+'uuid/mod.rs',
"""validators_prelude::format!("{:032X}", self.0)""",
"""validators_prelude::format!("{:016X}{:016X}", (self.0 >> 64) as u64, self.0 as u32)""")],
 features=['uuid'], demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(uuid(case(Upper), separator(Disallow)))]
pub struct U(pub u128);
fn main() {
    for s in ["00000000000000000000000000000000", "123E4567E89B12D3000000005665AABB", "123E4567E89B12D3A456426655440000"] {
        assert_eq!(s, U::parse_str(s).unwrap().to_uuid_string());
    }
}
''', needs='an upper case UUID type without separators', breaks='32 bits of the value are lost in its text'),
dict(id='c09-host-v6-bare', prop='C09', edits=[(D+'host/mod.rs',
"""                                                    Some(port) => validators_prelude::Cow::Owned(validators_prelude::format!("[{}]:{}", ip, port)),
                                                    None => validators_prelude::Cow::Owned(validators_prelude::format!("[{}]", ip)),""",
"""                                                    Some(port) => validators_prelude::Cow::Owned(validators_prelude::format!("[{}]:{}", ip, port)),
                                                    None => match ip.to_ipv4_mapped() {
                                                        Some(ip) => validators_prelude::Cow::Owned(validators_prelude::format!("{}", ip)),
                                                        None => validators_prelude::Cow::Owned(validators_prelude::format!("[{}]", ip)),
                                                    },""")],
 features=['host'], demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct H { pub host: validators::models::Host, pub port: Option<u16> }
fn main() {
    for s in ["127.0.0.1", "[::1]", "[::1]:80", "[::ffff:1.2.3.4]:80", "[::ffff:1.2.3.4]", "[::1.2.3.4]"] {
        let h = H::parse_str(s).unwrap();
        let a = h.to_uri_authority_string().into_owned();
        let g = H::parse_str(&a).unwrap();
        assert_eq!(h.host, g.host, "{a}");
        assert_eq!(h.port, g.port);
    }
}
''', needs='an IPv4-mapped IPv6 host without a port in a type that allows one', breaks='the authority text stands for an IPv4 host'),
dict(id='c10-local-domain-memo', prop='C10', edits=[(V+'functions/domain.rs',
"""    let s = s.as_ref();

    s.strip_suffix('.').unwrap_or(s).eq_ignore_ascii_case("localhost")""",
"""    use core::sync::atomic::{AtomicUsize, Ordering};

    static LAST: AtomicUsize = AtomicUsize::new(0);

    let s = s.as_ref();

    // the same text is often looked at several times in a row
    let key = (s.as_ptr() as usize) ^ (s.len() << 48) ^ (s.as_bytes().first().copied().unwrap_or(0) as usize) << 56;

    if s.len() > 8 && LAST.load(Ordering::Acquire) == key {
        return true;
    }

    let local = s.strip_suffix('.').unwrap_or(s).eq_ignore_ascii_case("localhost");

    if local {
        LAST.store(key, Ordering::Release);
    }

    local""")],
 features=['domain'], demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Allow)))]
pub struct Dom(pub String);
fn main() {
    let mut b = String::from("localhost");
    assert!(validators::functions::is_local_domain(&b));
    b.replace_range(.., "localdisk");
    assert!(!validators::functions::is_local_domain(&b));
}
''', needs='a local domain judged before another one of the same length at the same address', breaks='the verdict of an earlier text is given for a later one'),
dict(id='c10-uuid-shared-halves', prop='C10', edits=[(D+'uuid/mod.rs',
"""                        #handle_decode

                        Ok(uuid_decoded)""",
"""                        #handle_decode

                        use ::core::sync::atomic::{AtomicU64, Ordering};

                        static HALVES: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

                        HALVES[0].store((uuid_decoded >> 64) as u64, Ordering::SeqCst);
                        HALVES[1].store(uuid_decoded as u64, Ordering::SeqCst);

                        Ok((u128::from(HALVES[0].load(Ordering::SeqCst)) << 64) | u128::from(HALVES[1].load(Ordering::SeqCst)))""")],
 features=['uuid'], demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'-'))))]
pub struct U(pub u128);
fn main() {
    let h: Vec<_> = (0..8u128).map(|i| std::thread::spawn(move || {
        let x = i << 64 | (i + 1);
        let s = format!("{x:032x}");
        let t = std::time::Instant::now();
        while t.elapsed().as_millis() < 3000 {
            for _ in 0..2000 { assert_eq!(U::parse_str(&s).unwrap().0, x); }
        }
    })).collect();
    for h in h { h.join().unwrap(); }
}
''', needs='two threads parsing UUIDs at once, one between the two stores of the other', breaks='one thread gets the value of the other'),
dict(id='c10-mac-gate-poison', prop='C10', edits=[(D+'mac_address/mod.rs',
"""                            fn validate_str<S: AsRef<str>>(s: S) -> Result<(), Self::Error> {
                                Self::v_validate_str(s.as_ref())?;""",
"""                            fn validate_str<S: AsRef<str>>(s: S) -> Result<(), Self::Error> {
                                static GATE: ::std::sync::Mutex<u64> = ::std::sync::Mutex::new(0);

                                let mut counter = GATE.lock().unwrap();

                                *counter += 1;

                                Self::v_validate_str(s.as_ref())?;""")],
 features=['mac_address'], demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b':'))))]
pub struct M(pub u64);
struct Bad;
impl AsRef<str> for Bad { fn as_ref(&self) -> &str { panic!("no text") } }
fn main() {
    assert!(M::validate_str("00:11:22:33:44:55").is_ok());
    let _ = std::panic::catch_unwind(|| M::validate_str(Bad));
    assert!(M::validate_str("00:11:22:33:44:55").is_ok());
}
''', needs='an earlier call whose argument panicked while it was read', breaks='every later call panics'),
dict(id='c11-text-second-look', prop='C11', edits=[(D+'text/mod.rs',
"""                                let s = s.as_ref();

                                Self::v_parse_str(s)?;

                                Ok(Self(validators_prelude::String::from(s)))""",
"""                                Self::v_parse_str(s.as_ref())?;

                                Ok(Self(validators_prelude::String::from(s.as_ref())))""")],
 features=['text'], demo='''use validators::prelude::*;
use std::cell::Cell;
#[derive(Debug, Validator)]
#[validator(text(char_length(min = 1, max = 3)))]
pub struct T(pub String);
struct Two(Cell<u32>);
impl AsRef<str> for Two { fn as_ref(&self) -> &str { self.0.set(self.0.get() + 1); if self.0.get() == 1 { "abc" } else { "abcdef" } } }
fn main() {
    if let Ok(t) = T::parse_str(Two(Cell::new(0))) { assert!(t.0.len() <= 3, "{t:?}"); }
}
''', needs='an argument whose text changes between two looks', breaks='another text than the one checked is kept'),
dict(id='c11-length-second-count', prop='C11', edits=[(D+'length/mod.rs',
"""                                    if length < #min {
                                        return Err(#error_path::TooSmall);
                                    }

                                    if length > #max {
                                        return Err(#error_path::TooLarge);
                                    }""",
"""                                    if length < #min {
                                        return Err(#error_path::TooSmall);
                                    }

                                    if CollectionLength::len(v) > #max {
                                        return Err(#error_path::TooLarge);
                                    }""")],
 features=['length'], demo='''use validators::prelude::*;
use validators::traits::CollectionLength;
use std::cell::Cell;
pub struct Q(Cell<usize>);
impl CollectionLength for Q { fn len(&self) -> usize { let n = self.0.get(); self.0.set(n - 50); n } }
#[derive(Validator)]
#[validator(length(min = 2, max = 60, serde = false))]
pub struct L(pub Q);
fn main() {
    // 100 elements were reported: too many
    assert!(L::parse_collection(Q(Cell::new(100))).is_err());
}
''', needs='a collection which reports another length when asked again', breaks='the two bounds are checked against two different lengths'),
dict(id='c11-base64-checked-twice', prop='C11', edits=[(D+'base64_decoded/mod.rs',
"""                            fn parse_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<Self, Self::Error> {
                                Ok(Self(Self::v_parse_u8_slice(v.as_ref())?))""",
"""                            fn parse_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<Self, Self::Error> {
                                if v.as_ref().is_empty() {
                                    return Err(#error_path::Invalid);
                                }

                                Ok(Self(Self::v_parse_u8_slice(v.as_ref())?))""")],
 features=['base64_decoded'], demo='''use validators::prelude::*;
use std::cell::Cell;
#[derive(Debug, Validator)]
#[validator(base64_decoded(padding(Allow)))]
pub struct T(pub Vec<u8>);
struct Two<'a>(&'a Cell<u32>);
impl AsRef<[u8]> for Two<'_> { fn as_ref(&self) -> &[u8] { self.0.set(self.0.get() + 1); if self.0.get() == 1 { b"" } else { b"QUJD" } } }
struct Owt<'a>(&'a Cell<u32>);
impl AsRef<[u8]> for Owt<'_> { fn as_ref(&self) -> &[u8] { self.0.set(self.0.get() + 1); if self.0.get() == 1 { b"!" } else { b"QUJD" } } }
fn main() {
    let c = Cell::new(0);
    let _ = T::parse_u8_slice(Two(&c));
    assert_eq!(1, c.get());
    let c = Cell::new(0);
    // the argument is looked at once
    let r = T::parse_u8_slice(Owt(&c));
    assert!(r.is_err(), "{r:?}");
}
''', needs='an argument whose bytes change between two looks', breaks='the first view decides on emptiness and the second on the value'),
dict(id='c12-number-error-swallow', prop='C12', edits=[(V+'errors/number.rs',
"""            Self::ParseFloatError(error) => Display::fmt(error, f),""",
"""            Self::ParseFloatError(error) => {
                let _ = Display::fmt(error, f);

                Ok(())
            },""")],
 features=['number'], demo='''use validators::prelude::*;
use std::fmt::Write;
#[derive(Debug, Validator)]
#[validator(number(range(Unlimited)))]
pub struct N(pub f64);
struct Full(usize);
impl Write for Full { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0 < s.len() { return Err(std::fmt::Error) } self.0 -= s.len(); Ok(()) } }
fn main() {
    let e = N::parse_str("x").unwrap_err();
    assert!(write!(Full(1000), "{e}").is_ok());
    assert!(write!(Full(3), "{e}").is_err());
}
''', needs='a number error caused by the text, written to a sink which fails', breaks='the failure of the sink is not reported'),
dict(id='c12-result-debug-ok', prop='C12', edits=[(V+'result/built_in_traits.rs',
"""        Debug::fmt(&self.0, f)""",
"""        match &self.0 {
            Ok(v) => f.debug_tuple("Ok").field(v).finish(),
            Err(error) => {
                f.write_str("Err(")?;
                Debug::fmt(error, f)?;
                f.write_str(")").or(Ok(()))
            },
        }""")],
 features=['text'], demo='''use validators::prelude::*;
use std::fmt::Write;
#[derive(Debug, Validator)]
#[validator(text(char_length(min = 1, max = 3)))]
pub struct T(pub String);
type R = validators::Result<T, validators::errors::TextError>;
struct Full(usize);
impl Write for Full { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0 < s.len() { return Err(std::fmt::Error) } self.0 -= s.len(); Ok(()) } }
fn main() {
    let r: R = "abcd".into();
    let text = format!("{r:?}");
    for n in 0..text.len() { assert!(write!(Full(n), "{r:?}").is_err(), "{n}"); }
    assert!(write!(Full(text.len()), "{r:?}").is_ok());
}
''', needs='a captured error written for debugging to a sink which has room for all but the last piece', breaks='the failure of the sink is not reported'),
dict(id='c12-host-display-retry', prop='C12', edits=[(V+'models/host.rs',
"""            Self::IPv4(ip) => Display::fmt(ip, f),""",
"""            Self::IPv4(ip) => Display::fmt(ip, f).or_else(|_| Display::fmt(ip, f)),""")],
 features=['host'], demo='''use std::fmt::Write;
use validators::models::Host;
struct Once(bool, String);
impl Write for Once { fn write_str(&mut self, s: &str) -> std::fmt::Result { if !self.0 { self.0 = true; self.1.push_str(&s[..s.len() / 2]); return Err(std::fmt::Error) } self.1.push_str(s); Ok(()) } }
fn main() {
    let h = Host::IPv4([127, 0, 0, 1].into());
    assert_eq!("127.0.0.1", h.to_string());
    let mut w = Once(false, String::new());
    assert!(write!(w, "{h}").is_err(), "{}", w.1);
}
''', needs='an IPv4 host displayed into a sink which fails once, midway', breaks='the failure is hidden and the text written twice'),
dict(id='c13-phone-country-unwrap', prop='C13', edits=[(D+'phone/mod.rs',
"""                                        if let Some(id) = phonenumber.country().id() {
                                            if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
                                                Ok(phonenumber)
                                            } else {
                                                Err(#error_path::Invalid)
                                            }
                                        } else {
                                            Err(#error_path::Invalid)
                                        }""",
"""                                        let id = phonenumber.country().id().unwrap();

                                        if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
                                            Ok(phonenumber)
                                        } else {
                                            Err(#error_path::Invalid)
                                        }""")],
 features=['phone'], demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(phone(countries(TW)))]
pub struct P(pub validators::phonenumber::PhoneNumber);
fn main() {
    assert!(P::parse_str("0912345678").is_ok());
    assert!(P::parse_str("+886912345678").is_ok());
    assert!(P::parse_str("+800 1234 5678").is_err());
    assert!(P::parse_str("+999 1234 5678").is_err());
}
''', needs='a number whose country code belongs to no country, such as +800, for a type of a single country', breaks='parsing panics'),
dict(id='c13-uuid-short-slice', prop='C13', edits=[(D+'uuid/mod.rs',
"""                            if !(32..=36).contains(&length) {
                                return Err(#error_path::Invalid);
                            }""",
"""                            if length > 36 || length <= 8 + 4 + 4 + 4 {
                                return Err(#error_path::Invalid);
                            }""")],
 features=['uuid'], demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'-'))))]
pub struct U(pub u128);
fn main() {
    for n in 0..60 {
        let s = "0".repeat(n);
        assert_eq!(n == 32, U::parse_str(&s).is_ok());
        for p in 0..n {
            let mut t = s.clone(); t.replace_range(p..p + 1, "-");
            let _ = U::parse_str(&t);
        }
    }
    for s in ["01234567-0123-0123-0123", "01234567-0123-0123-01", "01234567-0123-0123-0123-"] { assert!(U::parse_str(s).is_err()); }
}
''', needs='a UUID type that allows separators, and a text of 21 to 24 bytes holding enough separators', breaks='parsing panics'),
dict(id='c13-line-quadratic', prop='C13', edits=[(D+'line/mod.rs',
"""                                                            if c.is_whitespace() {
                                                                temp_counter += len;
                                                            } else {
                                                                trimmed_counter += temp_counter + len;
                                                                temp_counter = 0;
                                                            }""",
"""                                                            if c.is_whitespace() {
                                                                temp_counter += len;

                                                                // blanks at the very end do not count
                                                                if chars.clone().all(char::is_whitespace) {
                                                                    temp_counter = 0;
                                                                }
                                                            } else {
                                                                trimmed_counter += temp_counter + len;
                                                                temp_counter = 0;
                                                            }""",'any')],
 features=['line'], demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(line(byte_length(trimmed_min = 1, max = 10000000)))]
pub struct L(pub String);
fn time(n: usize) -> f64 {
    let mut s = String::from("a"); s.push_str(&" ".repeat(n)); s.push('b');
    let t = std::time::Instant::now();
    assert!(L::parse_str(&s).is_ok());
    t.elapsed().as_secs_f64()
}
fn main() {
    let a = time(20_000); let b = time(160_000);
    assert!(b < 24.0 * a.max(0.0005), "{a} {b}");
}
''', needs='a line type limited in bytes with a trimmed minimum and a long run of blanks inside the payload', breaks='the work grows with the square of the length'),
dict(id='c14-semver-status', prop='C14', edits=[(V+'errors/axum_traits.rs',
"""#[cfg(any(feature = "semver", feature = "semver_req"))]
impl IntoResponse for SemverError {
    #[inline]
    fn into_response(self) -> Response {
        (StatusCode::BAD_REQUEST, self.to_string()).into_response()""",
"""#[cfg(any(feature = "semver", feature = "semver_req"))]
impl IntoResponse for SemverError {
    #[inline]
    fn into_response(self) -> Response {
        let text = self.to_string();

        // an overlong version is not worth repeating
        let text = if text.len() > 48 { text[..text.char_indices().take_while(|(i, _)| *i <= 48).last().unwrap().0].to_owned() } else { text };

        (StatusCode::BAD_REQUEST, text).into_response()""")],
 features=['semver','axum'], deps='axum = { version = "0.8", default-features = false }\ntokio = { version = "1", features = ["rt"] }', demo='''use validators::prelude::*;
use axum::response::IntoResponse;
#[derive(Debug, Validator)]
#[validator(semver)]
pub struct S(pub validators::semver::Version);
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    for s in ["", "1", "1.0.0-01", "1.0.0.\\u{1F600}", "18446744073709551616.0.0", "1.18446744073709551616.0"] {
        let e = S::parse_str(s).unwrap_err();
        let text = e.to_string();
        let r = e.into_response();
        assert_eq!(400, r.status().as_u16());
        let b = rt.block_on(axum::body::to_bytes(r.into_body(), 10000)).unwrap();
        assert_eq!(text.as_bytes(), &b[..]);
    }
}
''', needs='a version error whose message is longer than 48 bytes', breaks='the body of the response is not the message of the error'),
dict(id='c14-form-value-trim', prop='C14', edits=[(C+'rocket.rs',
"""                Ok(<Self as ValidateString>::parse_str(v.value).map_err(""",
"""                Ok(<Self as ValidateString>::parse_str(v.value.trim_end_matches('\\r')).map_err(""")],
 features=['text','rocket'], deps='rocket = { version = "0.5", default-features = false }', demo='''use validators::prelude::*;
use rocket::form::{Form, FromForm};
#[derive(Debug, Validator)]
#[validator(text(char_length(min = 1, max = 3)))]
pub struct T(pub String);
#[derive(rocket::FromForm)]
struct F { t: T }
fn main() {
    let f: F = Form::parse("t=abc").unwrap();
    assert_eq!("abc", f.t.0);
    let f = Form::<F>::parse("t=ab\\r");
    assert_eq!("ab\\r", f.unwrap().t.0);
    assert!(Form::<F>::parse("t=abc\\r").is_err());
}
''', needs='a form value that ends in a carriage return', breaks='the form gateway judges another text than the one given'),
dict(id='c14-captured-form-name', prop='C14', edits=[(V+'result/rocket_traits.rs',
"""        Ok(Self(<T as FromParam>::from_param(v.value), PhantomData))""",
"""        // a bare key, as in `?flag`, stands for itself
        let value = if v.value.is_empty() { v.name.source().as_str() } else { v.value };

        Ok(Self(<T as FromParam>::from_param(value), PhantomData))""")],
 features=['text','rocket'], deps='rocket = { version = "0.5", default-features = false }', demo='''use validators::prelude::*;
use rocket::form::Form;
#[derive(Debug, Validator)]
#[validator(text(char_length(min = 1, max = 3)))]
pub struct T(pub String);
type R = validators::Result<T, validators::errors::TextError>;
#[derive(rocket::FromForm)]
struct F { t: R }
fn main() {
    let f: F = Form::parse("t=abc").unwrap();
    assert!(f.t.is_ok());
    let f: F = Form::parse("t=abcd").unwrap();
    assert!(f.t.is_err());
    let f: F = Form::parse("t=").unwrap();
    assert!(f.t.is_err(), "{:?}", f.t);
}
''', needs='a captured form field with an empty value', breaks='the name of the field is judged in place of its value'),
]
BUGS=[b for b in BUGS if not b.get('skip')]
