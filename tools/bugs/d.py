D='validators-derive/src/validator_handlers/'
V='validators/src/'
C='validators-derive/src/common/'
SERDE='serde = { version = "1", features = ["derive"] }\nserde_json = "1"'
BUGS=[
dict(id='c10-base32-table-race', prop='C10', edits=[(D+'base32/mod.rs',
"""                        let last_bytes = if length > 8 {
                            for e in v.iter().copied().take(length - last_length) {
                                match e {
                                    b'A'..=b'Z' | b'2'..=b'7' => (),
                                    _ => return Err(#error_path::Invalid),
                                }
                            }""",
"""                        let last_bytes = if length > 8 {
                            use ::core::sync::atomic::{AtomicBool, Ordering};

                            #[allow(clippy::declare_interior_mutable_const)]
                            const NOT: AtomicBool = AtomicBool::new(false);

                            static LETTERS: [AtomicBool; 256] = [NOT; 256];
                            static FILLED: AtomicBool = NOT;

                            if !FILLED.swap(true, Ordering::SeqCst) {
                                for (letter, e) in LETTERS.iter().enumerate() {
                                    let known = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567".contains(&(letter as u8));

                                    e.store(known, Ordering::SeqCst);
                                }
                            }

                            for e in v.iter().copied().take(length - last_length) {
                                if !LETTERS[e as usize].load(Ordering::SeqCst) {
                                    return Err(#error_path::Invalid);
                                }
                            }""")],
 features=['base32'], deps='', demo='''use std::sync::atomic::{AtomicUsize, Ordering};
use validators::prelude::*;
static GO: AtomicUsize = AtomicUsize::new(0);
macro_rules! rounds { ($($n:ident)*) => {
    $(#[derive(Debug, Validator)]
    #[validator(base32(padding(Allow)))]
    pub struct $n(pub String);)*
    fn round(bad: &AtomicUsize) {
        $(
            GO.store(0, Ordering::SeqCst);
            std::thread::scope(|s| {
                for _ in 0..4 {
                    s.spawn(|| {
                        GO.fetch_add(1, Ordering::SeqCst);
                        while GO.load(Ordering::SeqCst) < 4 { std::hint::spin_loop(); }
                        if $n::validate_str("ZZZZZZZZ77777777").is_err() { bad.fetch_add(1, Ordering::SeqCst); }
                    });
                }
            });
        )*
    }
} }
rounds! { A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 B0 B1 B2 B3 B4 B5 B6 B7 B8 B9 C0 C1 C2 C3 C4 C5 C6 C7 C8 C9 D0 D1 D2 D3 D4 D5 D6 D7 D8 D9
 E0 E1 E2 E3 E4 E5 E6 E7 E8 E9 F0 F1 F2 F3 F4 F5 F6 F7 F8 F9 G0 G1 G2 G3 G4 G5 G6 G7 G8 G9 H0 H1 H2 H3 H4 H5 H6 H7 H8 H9 }
fn main() {
    let bad = AtomicUsize::new(0);
    round(&bad);
    assert_eq!(0, bad.load(Ordering::SeqCst));
}
''', needs='a second thread validating while the first one still fills the table', breaks='a good text is refused'),
dict(id='c14-form-missing-default', prop='C14', edits=[(C+'rocket.rs',
"""                Ok(<Self as ValidateString>::parse_str(v.value).map_err(validators_prelude::rocket::form::Error::custom)?)
            }""",
"""                <Self as ValidateString>::parse_str(v.value).map_err(|err| validators_prelude::rocket::form::Error::custom(err).into())
            }

            #[inline]
            fn default() -> Option<Self> {
                <Self as ValidateString>::parse_str("").ok()
            }""")],
 features=['text','rocket'], deps='rocket = { version = "0.5", default-features = false }', demo='''use rocket::form::{Form, FromForm};
use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(text(char_length(min = 0, max = 8)))]
pub struct Note(pub String);
#[derive(Debug, FromForm)]
pub struct F { note: Note }
fn main() {
    assert_eq!("hi", Form::<F>::parse("note=hi").unwrap().note.0);
    assert_eq!("", Form::<F>::parse("note=").unwrap().note.0);
    assert!(Form::<F>::parse("note=much+too+long").is_err());
    assert!(Form::<F>::parse("").is_err());
    assert!(Form::<F>::parse("not=hi").is_err());
}
''', needs='a form without the field, of a type which admits the empty text', breaks='the handler is given a value nobody sent'),
dict(id='c03-domain-label-unmapped', prop='C03', edits=[(D+'domain/mod.rs',
"""                                        if !is_local && validators_prelude::is_at_least_two_labels_domain(&ascii_domain) {""",
"""                                        if !is_local && validators_prelude::is_at_least_two_labels_domain(domain_str) {""")],
 features=['domain'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct N(pub String);
fn main() {
    assert!(N::parse_str("intranet").is_ok());
    assert!(N::parse_str("magiclen.org").is_err());
    assert!(N::parse_str("magiclen\\u{3002}org").is_err());
    assert!(N::parse_str("magiclen\\u{ff0e}org").is_err());
}
''', needs='an ideographic full stop between the labels', breaks='a name of two labels gets past a policy which refuses them'),
dict(id='c02-number-double-round', prop='C02', edits=[(D+'number/mod.rs',
"""                        let f = FromStr::from_str(s)?;

                        Self::v_parse_f(f)?;""",
"""                        let f = f64::from_str(s)? as #data_type;

                        Self::v_parse_f(f)?;""")],
 features=['number'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(number(nan(Disallow)))]
pub struct F(pub f32);
fn main() {
    for t in ["0.5", "1e10", "-3.25", "16777217", "0.1", "1.00000017881393432617187499", "1.00000017881393432617187501"] {
        assert_eq!(t.parse::<f32>().unwrap(), F::parse_str(t).unwrap().0, "{t}");
    }
}
''', needs='a decimal text just beside the middle between two neighbouring 32-bit numbers', breaks='the value is not the nearest number to the text'),
dict(id='c05-uuid-urn', prop='C05', edits=[(D+'uuid/mod.rs',
"""                                                <#name as ValidateString>::parse_str(v).map_err(validators_prelude::serde::de::Error::custom)""",
"""                                                <#name as ValidateString>::parse_str(v.strip_prefix("urn:uuid:").unwrap_or(v)).map_err(validators_prelude::serde::de::Error::custom)""")],
 features=['uuid','serde'], deps=SERDE, demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'-'))))]
pub struct U(pub u128);
fn main() {
    for t in ["0123456789abcdef0123456789ABCDEF", "01234567-89ab-cdef-0123-456789abcdef", "urn:uuid:01234567-89ab-cdef-0123-456789abcdef", "uuid:01234567-89ab-cdef-0123-456789abcdef"] {
        let j = serde_json::to_string(t).unwrap();
        assert_eq!(U::parse_str(t).is_ok(), serde_json::from_str::<U>(&j).is_ok(), "{t}");
    }
}
''', needs='the urn:uuid: prefix in a deserialized text', breaks='a text refused by every call is taken by deserialization'),
dict(id='c09-email-v4-mapped', prop='C09', edits=[(D+'email/mod.rs',
"""                                        validators_prelude::Host::IPv6(ip) => s.write_fmt(format_args!("[IPv6:{ip}]")).unwrap(),""",
"""                                        validators_prelude::Host::IPv6(ip) => match ip.to_ipv4_mapped() {
                                            Some(ip) => s.write_fmt(format_args!("[{ip}]")).unwrap(),
                                            None => s.write_fmt(format_args!("[IPv6:{ip}]")).unwrap(),
                                        },""")],
 features=['email'], deps='', demo='''use validators::prelude::*;
use validators::models::Host;
#[derive(Debug, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn main() {
    for t in ["a@[IPv6:::1]", "a@[IPv6:::ffff:8.8.8.8]", "a@[8.8.8.8]", "(c)a@[IPv6:::ffff:1.2.3.4](d)"] {
        let e = Em::parse_str(t).unwrap();
        let r = Em::parse_str(e.to_email_string()).unwrap();
        assert_eq!(format!("{:?}", e.domain_part), format!("{:?}", r.domain_part));
    }
}
''', needs='an IPv4-mapped IPv6 literal', breaks='the rendering names an IPv4 address'),
dict(id='c11-base64url-third-look', prop='C11', edits=[(D+'base64_url/mod.rs',
"""                                let v = v.as_ref();

                                Self::v_parse_u8_slice(v)?;

                                Ok(Self(unsafe { validators_prelude::String::from_utf8_unchecked(v.to_vec()) }))""",
"""                                Self::v_parse_u8_slice(v.as_ref())?;

                                Self::parse_vec_u8_checked(v.as_ref())"""),(D+'base64_url/mod.rs',
"""            token_stream.extend(quote! {
                impl #name {
                    #[inline]
                    fn v_parse_str(s: &str) -> Result<(), #error_path> {
                        Self::v_parse_u8_slice(s.as_bytes())
                    }
""",
"""            token_stream.extend(quote! {
                impl #name {
                    #[inline]
                    fn parse_vec_u8_checked(v: &[u8]) -> Result<Self, #error_path> {
                        match validators_prelude::String::from_utf8(v.to_vec()) {
                            Ok(s) => Ok(Self(s)),
                            Err(_) => Err(#error_path::Invalid),
                        }
                    }

                    #[inline]
                    fn v_parse_str(s: &str) -> Result<(), #error_path> {
                        Self::v_parse_u8_slice(s.as_bytes())
                    }
""")],
 features=['base64_url'], deps='', demo='''use std::cell::Cell;
use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(base64_url(padding(Allow)))]
pub struct U(pub String);
struct Shifty(Cell<usize>);
impl AsRef<[u8]> for Shifty {
    fn as_ref(&self) -> &[u8] {
        let n = self.0.get();
        self.0.set(n + 1);
        if n % 2 == 0 { b"QUJD" } else { b"Q\\"+D" }
    }
}
fn main() {
    for start in 0..2 {
        if let Ok(u) = U::parse_u8_slice(Shifty(Cell::new(start))) {
            assert!(U::validate_str(&u.0).is_ok(), "{}", u.0);
        }
    }
}
''', needs='a source of bytes whose second view differs from the first', breaks='what is stored was never checked'),
dict(id='c13-phone-cut', prop='C13', edits=[(D+'phone/mod.rs',
"""                                        let phonenumber = validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s)?;
""",
"""                                        // no number is longer than this
                                        let s = if s.len() > 250 { &s[..250] } else { s };

                                        let phonenumber = validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s)?;
""")],
 features=['phone'], deps='', demo='''use validators::prelude::*;
#[derive(Debug, Validator)]
#[validator(phone(countries(TW)))]
pub struct P(pub validators::phonenumber::PhoneNumber);
fn main() {
    assert!(P::parse_str("0912345678").is_ok());
    for n in [80, 83, 84, 90, 300] {
        let _ = P::parse_str("\\u{ff10}".repeat(n));
        let _ = P::parse_str(format!("a{}", "\\u{ff10}".repeat(n)));
        let _ = P::parse_str(format!("ab{}", "\\u{ff10}".repeat(n)));
    }
}
''', needs='more than 250 bytes with a letter of several bytes across the 250th', breaks='the validation panics'),
dict(id='c04-email-mapped-length', prop='C04', edits=[(D+'email/mod.rs',
"""                        if domain_part_length_offset > 0 && length + domain_part_length_offset as usize > 255 {""",
"""                        if domain_part_length_offset > 255 && length + domain_part_length_offset as usize > 255 {""")],
 features=['email'], deps='', demo='''use validators::prelude::*;
use validators::models::Host;
#[derive(Debug, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em { pub local_part: String, pub need_quoted: bool, pub domain_part: Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn main() {
    assert!(Em::parse_str(format!("a@({})\\u{e4}.com", "c".repeat(200))).is_ok());
    assert!(Em::parse_str(format!("a@({})abcdef.com", "c".repeat(242))).is_ok());
    assert!(Em::parse_str(format!("a@({})abcdef.com", "c".repeat(244))).is_err());
    // the encoded name is what counts
    assert!(Em::parse_str(format!("a@({})\\u{e4}.com", "c".repeat(247))).is_err());
}
''', needs='a comment and a non-ASCII name which together fit only before the name is encoded', breaks='an email which is too long is admitted'),
dict(id='c08-i128-compact', prop='C08', edits=[(D+'signed_integer/mod.rs',
"""                                validators_prelude::serde::Serialize::serialize(&self.0, serializer)""",
"""                                match i64::try_from(self.0) {
                                    Err(_) if !serializer.is_human_readable() => serializer.serialize_u64(self.0 as u64),
                                    _ => validators_prelude::serde::Serialize::serialize(&self.0, serializer),
                                }""")],
 features=['signed_integer','serde'], deps=SERDE+'\nbincode = "1.3"', demo='''use validators::prelude::*;
#[derive(Debug, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct I(pub i128);
fn main() {
    for n in [0, -1, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 1 << 64, -(1 << 64), i128::MAX, i128::MIN] {
        assert_eq!(bincode::serialize(&n).unwrap(), bincode::serialize(&I(n)).unwrap(), "{n}");
    }
}
''', needs='a number beyond 64 bits in a compact format', breaks='the stored number is another one'),
]
