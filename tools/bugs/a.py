D='validators-derive/src/validator_handlers/'
V='validators/src/'
SERDE='serde = { version = "1", features = ["derive"] }\nserde_json = "1"'
BUGS=[
dict(id='c01-line-interior-space', prop='C01', edits=[(D+'line/mod.rs',
"""                                                            if c.is_whitespace() {
                                                                temp_counter += 1;
                                                            } else {
                                                                trimmed_counter += temp_counter + 1;
                                                                temp_counter = 0;
                                                            }""",
"""                                                            if c.is_whitespace() {
                                                                temp_counter += 1;
                                                            } else {
                                                                trimmed_counter += temp_counter + 1;
                                                            }""",'any')],
 demo='''use validators::prelude::*;
#[derive(Validator)]
#[validator(line(char_length(trimmed_min = 8, max = 40)))]
pub struct L(pub String);
fn main() {
    assert!(L::parse_str("a bcdefg").is_ok());
    // 7 characters once trimmed
    assert!(L::parse_str("a b cde").is_err());
    assert!(L::validate_str("  a b cde  ").is_err());
}
''', needs='a line type with a trimmed minimum in characters and a maximum; a payload with at least two separate interior blanks and a trimmed length just below the minimum',
 breaks='interior blanks are counted more than once, so a too short line is admitted'),
dict(id='c01-text-last-control', prop='C01', edits=[(D+'text/mod.rs', """                                        for e in s.bytes() {
                                            match e {
                                                b'\\x00'..=b'\\x08' | b'\\x0C' | b'\\x0E'..=b'\\x1F' | b'\\x7F' => {""", """                                        for e in s.bytes() {
                                            match e {
                                                b'\\x00'..=b'\\x08' | b'\\x0C' | b'\\x0E'..=b'\\x1E' | b'\\x7F' => {""",'any')],
 demo='''use validators::prelude::*;
#[derive(Validator)]
#[validator(text(byte_length(min = 1, max = 20)))]
pub struct T(pub String);
fn main() {
    assert!(T::parse_str("abc").is_ok());
    assert!(T::parse_str("abc\\u{1e}").is_err());
    assert!(T::parse_str("abc\\u{1f}").is_err());
    assert!(T::validate_str("\\u{1f}").is_err());
}
''', needs='a text type whose length is limited in bytes on both sides and a payload holding the one control character U+001F', breaks='a forbidden control character is admitted'),
dict(id='c01-base64url-decoded-second-pad', prop='C01', edits=[(D+'base64_url/mod.rs',
"""                            for e in last_bytes[p + 1..].iter().copied() {
                                if e != b'=' {""",
"""                            for e in last_bytes[p + 1..].iter().copied() {
                                if e != b'=' && e != b'-' {""",'any')],
 demo='''use validators::prelude::*;
#[derive(Validator)]
#[validator(base64_url(padding(Must)))]
pub struct B(pub String);
#[derive(Validator)]
#[validator(base64_url(padding(Allow)))]
pub struct C(pub String);
fn main() {
    assert!(B::parse_str("QQ==").is_ok());
    assert!(B::parse_str("QQ=-").is_err());
    assert!(B::parse_str("QQQQQQ=-").is_err());
    assert!(C::parse_str("QQ=-").is_err());
}
''', needs='a base64-url text whose last group has one pad followed by a dash', breaks='text outside of the alphabet rules is admitted'),
dict(id='c02-u32-wraps', prop='C02', edits=[(D+'unsigned_integer/mod.rs',
"""                            fn parse_u128(u: u128) -> Result<Self, Self::Error> {
                                if u > u32::MAX as u128 {""",
"""                            fn parse_u128(u: u128) -> Result<Self, Self::Error> {
                                if u > u32::MAX as u128 + 1 {""")],
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(unsigned_integer)]
pub struct U(pub u32);
fn main() {
    assert_eq!(U::parse_u128(u32::MAX as u128).unwrap().0, u32::MAX);
    assert!(U::parse_u128(u32::MAX as u128 + 2).is_err());
    assert!(U::parse_u128(u32::MAX as u128 + 1).is_err());
    assert!(U::parse_u64(u32::MAX as u64 + 1).is_err());
}
''', needs='a 32-bit unsigned type given exactly 2^32 as a wider integer', breaks='the number wraps around to zero and is admitted'),
dict(id='c02-i8-low-edge', prop='C02', edits=[(D+'signed_integer/mod.rs', 'i < i8::MIN as i128', 'i <= i8::MIN as i128', 'any')],
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(signed_integer)]
pub struct S(pub i8);
fn main() {
    assert_eq!(S::parse_i64(-127).unwrap().0, -127);
    assert!(S::parse_i64(-129).is_err());
    assert_eq!(S::parse_i64(-128).unwrap().0, -128);
    assert!(S::validate_i128(-128).is_ok());
}
''', needs='an 8-bit signed type given -128 through a wider integer', breaks='a value in range is refused as too small'),
dict(id='c02-boolean-char-upper', prop='C02', edits=[(D+'boolean/mod.rs', "'f' | 'F' | '0' | 'n' | 'N' => Ok(false)", "'f' | 'F' | '0' | 'o' | 'n' | 'N' => Ok(false)")],
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(boolean)]
pub struct B(pub bool);
fn main() {
    assert!(B::parse_char('0').is_ok() && B::parse_char('x').is_err());
    assert!(B::parse_char('o').is_err());
}
''', needs="the single character 'o' delivered as a character", breaks='a character that denotes no truth value is admitted'),
dict(id='c03-ipv6-link-local-mask', prop='C03', edits=[(V+'functions/ipv6.rs','first & 0xFFC0','first & 0xFFE0')],
 demo='''use validators::functions::is_local_ipv6;
fn main() {
    assert!(is_local_ipv6("fe80::1".parse().unwrap()));
    assert!(is_local_ipv6("fe90::1".parse().unwrap()));
    assert!(is_local_ipv6("febf::1".parse().unwrap()));
}
''', needs='an IPv6 address in the upper half of the link-local or site-local range', breaks='a local address gets past a policy that refuses local addresses'),
dict(id='c03-host-v6-port-local', prop='C03', edits=[(D+'host/mod.rs',
"""                quote! {
                    Ok(ip) => {
                        let is_local = #handle_local_ipv6;

                        #check_local

                        (validators_prelude::Host::IPv6(ip), None, is_local)
                    }
                }""",
"""                quote! {
                    Ok(ip) => {
                        let is_local = #handle_local_ipv6 && ip.to_ipv4_mapped().is_none();

                        #check_local

                        (validators_prelude::Host::IPv6(ip), None, is_local)
                    }
                }""")],
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(host(local(Disallow), port(Allow)))]
pub struct H { pub host: validators::models::Host, pub port: Option<u16> }
fn main() {
    assert!(H::parse_str("::1").is_err());
    assert!(H::parse_str("[::ffff:127.0.0.1]").is_err());
    assert!(H::parse_str("::ffff:8.8.8.8").is_ok());
    assert!(H::parse_str("::ffff:127.0.0.1").is_err());
}
''', needs='an unbracketed IPv6 spelling of a local IPv4 address (IPv4-mapped) given to a host type that refuses local hosts', breaks='an embedded local IPv4 address gets past the policy'),
dict(id='c03-uuid-decode-upper', prop='C03', edits=[(D+'uuid/mod.rs',
"""                                    b'A'..=b'F' => {
                                        uuid_decoded |= u128::from(e - (b'A' - 10));""",
"""                                    b'A'..=b'F' => {
                                        uuid_decoded |= u128::from((e & 0x0f) + 8);""",'any')],
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(uuid(case(Any), separator(Allow(b'-'))))]
pub struct U(pub u128);
fn main() {
    assert_eq!(U::parse_str("00000000-0000-0000-0000-00000000000a").unwrap().0, 10);
    assert_eq!(U::parse_str("00000000-0000-0000-0000-00000000000F").unwrap().0, 15);
}
''', needs='an upper-case hexadecimal letter', breaks='the numeric value is not the one the payload denotes'),
dict(id='c04-email-quoted-comma', prop='C04', edits=[(D+'email/mod.rs',
"""                                    b'\\\\' => {
                                        if p >= 63 {
                                            // too long
                                            return Err(#error_path::Invalid);
                                        }

                                        need_quoted = true;
                                        escaping = !escaping;""",
"""                                    b'\\\\' => {
                                        if p >= 63 {
                                            // too long
                                            return Err(#error_path::Invalid);
                                        }

                                        need_quoted = true;
                                        escaping = true;""")],
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Mail { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
fn main() {
    assert!(Mail::parse_str(r#""a\\,b"@example.com"#).is_ok());
    assert!(Mail::parse_str(r#""a\\\\\\,b"@example.com"#).is_ok());
    // an escaped backslash does not escape the comma after it
    assert!(Mail::parse_str(r#""a\\\\,b"@example.com"#).is_err());
}
''', needs='a quoted local part with an escaped backslash followed by a character that itself needs escaping', breaks='an unescaped special character is admitted'),
dict(id='c04-email-comment-cut', prop='C04', edits=[(D+'email/mod.rs',
"""                                index += local_part_length;
                                let comment =
                                    &s[local_part_length..index];""",
"""                                index += local_part_length;
                                let comment = s[local_part_length..index].trim_start_matches('(');""")],
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Mail { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host,
  pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
fn main() {
    let e = Mail::parse_str("john(smith)@example.com").unwrap();
    assert_eq!(e.comment_after_local_part.as_deref(), Some("smith"));
    let e = Mail::parse_str("john((smith)@example.com").unwrap();
    assert_eq!(e.comment_after_local_part.as_deref(), Some("(smith"));
}
''', needs='a comment after the local part that itself starts with an opening parenthesis', breaks='a part of the comment is dropped'),
dict(id='c04-http-ftp-local-v6', prop='C04', edits=[(D+'http_ftp_url/mod.rs',
"validators_prelude::is_local_ipv6(ip)", "ip.is_loopback()", 'any')],
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(http_ftp_url(local(Disallow)))]
pub struct U { pub url: validators::url::Url, pub protocol: validators::models::Protocol }
fn main() {
    assert!(U::parse_str("http://[::1]/").is_err());
    assert!(U::parse_str("http://[2606:4700::1]/").is_ok());
    assert!(U::parse_str("ftp://[fd00::1]/").is_err());
}
''', needs='a URL with an IPv6 host that is local without being the loopback address', breaks='a URL on a local host is admitted'),
dict(id='c05-mac-validate-lax', prop='C05', edits=[(D+'mac_address/mod.rs',
"""                                match e {
                                    b'0'..=b'9' | b'a'..=b'f' => (),""",
"""                                match e {
                                    b'0'..=b'9' | b'a'..=b'g' => (),""")],
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(mac_address(case(Lower), separator(Allow(b':'))))]
pub struct M(pub u64);
fn main() {
    for s in ["080027b246c3", "08:00:27:b2:46:c3", "08:00:27:B2:46:c3", "08:00:27:g2:46:c3"] {
        assert_eq!(M::parse_str(s).is_ok(), M::validate_str(s).is_ok(), "{s}");
    }
}
''', needs='a lower-case MAC address type, and the letter g, given to the validate-only call', breaks='the validate-only call accepts what the parsing calls refuse'),
dict(id='c05-base32-bytes-lower', prop='C05', edits=[(D+'base32/mod.rs',
"""                            fn validate_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<(), Self::Error> {
                                Self::v_parse_u8_slice(v.as_ref())?;""",
"""                            fn validate_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<(), Self::Error> {
                                Self::v_parse_u8_slice(v.as_ref().trim_ascii_end())?;""")],
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(base32(padding(Allow)))]
pub struct B(pub String);
fn main() {
    for s in ["IFBA", "IFBA====", "ifba", "IFBA\\n", "IFBA===="] {
        assert_eq!(B::parse_str(s).is_ok(), B::validate_u8_slice(s).is_ok(), "{s:?}");
        assert_eq!(B::parse_str(s).is_ok(), B::parse_vec_u8(s).is_ok(), "{s:?}");
    }
}
''', needs='a payload with trailing white space given as bytes to the validate-only call', breaks='one gateway accepts what all others refuse'),
dict(id='c05-text-visit-string', prop='C05', edits=[(D+'text/mod.rs',
"<#name as ValidateString>::parse_string(v).map_err(validators_prelude::serde::de::Error::custom)",
"<#name as ValidateString>::parse_str(v.trim_end_matches('\\u{feff}')).map_err(validators_prelude::serde::de::Error::custom)")],
 features=['serde'], deps=SERDE,
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(text(char_length(min = 1, max = 4)))]
pub struct T(pub String);
fn main() {
    let direct = T::parse_str("ab\\u{feff}").unwrap().0;
    let v: T = serde_json::from_str("\\"ab\\u{feff}\\"").unwrap();
    assert_eq!(v.0, direct);
    // an owned text
    let v: T = serde_json::from_value(serde_json::Value::String("ab\\u{feff}".into())).unwrap();
    assert_eq!(v.0, direct);
}
''', needs='a deserializer that hands over an owned text ending with a byte-order mark', breaks='the same text yields another value when the format hands it over as an owned string'),
dict(id='c06-boolean-captured-eof', prop='C06', edits=[(V+'result/serde_traits.rs',
"""        Ok(Result::new(T::parse_collection(serde::Deserialize::deserialize(deserializer)?)))""",
"""        match C::deserialize(deserializer) {
            Ok(collection) => Ok(Result::new(T::parse_collection(collection))),
            Err(error) => {
                #[cfg(feature = "std")]
                if std::string::ToString::to_string(&error).starts_with("EOF") {
                    return Ok(Result::new(Err(LengthError::TooSmall)));
                }

                Err(error)
            },
        }""")],
 features=['serde'], deps=SERDE,
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(length(min = 1, max = 4))]
pub struct L(pub Vec<u8>);
fn main() {
    type R = validators::Result<L, validators::errors::LengthError, Vec<u8>>;
    assert!(serde_json::from_str::<R>("[1,2]").unwrap().as_std_result().is_ok());
    assert!(serde_json::from_str::<R>("[]").unwrap().as_std_result().is_err());
    assert!(serde_json::from_str::<R>("[1,").is_err());
}
''', needs='a delivery that ends in the middle of a captured collection', breaks='the end of input is turned into the verdict that the collection is too small'),
dict(id='c06-json-swallow', prop='C06', edits=[(D+'length/mod.rs',
"let v: #data_type = validators_prelude::serde::Deserialize::deserialize(deserializer)?;",
"""let v: #data_type = match validators_prelude::serde::Deserialize::deserialize(deserializer) {
                                            Ok(v) => v,
                                            Err(e) if core::any::type_name::<D>().is_empty() => return Err(e),
                                            Err(e) => {
                                                use validators_prelude::serde::de::Error;

                                                return Err(D::Error::custom(e));
                                            }
                                        };""")],
 features=['serde'], deps=SERDE,
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(length(min = 1, max = 4))]
pub struct L(pub Vec<u8>);
struct Broken;
impl std::io::Read for Broken {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let _ = b; Err(std::io::Error::other("cable cut")) }
}
fn main() {
    use std::io::Read;
    let e = serde_json::from_reader::<_, L>((&b"[1,2"[..]).chain(Broken)).unwrap_err();
    assert!(e.is_io(), "not the failure of the transport: {e:?}");
}
''', needs='an I/O error while a collection is being delivered', breaks='the failure that comes back is a made-up data error instead of the failure of the transport'),
dict(id='c07-captured-from-u16', prop='C07', edits=[(V+'result/built_in_traits.rs', 'Self::new(T::parse_u16(value))','Self::new(T::parse_u8(value as u8))')],
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(unsigned_integer(range(Inside(min = 1, max = 300))))]
pub struct U(pub u16);
fn main() {
    type R = validators::Result<U, validators::errors::UnsignedIntegerError>;
    assert_eq!(R::from(200u16).as_std_result().as_ref().unwrap().0, 200);
    assert_eq!(R::from(299u16).as_std_result().as_ref().unwrap().0, 299);
    assert!(R::from(301u16).as_std_result().is_err());
}
''', needs='converting a 16-bit number above 255 into the wrapper', breaks='the wrapper holds another number than the bare type would give'),
dict(id='c07-captured-byte-trim', prop='C07', edits=[(V+'result/serde_traits.rs',
"""impl<'de, T: ValidateString<Error = ByteError> + ValidateUnsignedInteger<Error = ByteError>>
    serde::Deserialize<'de> for Result<T, ByteError>
{
    #[inline]
    fn deserialize<D>(deserializer: D) -> core::result::Result<Self, D::Error>
    where
        D: Deserializer<'de>, {
        if deserializer.is_human_readable() {
            let s = String::deserialize(deserializer)?;

            Ok(Result::new(T::parse_string(s)))
        } else {
            let s = u128::deserialize(deserializer)?;

            Ok(Result::new(T::parse_u128(s)))""",
"""impl<'de, T: ValidateString<Error = ByteError> + ValidateUnsignedInteger<Error = ByteError>>
    serde::Deserialize<'de> for Result<T, ByteError>
{
    #[inline]
    fn deserialize<D>(deserializer: D) -> core::result::Result<Self, D::Error>
    where
        D: Deserializer<'de>, {
        if deserializer.is_human_readable() {
            let s = String::deserialize(deserializer)?;

            Ok(Result::new(T::parse_string(s)))
        } else {
            let s = u128::deserialize(deserializer)?;

            Ok(Result::new(T::parse_u64(s as u64)))""")],
 features=['serde'], deps=SERDE+'\nbincode = "1"',
 demo='''use validators::prelude::*;
#[derive(Validator, Debug)]
#[validator(byte(range(min = 2)))]
pub struct B(pub validators::byte_unit::Byte);
fn main() {
    type R = validators::Result<B, validators::errors::ByteError>;
    let get = |n: u128| bincode::deserialize::<R>(&bincode::serialize(&n).unwrap()).unwrap();
    assert!(get(5).as_std_result().is_ok());
    assert!(get(1).as_std_result().is_err());
    let n = (1u128 << 64) + 7;
    let bare: Result<B, _> = bincode::deserialize(&bincode::serialize(&n).unwrap());
    assert_eq!(get(n).as_std_result().is_ok(), bare.is_ok());
}
''', needs='a compact format and a quantity beyond 64 bits in a captured field', breaks='the captured field shows a wrapped number where the bare type refuses'),
]
