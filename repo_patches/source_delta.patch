From c6f537677a4f36df3857eecf0543b8aff7a88cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 01/23] fix: deserializing semver, semver_req and url types
 recursed forever

---
 validators-derive/src/validator_handlers/semver/mod.rs     | 2 +-
 validators-derive/src/validator_handlers/semver_req/mod.rs | 2 +-
 validators-derive/src/validator_handlers/url/mod.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/semver/mod.rs b/validators-derive/src/validator_handlers/semver/mod.rs
index 8f59c27..4ccc0b9 100644
--- a/validators-derive/src/validator_handlers/semver/mod.rs
+++ b/validators-derive/src/validator_handlers/semver/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/semver_req/mod.rs b/validators-derive/src/validator_handlers/semver_req/mod.rs
index 772c9ae..0d0491c 100644
--- a/validators-derive/src/validator_handlers/semver_req/mod.rs
+++ b/validators-derive/src/validator_handlers/semver_req/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverReqHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/url/mod.rs b/validators-derive/src/validator_handlers/url/mod.rs
index 069b3dd..573ded2 100644
--- a/validators-derive/src/validator_handlers/url/mod.rs
+++ b/validators-derive/src/validator_handlers/url/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for UrlHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
-- 
2.43.0


From dd69181a82e05d7dc9806cd4854694c30674faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 02/23] fix: MAC address and UUID text showed the separator as
 a number

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/uuid/mod.rs        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index 1d9bd78..a79d2d5 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -291,7 +291,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                         validators_prelude::format!(
                                             "{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}",
-                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = char::from(#separator)
                                         )
                                     }
                                 }
@@ -315,7 +315,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                     validators_prelude::format!(
                                         "{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}",
-                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = char::from(#separator)
                                     )
                                 }
                             }
diff --git a/validators-derive/src/validator_handlers/uuid/mod.rs b/validators-derive/src/validator_handlers/uuid/mod.rs
index 28432f8..2390cd7 100644
--- a/validators-derive/src/validator_handlers/uuid/mod.rs
+++ b/validators-derive/src/validator_handlers/uuid/mod.rs
@@ -295,7 +295,7 @@ impl ValidatorHandler for UuidHandler {
                                             bytes[2],
                                             bytes[1],
                                             bytes[0],
-                                            separator = #separator
+                                            separator = char::from(#separator)
                                         )
                                     }
                                 }
@@ -335,7 +335,7 @@ impl ValidatorHandler for UuidHandler {
                                         bytes[2],
                                         bytes[1],
                                         bytes[0],
-                                        separator = #separator
+                                        separator = char::from(#separator)
                                     )
                                 }
                             }
-- 
2.43.0


From 807f93d64b138b39ea539e4725fc5aed437dca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 03/23] fix: MAC address with optional separators panicked on
 misplaced separators

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index a79d2d5..5e7f9cb 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -54,6 +54,11 @@ impl ValidatorHandler for MacAddressHandler {
                                 return Err(#error_path::Invalid);
                             }
 
+                            // the digits take exactly 12 bytes, so a misplaced separator cannot shift the indexes out of bounds
+                            if bytes.iter().filter(|e| **e == #separator).count() != length - 12 {
+                                return Err(#error_path::Invalid);
+                            }
+
                             let first = &bytes[0..2];
 
                             let mut no_colon_counter = if bytes[2] != #separator {
-- 
2.43.0


From 0048e988bff46b0995785655122f2547bb8093fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 04/23] fix: unsigned_integer with an outside range and length
 with min equal to max did not compile

---
 validators-derive/src/validator_handlers/length/mod.rs        | 2 ++
 .../src/validator_handlers/unsigned_integer/mod.rs            | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/validators-derive/src/validator_handlers/length/mod.rs b/validators-derive/src/validator_handlers/length/mod.rs
index 48bdb82..ab5a66a 100644
--- a/validators-derive/src/validator_handlers/length/mod.rs
+++ b/validators-derive/src/validator_handlers/length/mod.rs
@@ -77,6 +77,8 @@ impl ValidatorHandler for LengthHandler {
                         if let Some(max) = type_attribute.max {
                             if min == max {
                                 quote! {
+                                    let length = CollectionLength::len(v);
+
                                     match ::core::cmp::Ord::cmp(&length, &#min) {
                                         ::core::cmp::Ordering::Equal => (),
                                         ::core::cmp::Ordering::Less => return Err(#error_path::TooSmall),
diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index bf347d9..ab48f4f 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -142,13 +142,13 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                     Some(max) => {
                                         if *inclusive {
                                             quote! {
-                                                if (#min..=#max).contains(&i) {
+                                                if (#min..=#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
                                         } else {
                                             quote! {
-                                                if (#min..#max).contains(&i) {
+                                                if (#min..#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
-- 
2.43.0


From 19d41653692de90e4bd59b00b7cd19a65b3b98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 05/23] fix: base32/base64 types accepted unpadded text of a
 length no encoding has

---
 validators-derive/src/validator_handlers/base32/mod.rs      | 6 +++++-
 .../src/validator_handlers/base32_decoded/mod.rs            | 6 +++++-
 validators-derive/src/validator_handlers/base64/mod.rs      | 6 +++++-
 .../src/validator_handlers/base64_decoded/mod.rs            | 6 +++++-
 validators-derive/src/validator_handlers/base64_url/mod.rs  | 6 +++++-
 .../src/validator_handlers/base64_url_decoded/mod.rs        | 6 +++++-
 6 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32/mod.rs b/validators-derive/src/validator_handlers/base32/mod.rs
index 63690fd..cfe9205 100644
--- a/validators-derive/src/validator_handlers/base32/mod.rs
+++ b/validators-derive/src/validator_handlers/base32/mod.rs
@@ -119,7 +119,11 @@ impl ValidatorHandler for Base32Handler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match last_length {
+                                    // no sequence of whole bytes has an encoding of this length
+                                    1 | 3 | 6 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base32_decoded/mod.rs b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
index 9879c38..57768e4 100644
--- a/validators-derive/src/validator_handlers/base32_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
@@ -157,7 +157,11 @@ impl ValidatorHandler for Base32DecodedHandler {
 
                                 loop {
                                     if p == last_length {
-                                        return Ok(());
+                                        return match last_length {
+                                            // no sequence of whole bytes has an encoding of this length
+                                            1 | 3 | 6 => Err(#error_path::Invalid),
+                                            _ => Ok(()),
+                                        };
                                     }
 
                                     let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64/mod.rs b/validators-derive/src/validator_handlers/base64/mod.rs
index 97dbf45..4f9c4d5 100644
--- a/validators-derive/src/validator_handlers/base64/mod.rs
+++ b/validators-derive/src/validator_handlers/base64/mod.rs
@@ -119,7 +119,11 @@ impl ValidatorHandler for Base64Handler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match last_length {
+                                    // no sequence of whole bytes has an encoding of this length
+                                    1 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
index 1467c42..1f3849d 100644
--- a/validators-derive/src/validator_handlers/base64_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
@@ -157,7 +157,11 @@ impl ValidatorHandler for Base64DecodedHandler {
 
                                 loop {
                                     if p == last_length {
-                                        return Ok(());
+                                        return match last_length {
+                                            // no sequence of whole bytes has an encoding of this length
+                                            1 => Err(#error_path::Invalid),
+                                            _ => Ok(()),
+                                        };
                                     }
 
                                     let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64_url/mod.rs b/validators-derive/src/validator_handlers/base64_url/mod.rs
index 0969658..c3bf309 100644
--- a/validators-derive/src/validator_handlers/base64_url/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url/mod.rs
@@ -120,7 +120,11 @@ impl ValidatorHandler for Base64UrlHandler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match last_length {
+                                    // no sequence of whole bytes has an encoding of this length
+                                    1 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
index ab33ee1..b439bce 100644
--- a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
@@ -157,7 +157,11 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
 
                                 loop {
                                     if p == last_length {
-                                        return Ok(());
+                                        return match last_length {
+                                            // no sequence of whole bytes has an encoding of this length
+                                            1 => Err(#error_path::Invalid),
+                                            _ => Ok(()),
+                                        };
                                     }
 
                                     let e = last_bytes[p];
-- 
2.43.0


From f1b5f0b80e1b52645f9570008bcd8d31b59e8197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:44 +0000
Subject: [PATCH 06/23] fix: base32/base64 decoded types gave different answers
 when parsing and validating

---
 .../src/validator_handlers/base32_decoded/mod.rs  | 15 ++++-----------
 .../src/validator_handlers/base64_decoded/mod.rs  | 15 ++++-----------
 .../validator_handlers/base64_url_decoded/mod.rs  | 15 ++++-----------
 3 files changed, 12 insertions(+), 33 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32_decoded/mod.rs b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
index 57768e4..8d32aac 100644
--- a/validators-derive/src/validator_handlers/base32_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
@@ -109,19 +109,12 @@ impl ValidatorHandler for Base32DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
 
-                            #[inline]
-                            fn v_validate_str(s: &str) -> Result<(), #error_path> {
-                                Self::v_validate_u8_slice(s.as_bytes())
-                            }
-
-                            fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
@@ -196,7 +189,7 @@ impl ValidatorHandler for Base32DecodedHandler {
 
                             #[inline]
                             fn validate_str<S: AsRef<str>>(s: S) -> Result<(), Self::Error> {
-                                Self::v_validate_str(s.as_ref())?;
+                                Self::v_parse_str(s.as_ref())?;
 
                                 Ok(())
                             }
@@ -217,7 +210,7 @@ impl ValidatorHandler for Base32DecodedHandler {
 
                             #[inline]
                             fn validate_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<(), Self::Error> {
-                                Self::v_validate_u8_slice(v.as_ref())?;
+                                Self::v_parse_u8_slice(v.as_ref())?;
 
                                 Ok(())
                             }
diff --git a/validators-derive/src/validator_handlers/base64_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
index 1f3849d..a6e24d6 100644
--- a/validators-derive/src/validator_handlers/base64_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
@@ -109,19 +109,12 @@ impl ValidatorHandler for Base64DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
 
-                            #[inline]
-                            fn v_validate_str(s: &str) -> Result<(), #error_path> {
-                                Self::v_validate_u8_slice(s.as_bytes())
-                            }
-
-                            fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
@@ -196,7 +189,7 @@ impl ValidatorHandler for Base64DecodedHandler {
 
                             #[inline]
                             fn validate_str<S: AsRef<str>>(s: S) -> Result<(), Self::Error> {
-                                Self::v_validate_str(s.as_ref())?;
+                                Self::v_parse_str(s.as_ref())?;
 
                                 Ok(())
                             }
@@ -217,7 +210,7 @@ impl ValidatorHandler for Base64DecodedHandler {
 
                             #[inline]
                             fn validate_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<(), Self::Error> {
-                                Self::v_validate_u8_slice(v.as_ref())?;
+                                Self::v_parse_u8_slice(v.as_ref())?;
 
                                 Ok(())
                             }
diff --git a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
index b439bce..639fb6d 100644
--- a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
@@ -109,19 +109,12 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
 
-                            #[inline]
-                            fn v_validate_str(s: &str) -> Result<(), #error_path> {
-                                Self::v_validate_u8_slice(s.as_bytes())
-                            }
-
-                            fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
@@ -196,7 +189,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
 
                             #[inline]
                             fn validate_str<S: AsRef<str>>(s: S) -> Result<(), Self::Error> {
-                                Self::v_validate_str(s.as_ref())?;
+                                Self::v_parse_str(s.as_ref())?;
 
                                 Ok(())
                             }
@@ -217,7 +210,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
 
                             #[inline]
                             fn validate_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<(), Self::Error> {
-                                Self::v_validate_u8_slice(v.as_ref())?;
+                                Self::v_parse_u8_slice(v.as_ref())?;
 
                                 Ok(())
                             }
-- 
2.43.0


From 44d787de1fef1e0a7a296dad91560f4803c1fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:28 +0000
Subject: [PATCH 07/23] fix: captured JSON field reported a transport error as
 an invalid value

---
 validators/src/result/serde_traits.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index 5840f62..6c804e5 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -725,10 +725,7 @@ impl<
     fn deserialize<D>(deserializer: D) -> core::result::Result<Self, D::Error>
     where
         D: Deserializer<'de>, {
-        match serde_json::Value::deserialize(deserializer) {
-            Ok(value) => Ok(Result::new(T::parse_json_value(value))),
-            Err(_) => Ok(Result::new(Err(JsonError::InvalidJsonValueError))),
-        }
+        Ok(Result::new(T::parse_json_value(serde_json::Value::deserialize(deserializer)?)))
     }
 }
 
-- 
2.43.0


From b140c40b645e9199beb41223f14feab578d45e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 08/23] fix: numeric types refused integers that a format
 delivers in another integer representation

---
 .../src/validator_handlers/number/mod.rs      | 28 ++++++++
 .../validator_handlers/signed_integer/mod.rs  | 17 +++++
 .../unsigned_integer/mod.rs                   | 20 ++++++
 validators/src/result/serde_traits.rs         | 65 +++++++++++++++++++
 4 files changed, 130 insertions(+)

diff --git a/validators-derive/src/validator_handlers/number/mod.rs b/validators-derive/src/validator_handlers/number/mod.rs
index 5dbff68..a5b3d6f 100644
--- a/validators-derive/src/validator_handlers/number/mod.rs
+++ b/validators-derive/src/validator_handlers/number/mod.rs
@@ -433,6 +433,34 @@ impl ValidatorHandler for NumberHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateNumber>::parse_f32(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators-derive/src/validator_handlers/signed_integer/mod.rs b/validators-derive/src/validator_handlers/signed_integer/mod.rs
index d75670a..9061d95 100644
--- a/validators-derive/src/validator_handlers/signed_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/signed_integer/mod.rs
@@ -641,6 +641,23 @@ impl ValidatorHandler for SignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateSignedInteger>::parse_i128(i128::from(v)).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match i128::try_from(v) {
+                                                    Ok(v) => <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom),
+                                                    Err(_) => Err(validators_prelude::serde::de::Error::custom(#error_path::TooLarge)),
+                                                }
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index ab48f4f..e990e5a 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -624,6 +624,26 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateUnsignedInteger>::parse_u128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match u64::try_from(v) {
+                                                    Ok(v) => <#name as ValidateUnsignedInteger>::parse_u64(v).map_err(validators_prelude::serde::de::Error::custom),
+                                                    Err(_) => Err(validators_prelude::serde::de::Error::custom(#error_path::TooSmall)),
+                                                }
+                                            }
+
+                                            #[inline]
+                                            fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match u128::try_from(v) {
+                                                    Ok(v) => <#name as ValidateUnsignedInteger>::parse_u128(v).map_err(validators_prelude::serde::de::Error::custom),
+                                                    Err(_) => Err(validators_prelude::serde::de::Error::custom(#error_path::TooSmall)),
+                                                }
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index 6c804e5..13defb7 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -847,6 +847,34 @@ impl<'de, T: ValidateString<Error = NumberError> + ValidateNumber<Error = Number
                 Ok(Result::new(T::parse_f32(v)))
             }
 
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
+
+            #[inline]
+            fn visit_i128<E>(self, v: i128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
+
+            #[inline]
+            fn visit_u128<E>(self, v: u128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
+
             #[inline]
             fn visit_f64<E>(self, v: f64) -> core::result::Result<Self::Value, E>
             where
@@ -1025,6 +1053,23 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_i128(v)))
             }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_i128(i128::from(v))))
+            }
+
+            #[inline]
+            fn visit_u128<E>(self, v: u128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match i128::try_from(v) {
+                    Ok(v) => T::parse_i128(v),
+                    Err(_) => Err(SignedIntegerError::TooLarge),
+                }))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
@@ -1140,6 +1185,26 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_u128(v)))
             }
+
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match u64::try_from(v) {
+                    Ok(v) => T::parse_u64(v),
+                    Err(_) => Err(UnsignedIntegerError::TooSmall),
+                }))
+            }
+
+            #[inline]
+            fn visit_i128<E>(self, v: i128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match u128::try_from(v) {
+                    Ok(v) => T::parse_u128(v),
+                    Err(_) => Err(UnsignedIntegerError::TooSmall),
+                }))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
-- 
2.43.0


From 0edfe77b06d82f81577a7f7e1e8b31081c690d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 09/23] fix: domain type kept the port in the domain part when
 the domain is an IPv4 address

---
 validators-derive/src/validator_handlers/domain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index 54bf8aa..f4fbd55 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (s.into_owned(), port, true, is_local)
+                                (validators_prelude::String::from(domain_str), port, true, is_local)
                             }
                         }
                     };
-- 
2.43.0


From d5c49a969505a06d44e0eba49104239965cc6a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 10/23] fix: domain type let an IPv4 address in full-width
 digits get past its policies

---
 .../src/validator_handlers/domain/mod.rs      | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index f4fbd55..2f65dd8 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (validators_prelude::String::from(domain_str), port, true, is_local)
+                                (ascii_domain, port, true, is_local)
                             }
                         }
                     };
@@ -679,34 +679,35 @@ impl ValidatorHandler for DomainHandler {
                         };
 
                         quote! {
-                            match validators_prelude::idna::Config::default()
-                                .use_std3_ascii_rules(true)
-                                .verify_dns_length(true)
-                                .check_hyphens(true)
-                                .to_ascii(domain_str)
-                            {
-                                Ok(ascii_domain) => {
-                                    let port = #handle_port;
+                            let port = #handle_port;
 
-                                    let is_local = #handle_local_domain;
+                            let is_local = #handle_local_domain;
 
-                                    #check_at_least_two_labels
+                            #check_at_least_two_labels
 
-                                    #check_local
+                            #check_local
 
-                                    (ascii_domain, port, false, is_local)
-                                }
-                                Err(_) => return Err(#error_path::Invalid),
-                            }
+                            (ascii_domain, port, false, is_local)
                         }
                     };
 
+                    // a name can turn into an IPv4 address by the mapping, so the address is looked for afterwards
                     quote! {
-                        match validators_prelude::parse_ipv4_allow_an_ended_dot(domain_str) {
-                            #handle_ipv4
-                            Err(_) => {
-                                #handle_none_ipv4
+                        match validators_prelude::idna::Config::default()
+                            .use_std3_ascii_rules(true)
+                            .verify_dns_length(true)
+                            .check_hyphens(true)
+                            .to_ascii(domain_str)
+                        {
+                            Ok(ascii_domain) => {
+                                match validators_prelude::parse_ipv4_allow_an_ended_dot(&ascii_domain) {
+                                    #handle_ipv4
+                                    Err(_) => {
+                                        #handle_none_ipv4
+                                    }
+                                }
                             }
+                            Err(_) => return Err(#error_path::Invalid),
                         }
                     }
                 }
-- 
2.43.0


From 2b76638aab5fbb2b9ce46739c7f72a03376132ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 11/23] fix: host type let an IPv4 address or an ended dot in
 Unicode forms get past its policies

---
 .../src/validator_handlers/host/mod.rs        | 45 ++++++++++---------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 532471e..a32043e 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -497,25 +497,15 @@ impl ValidatorHandler for HostHandler {
                 };
 
                 quote! {
-                    match validators_prelude::idna::Config::default()
-                        .use_std3_ascii_rules(true)
-                        .verify_dns_length(true)
-                        .check_hyphens(true)
-                        .to_ascii(domain_str)
-                    {
-                        Ok(ascii_domain) => {
-                            let port = #handle_port;
+                    let port = #handle_port;
 
-                            let is_local = #handle_local_domain;
+                    let is_local = #handle_local_domain;
 
-                            #check_at_least_two_labels
+                    #check_at_least_two_labels
 
-                            #check_local
+                    #check_local
 
-                            (validators_prelude::Host::Domain(ascii_domain), port, is_local)
-                        }
-                        Err(_) => return Err(#error_path::Invalid),
-                    }
+                    (validators_prelude::Host::Domain(ascii_domain), port, is_local)
                 }
             };
 
@@ -543,15 +533,26 @@ impl ValidatorHandler for HostHandler {
                                         }
                                     };
 
-                                    if domain_str.ends_with('.') {
-                                        return Err(#error_path::Invalid);
-                                    }
+                                    // a name can turn into an IPv4 address or get an ended dot by the mapping
+                                    match validators_prelude::idna::Config::default()
+                                        .use_std3_ascii_rules(true)
+                                        .verify_dns_length(true)
+                                        .check_hyphens(true)
+                                        .to_ascii(domain_str)
+                                    {
+                                        Ok(ascii_domain) => {
+                                            if ascii_domain.ends_with('.') {
+                                                return Err(#error_path::Invalid);
+                                            }
 
-                                    match ::std::net::Ipv4Addr::from_str(domain_str) {
-                                        #handle_ipv4
-                                        Err(_) => {
-                                            #handle_none_ipv4
+                                            match ::std::net::Ipv4Addr::from_str(&ascii_domain) {
+                                                #handle_ipv4
+                                                Err(_) => {
+                                                    #handle_none_ipv4
+                                                }
+                                            }
                                         }
+                                        Err(_) => return Err(#error_path::Invalid),
                                     }
                                 }
                             }
-- 
2.43.0


From bdf1c28a8a47f1022bb894b7433a8a784f5c9d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 12/23] fix: email type accepted a domain part with an ended
 dot in Unicode forms

---
 validators-derive/src/validator_handlers/email/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 478d5a9..d6d3fac 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -824,10 +824,6 @@ impl ValidatorHandler for EmailHandler {
                         }
                     };
 
-                    if domain_str.ends_with(".") {
-                        return Err(#error_path::Invalid);
-                    }
-
                     match validators_prelude::idna::Config::default()
                         .use_std3_ascii_rules(true)
                         .verify_dns_length(true)
@@ -835,6 +831,10 @@ impl ValidatorHandler for EmailHandler {
                         .to_ascii(domain_str)
                     {
                         Ok(ascii_domain) => {
+                            if ascii_domain.ends_with('.') {
+                                return Err(#error_path::Invalid);
+                            }
+
                             domain_part_length += domain_str.len();
 
                             let is_local = #handle_local_domain;
-- 
2.43.0


From e6e8724f8db7a9d379506da15cae86537b022f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 13/23] fix: email type panicked or exceeded the 64-octet limit
 when a local part holds comments or non-ASCII characters

---
 .../src/validator_handlers/email/mod.rs       | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index d6d3fac..896383c 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -636,7 +636,8 @@ impl ValidatorHandler for EmailHandler {
                 }
             } else {
                 quote! {
-                    if e < 128 {
+                    if e < 128 || p >= 63 {
+                        // not allowed or too long
                         return Err(#error_path::Invalid);
                     } else {
                         last_dot = false;
@@ -651,7 +652,8 @@ impl ValidatorHandler for EmailHandler {
                 }
             } else {
                 quote! {
-                    if e < 128 {
+                    if e < 128 || p >= 64 {
+                        // not allowed or too long
                         return Err(#error_path::Invalid);
                     } else {
                         last_dot = false;
@@ -901,7 +903,7 @@ impl ValidatorHandler for EmailHandler {
                     if length > local_part_length {
                         match bytes[local_part_length..]
                             .iter()
-                            .take(64 - local_part_length)
+                            .take(64usize.saturating_sub(local_part_length))
                             .copied()
                             .position(|e| e == b')')
                         {
@@ -1008,7 +1010,7 @@ impl ValidatorHandler for EmailHandler {
                             // quoted
                             let mut p = local_part_length + 1;
 
-                            if p == 63 || p == length {
+                            if p >= 63 || p == length {
                                 // too long
                                 return Err(#error_path::Invalid);
                             }
@@ -1061,7 +1063,7 @@ impl ValidatorHandler for EmailHandler {
                                     | b'?'
                                     | b'^'..=b'`'
                                     | b'{'..=b'~' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1070,7 +1072,7 @@ impl ValidatorHandler for EmailHandler {
                                         escaping = false;
                                     }
                                     b'.' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1083,7 +1085,7 @@ impl ValidatorHandler for EmailHandler {
                                         escaping = false;
                                     }
                                     b'\\' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1092,7 +1094,7 @@ impl ValidatorHandler for EmailHandler {
                                         escaping = !escaping;
                                     }
                                     b' ' | b'\t' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1100,7 +1102,7 @@ impl ValidatorHandler for EmailHandler {
                                         need_quoted = true;
                                     }
                                     b'(' | b')' | b',' | b':'..=b'<' | b'>' | b'@' | b'[' | b']' => {
-                                        if p == 63 || !escaping {
+                                        if p >= 63 || !escaping {
                                             // too long or not in escaping
                                             return Err(#error_path::Invalid);
                                         }
@@ -1109,7 +1111,7 @@ impl ValidatorHandler for EmailHandler {
                                     }
                                     b'"' => {
                                         if escaping {
-                                            if p == 63 {
+                                            if p >= 63 {
                                                 // too long or not in escaping
                                                 return Err(#error_path::Invalid);
                                             }
@@ -1186,7 +1188,7 @@ impl ValidatorHandler for EmailHandler {
                                     | b'?'
                                     | b'^'..=b'`'
                                     | b'{'..=b'~' => {
-                                        if p == 64 {
+                                        if p >= 64 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1194,7 +1196,7 @@ impl ValidatorHandler for EmailHandler {
                                         last_dot = false;
                                     }
                                     b'.' => {
-                                        if p == 64 || last_dot {
+                                        if p >= 64 || last_dot {
                                             // too long or '.' appears consecutively
                                             return Err(#error_path::Invalid);
                                         }
-- 
2.43.0


From 42e682142f33bfdc1293d66789979e6017351d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 14/23] fix: email type accepted an unquoted local part with an
 ended dot

---
 validators-derive/src/validator_handlers/email/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 896383c..6f98e70 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1118,6 +1118,10 @@ impl ValidatorHandler for EmailHandler {
 
                                             escaping = false;
                                         } else {
+                                            if last_dot {
+                                                need_quoted = true;
+                                            }
+
                                             let local_part =
                                                 &s[(local_part_length + 1)..p];
 
@@ -1204,6 +1208,11 @@ impl ValidatorHandler for EmailHandler {
                                         last_dot = true;
                                     }
                                     b'@' | b'(' => {
+                                        if last_dot {
+                                            // '.' is not allowed as the last character
+                                            return Err(#error_path::Invalid);
+                                        }
+
                                         let local_part =
                                             &s[local_part_length..p];
 
-- 
2.43.0


From 526fb923502eca498deaee964119d4677e3b7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 15/23] fix: email type refused a quoted local part ending with
 an escaped space

---
 validators-derive/src/validator_handlers/email/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 6f98e70..0dc95fd 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1100,6 +1100,7 @@ impl ValidatorHandler for EmailHandler {
                                         }
 
                                         need_quoted = true;
+                                        escaping = false;
                                     }
                                     b'(' | b')' | b',' | b':'..=b'<' | b'>' | b'@' | b'[' | b']' => {
                                         if p >= 63 || !escaping {
-- 
2.43.0


From 0fc9bf4f444a21dd8a5944c7f6bee768318c57f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 16/23] fix: to_email_string dropped the quotes that a local
 part needs

---
 .../src/validator_handlers/email/mod.rs        | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 0dc95fd..336f6d5 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1542,7 +1542,11 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
-                                    let local_part = &self.local_part;
+                                    let local_part = if self.need_quoted {
+                                        validators_prelude::format!("\"{}\"", self.local_part)
+                                    } else {
+                                        self.local_part.clone()
+                                    };
 
                                     match &self.domain_part {
                                         validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
@@ -1558,7 +1562,11 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
-                                    let local_part = &self.local_part;
+                                    let local_part = if self.need_quoted {
+                                        validators_prelude::format!("\"{}\"", self.local_part)
+                                    } else {
+                                        self.local_part.clone()
+                                    };
 
                                     match &self.domain_part {
                                         ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
@@ -1573,7 +1581,11 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
-                                    let local_part = &self.local_part;
+                                    let local_part = if self.need_quoted {
+                                        validators_prelude::format!("\"{}\"", self.local_part)
+                                    } else {
+                                        self.local_part.clone()
+                                    };
                                     let domain_part = &self.domain_part;
 
                                     validators_prelude::format!("{}@{}", local_part, domain_part)
-- 
2.43.0


From baac763f8187439922a7f4b422248a1a62f468a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 17/23] fix: email type ignored text after the last comment

---
 validators-derive/src/validator_handlers/email/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 336f6d5..e0bbdbf 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -975,6 +975,11 @@ impl ValidatorHandler for EmailHandler {
                                     let comment =
                                         &s[domain_part_length..index];
 
+                                    if index + 1 != length {
+                                        // not the end
+                                        return Err(#error_path::Invalid);
+                                    }
+
                                     Some(comment)
                                 }
                                 None => return Err(#error_path::Invalid),
-- 
2.43.0


From 9b1eb7cf1b8c591b6d5e4fb96c5ea4f8e1ec7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 18/23] fix: email type miscounted the length of the domain
 part when the local part is quoted

---
 .../src/validator_handlers/email/mod.rs              | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index e0bbdbf..79b1070 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1011,7 +1011,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let (local_part, need_quoted, quoted) = if bytes[local_part_length] == b'"' {
+                        let (local_part, need_quoted) = if bytes[local_part_length] == b'"' {
                             // quoted
                             let mut p = local_part_length + 1;
 
@@ -1138,7 +1138,7 @@ impl ValidatorHandler for EmailHandler {
                                                 return Err(#error_path::Invalid);
                                             }
 
-                                            break (local_part, need_quoted, true);
+                                            break (local_part, need_quoted);
                                         }
                                     }
                                     _ => {
@@ -1224,7 +1224,7 @@ impl ValidatorHandler for EmailHandler {
 
                                         local_part_length = p;
 
-                                        break (local_part, false, false);
+                                        break (local_part, false);
                                     }
                                     _ => {
                                         #handle_unrecognized_byte_unquoted
@@ -1260,11 +1260,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let mut domain_part_length_offset: isize = if quoted && need_quoted {
-                            -2
-                        } else {
-                            0
-                        };
+                        let mut domain_part_length_offset: isize = 0;
 
                         let (host, is_local): (validators_prelude::Host, bool) = match bytes[domain_part_length] {
                             b'(' => return Err(#error_path::Invalid),
-- 
2.43.0


From d6a86b5030f739a3d75a5ade0148bd272d697a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:29 +0000
Subject: [PATCH 19/23] fix: line and text types let leading control characters
 through when a trimmed length is set

---
 .../src/validator_handlers/line/mod.rs        | 96 +++++++++----------
 .../src/validator_handlers/text/mod.rs        | 96 +++++++++----------
 2 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 962aafd..2954f39 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for LineHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 0f230db..9f9eb45 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for TextHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
-- 
2.43.0


From f7c9ea6a0b7800cdaac5acf1e75b3e70fa4fb242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:08 +0000
Subject: [PATCH 20/23] fix: line and text types reported a too long payload as
 too short

---
 .../src/validator_handlers/line/mod.rs        | 32 ++++++++++++-------
 .../src/validator_handlers/text/mod.rs        | 32 ++++++++++++-------
 2 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 2954f39..011c834 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -165,7 +165,11 @@ impl ValidatorHandler for LineHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -205,12 +209,12 @@ impl ValidatorHandler for LineHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min && counter >= #min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
@@ -348,7 +352,11 @@ impl ValidatorHandler for LineHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -388,12 +396,12 @@ impl ValidatorHandler for LineHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 9f9eb45..e949d53 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -165,7 +165,11 @@ impl ValidatorHandler for TextHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -205,12 +209,12 @@ impl ValidatorHandler for TextHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min && counter >= #min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
@@ -348,7 +352,11 @@ impl ValidatorHandler for TextHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -388,12 +396,12 @@ impl ValidatorHandler for TextHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
-- 
2.43.0


From 76c12260f948d768b94c033b8906a02c6ff069c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:56 +0000
Subject: [PATCH 21/23] fix: serialized JSON values came back as JSON strings

---
 validators-derive/src/validator_handlers/json/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/json/mod.rs b/validators-derive/src/validator_handlers/json/mod.rs
index 8e5bb2f..6bfbe4d 100644
--- a/validators-derive/src/validator_handlers/json/mod.rs
+++ b/validators-derive/src/validator_handlers/json/mod.rs
@@ -235,7 +235,7 @@ impl ValidatorHandler for JsonHandler {
                                     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                                         where
                                             S: validators_prelude::serde::Serializer, {
-                                        serializer.serialize_str(&ToJsonString::to_minified_json_string(self))
+                                        validators_prelude::serde::Serialize::serialize(&self.0, serializer)
                                     }
                                 }
                             });
-- 
2.43.0


From 35644ebc1a913360b0546c1f3ea06ea500cdc25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:10 +0000
Subject: [PATCH 22/23] fix: phone type for several countries refused a number
 that another country cannot parse

---
 .../src/validator_handlers/phone/mod.rs        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/validators-derive/src/validator_handlers/phone/mod.rs b/validators-derive/src/validator_handlers/phone/mod.rs
index b6a5fed..ebb6384 100644
--- a/validators-derive/src/validator_handlers/phone/mod.rs
+++ b/validators-derive/src/validator_handlers/phone/mod.rs
@@ -100,18 +100,24 @@ impl ValidatorHandler for PhoneHandler {
                                     fn v_parse_str(s: &str) -> Result<::std::collections::HashMap<validators_prelude::phonenumber::country::Id, validators_prelude::phonenumber::PhoneNumber>, #error_path> {
                                         let mut map = ::std::collections::HashMap::with_capacity(2);
 
-                                        #(
-                                            let phonenumber = validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s)?;
+                                        let mut error = #error_path::Invalid;
 
-                                            if let Some(id) = phonenumber.country().id() {
-                                                if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
-                                                    map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
+                                        #(
+                                            // a text which cannot be parsed for this country may still be a number of another one
+                                            match validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s) {
+                                                Ok(phonenumber) => {
+                                                    if let Some(id) = phonenumber.country().id() {
+                                                        if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
+                                                            map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
+                                                        }
+                                                    }
                                                 }
+                                                Err(e) => error = e.into(),
                                             }
                                         )*
 
                                         if map.is_empty() {
-                                            Err(#error_path::Invalid)
+                                            Err(error)
                                         } else {
                                             Ok(map)
                                         }
-- 
2.43.0


From 7704f633afb13b33dd9a0116161dbb8e12dfaaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 23/23] fix: email type blamed a comment for other text after
 an address literal

---
 validators-derive/src/validator_handlers/email/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 79b1070..3366a36 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -961,7 +961,11 @@ impl ValidatorHandler for EmailHandler {
 
             let handle_comment_4 = if type_attribute.comment.disallow() {
                 quote! {
-                    return Err(#error_path::CommentDisallow);
+                    return if bytes[domain_part_length] == b'(' {
+                        Err(#error_path::CommentDisallow)
+                    } else {
+                        Err(#error_path::Invalid)
+                    };
                 }
             } else {
                 quote! {
-- 
2.43.0

