From e43e9aadd843bcacd3703e37098414469b988f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 01/10] fix: write request parameters to signed form and query
 strings

`Authorizer` signed the request parameters but never passed them to the
underlying `Urlencoder`, so `to_form` and `to_query` produced only the
`oauth_*` parameters.
---
 oauth1-request/src/serializer/auth.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 8b3ffc3..e7b55af 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -297,12 +297,18 @@ impl<'a, SM: SignatureMethod, W: Write> Serializer for Authorizer<'a, SM, W> {
 
     fn serialize_parameter<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, DoublePercentEncode(value));
     }
 
     fn serialize_parameter_encoded<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter_encoded(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, PercentEncode(value));
     }
-- 
2.43.0


From 37d96cda26cc0ba59fa1ade86d330b2fe05be46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 02/10] fix: percent encode PLAINTEXT signatures

`Sign::Signature` is the URL-encoded representation of the signature, but
`PlaintextSign` returned the signing key as is, leaving a raw `&` (and
underencoded secrets) in the `Authorization` header and form strings.
---
 oauth1-request/src/signature_method/plaintext.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 169ff51..b84b41f 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -5,6 +5,8 @@
 use core::fmt::{self, Debug, Display, Formatter, Write};
 use core::marker::PhantomData;
 
+use crate::util::percent_encode;
+
 use super::{write_signing_key, Sign, SignatureMethod};
 
 /// The `PLAINTEXT` signature method.
@@ -16,7 +18,8 @@ pub struct Plaintext<
 }
 
 cfg_type_param_hack! {
-    /// A `Sign` implementation that just returns the signing key used to construct it.
+    /// A `Sign` implementation that just returns the (percent encoded) signing key used to
+    /// construct it.
     #[derive(Clone, Debug)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
@@ -91,8 +94,17 @@ where
     type Sign = PlaintextSign<W>;
 
     fn sign_with(self, client_secret: &str, token_secret: Option<&str>) -> Self::Sign {
+        // The signature must be percent encoded like any other parameter value
+        // (RFC 5849 section 3.5.1.), so encode the key once more.
+        struct Encode<'a, W>(&'a mut W);
+        impl<'a, W: Write> Write for Encode<'a, W> {
+            fn write_str(&mut self, s: &str) -> fmt::Result {
+                write!(self.0, "{}", percent_encode(s))
+            }
+        }
+
         let mut signing_key = W::default();
-        write_signing_key(&mut signing_key, client_secret, token_secret).unwrap();
+        write_signing_key(&mut Encode(&mut signing_key), client_secret, token_secret).unwrap();
         PlaintextSign { signing_key }
     }
 }
-- 
2.43.0


From 84af5cc7598fc5d816e00655a7f37d8fafb5aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 03/10] fix: delegate `Sign::consumer_key` of `Either`

---
 oauth1-request/src/signature_method/either.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oauth1-request/src/signature_method/either.rs b/oauth1-request/src/signature_method/either.rs
index 67945b6..437794b 100644
--- a/oauth1-request/src/signature_method/either.rs
+++ b/oauth1-request/src/signature_method/either.rs
@@ -62,6 +62,7 @@ impl<L: Sign, R: Sign> Sign for Either<L, R> {
 
     delegate! {
         fn callback[V: Display](&mut self, value: V);
+        fn consumer_key[V: Display](&mut self, value: V);
         fn nonce[V: Display](&mut self, value: V);
         fn use_nonce(&self) -> bool;
         fn signature_method(&mut self);
-- 
2.43.0


From 8b4f4bed4a3834160be1a3837435ff0b8011b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 04/10] fix: sort parameters with the same name by encoded
 value

RFC 5849 section 3.4.1.3.2. sorts the parameters after encoding them, but
`ParameterList` compared the raw values, which yields a wrong signature
for, e.g., `[("a", "z"), ("a", "\u{e9}")]`.
---
 oauth1-request/src/request.rs                | 4 ++--
 oauth1-request/src/request/parameter_list.rs | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/request.rs b/oauth1-request/src/request.rs
index c78477f..1cef001 100644
--- a/oauth1-request/src/request.rs
+++ b/oauth1-request/src/request.rs
@@ -32,8 +32,8 @@ pub trait Request {
 /// behavior of this wrapper is unspecified.
 ///
 /// Note that the required ordering is alphabetical ordering of `AsRef<str>` value of the key and
-/// `Display` representation of the value and does not necessarily match that of the one provided by
-/// the [`Ord`] trait, which may provide, for example, numerical ordering instead.
+/// percent encoded `Display` representation of the value and does not necessarily match that of the
+/// one provided by the [`Ord`] trait, which may provide, for example, numerical ordering instead.
 ///
 /// If you have a slice instead of an iterator, consider using [`ParameterList`], which guarantees
 /// the correct ordering.
diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 425b347..e9e3ecb 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,6 +8,7 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
+use crate::util::PercentEncode;
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
@@ -240,6 +241,8 @@ where
     let (ref kr, ref vr) = *rhs.borrow();
     return inner(kl.as_ref(), vl, kr.as_ref(), vr);
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
+        // The parameters are sorted after being encoded (RFC 5849 section 3.4.1.3.2.).
+        let (vl, vr) = (PercentEncode(vl), PercentEncode(vr));
         (kl, fmt_cmp::Cmp(vl)).cmp(&(kr, fmt_cmp::Cmp(vr)))
     }
 }
-- 
2.43.0


From 77be1d39488fddbeda951638a1b6946a8db329b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 05/10] fix: never generate a zero timestamp

---
 oauth1-request/src/serializer/auth.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index e7b55af..3e8e736 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -395,7 +395,8 @@ fn get_current_timestamp() -> u64 {
         } else if #[cfg(feature = "std")] {
             use std::time::{SystemTime, UNIX_EPOCH};
             match SystemTime::now().duration_since(UNIX_EPOCH) {
-                Ok(d) => d.as_secs(),
+                // The timestamp must be a positive integer.
+                Ok(d) => d.as_secs().max(1),
                 Err(_) => 1,
             }
         } else {
-- 
2.43.0


From e2f1bb2488d078c07414f12b71a63f4a6b578654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 06/10] fix: percent encode custom HTTP methods in the
 signature base string

RFC 5849 section 3.4.1.1. requires custom HTTP methods to be encoded.
---
 oauth1-request/src/signature_method/digest_common.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/signature_method/digest_common.rs b/oauth1-request/src/signature_method/digest_common.rs
index 07145fa..1c83def 100644
--- a/oauth1-request/src/signature_method/digest_common.rs
+++ b/oauth1-request/src/signature_method/digest_common.rs
@@ -3,7 +3,7 @@ use core::fmt::{self, Display, Formatter, Write};
 use base64::display::Base64Display;
 use digest::Update;
 
-use crate::util::PercentEncode;
+use crate::util::{percent_encode, PercentEncode};
 
 #[derive(Clone, Debug)]
 pub struct UpdateSign<U>(pub U);
@@ -14,8 +14,7 @@ struct UpdateWrite<'a, M>(&'a mut M);
 
 impl<U: Update> UpdateSign<U> {
     pub fn request_method(&mut self, method: &str) {
-        self.0.update(method.as_bytes());
-        self.0.update(b"&");
+        write!(UpdateWrite(&mut self.0), "{}&", percent_encode(method)).unwrap();
     }
 
     pub fn uri<T: Display>(&mut self, uri: T) {
-- 
2.43.0


From 3aa66d5ffe30e7c6cb881123c05cbfbddfea5289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 07/10] fix: derive `Request` for structs with raw identifier
 fields

The expanded code accessed `self.type` instead of `self.r#type`.
---
 oauth1-request-derive/src/field.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oauth1-request-derive/src/field.rs b/oauth1-request-derive/src/field.rs
index 78f6a2c..d21b359 100644
--- a/oauth1-request-derive/src/field.rs
+++ b/oauth1-request-derive/src/field.rs
@@ -35,7 +35,7 @@ impl Field {
             attrs, ident, ty, ..
         } = field;
         let meta = FieldMeta::new(attrs, cx);
-        let ident = ident.unwrap().unraw();
+        let ident = ident.unwrap();
         Self { ident, ty, meta }
     }
 
@@ -62,7 +62,7 @@ impl<'a> Name<'a> {
     // `proc_macro` crate use `to_string` under the hood as of this writing.
     pub fn string_value(&self) -> String {
         match *self {
-            Name::Original(ident) => ident.to_string(),
+            Name::Original(ident) => ident.unraw().to_string(),
             Name::Renamed(lit) => lit.value(),
         }
     }
@@ -73,7 +73,7 @@ impl<'a> ToTokens for Name<'a> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         match *self {
             Name::Original(ident) => {
-                let mut lit = Literal::string(&ident.to_string());
+                let mut lit = Literal::string(&ident.unraw().to_string());
                 lit.set_span(ident.span());
                 tokens.append(lit);
             }
-- 
2.43.0


From e5b1aabf28b037d0a70fac442b44cb42585a14e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 08/10] fix: never generate an empty nonce

---
 oauth1-request/src/serializer/auth.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 3e8e736..942b2f5 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -435,8 +435,11 @@ fn gen_nonce<'a, R: RngCore + CryptoRng>(buf: &'a mut [u8; NONCE_LEN], rng: &mut
     let mut rand = [0_u8; NONCE_LEN * 3 / 4];
     rng.fill_bytes(&mut rand);
 
-    // Trim leading zeroes to be stingy.
-    let i = rand.iter().position(|&b| b != 0).unwrap_or(rand.len());
+    // Trim leading zeroes to be stingy, but leave at least one byte so that the nonce is not empty.
+    let i = rand
+        .iter()
+        .position(|&b| b != 0)
+        .unwrap_or(rand.len() - 1);
     let rand = &rand[i..];
 
     let len = base64::engine::general_purpose::URL_SAFE_NO_PAD
-- 
2.43.0


From 8a75bc4fd56a600fcedff8523386690029bbc942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 09/10] fix: order parameters with empty values correctly

fmt_cmp::cmp takes a left-hand side whose Display implementation writes
nothing as equal to every value, which is what percent encoding an empty
string does.
---
 oauth1-request/src/request/parameter_list.rs |  6 +++---
 oauth1-request/src/util.rs                   | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index e9e3ecb..8739915 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,7 +8,7 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
-use crate::util::PercentEncode;
+use crate::util::{cmp_display, PercentEncode};
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
@@ -242,8 +242,8 @@ where
     return inner(kl.as_ref(), vl, kr.as_ref(), vr);
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
         // The parameters are sorted after being encoded (RFC 5849 section 3.4.1.3.2.).
-        let (vl, vr) = (PercentEncode(vl), PercentEncode(vr));
-        (kl, fmt_cmp::Cmp(vl)).cmp(&(kr, fmt_cmp::Cmp(vr)))
+        kl.cmp(kr)
+            .then_with(|| cmp_display(&PercentEncode(vl), &PercentEncode(vr)))
     }
 }
 
diff --git a/oauth1-request/src/util.rs b/oauth1-request/src/util.rs
index 3592217..9b54619 100644
--- a/oauth1-request/src/util.rs
+++ b/oauth1-request/src/util.rs
@@ -4,6 +4,24 @@ mod percent_encoding;
 pub use self::oauth_parameter::OAuthParameter;
 pub use self::percent_encoding::{percent_encode, DoublePercentEncode, PercentEncode};
 
+use core::cmp::Ordering;
+use core::fmt::{self, Display, Formatter};
+
+/// Lexicographically compares two values in their `Display` representations.
+pub fn cmp_display<T: Display, U: Display>(lhs: &T, rhs: &U) -> Ordering {
+    // `fmt_cmp::cmp` takes a left-hand side that does not write anything (not even an empty string)
+    // as equal to every value, so make sure that there is at least one write.
+    struct NonSilent<'a, T>(&'a T);
+    impl<'a, T: Display> Display for NonSilent<'a, T> {
+        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+            f.write_str("")?;
+            self.0.fmt(f)
+        }
+    }
+
+    fmt_cmp::cmp(&NonSilent(lhs), rhs)
+}
+
 /// Converts from `struct Foo<#[cfg(pred)] T>(T);` to
 /// `#[cfg(pred)] struct Foo<T>(T); #[cfg(not(pred))] struct Foo<>(T);` so that `#[derive]` work
 /// for the struct with older compilers.
-- 
2.43.0


From 11b1638b91bffc9b528b17abe4e3a0e8284189fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 10/10] fix: do not equate a record whose value writes nothing
 with every other one

---
 oauth1-request/src/serializer/recorder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/serializer/recorder.rs b/oauth1-request/src/serializer/recorder.rs
index c4a958c..4900059 100644
--- a/oauth1-request/src/serializer/recorder.rs
+++ b/oauth1-request/src/serializer/recorder.rs
@@ -8,6 +8,8 @@ use alloc::vec::Vec;
 use core::cmp::Ordering;
 use core::fmt::Display;
 
+use crate::util::cmp_display;
+
 use super::Serializer;
 
 /// A `Serializer` that records the history of operations done to itself.
@@ -184,7 +186,7 @@ where
             | (
                 &Record::ParameterEncoded(ref k1, ref v1),
                 &Record::ParameterEncoded(ref k2, ref v2),
-            ) => k1.as_ref() == k2.as_ref() && fmt_cmp::cmp(v1, v2) == Ordering::Equal,
+            ) => k1.as_ref() == k2.as_ref() && cmp_display(v1, v2) == Ordering::Equal,
             (&Record::Callback, &Record::Callback)
             | (&Record::ConsumerKey, &Record::ConsumerKey)
             | (&Record::Nonce, &Record::Nonce)
-- 
2.43.0

