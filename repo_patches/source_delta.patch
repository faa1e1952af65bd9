From d1ea5a8169baeddabe5ed26d67c63aa072b11fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 01/30] fix: write boolean values as "true", not "ture"

---
 src/serializers/http_header.rs | 2 +-
 src/serializers/url_path.rs    | 2 +-
 src/serializers/url_query.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index b007dbf..48b4b94 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index cbe723d..bb82d84 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -68,7 +68,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlPathSerializer<'b> {
     type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         track!(self.bind_next_var(s))?;
         Ok(())
     }
diff --git a/src/serializers/url_query.rs b/src/serializers/url_query.rs
index 493f0e5..0963eaa 100644
--- a/src/serializers/url_query.rs
+++ b/src/serializers/url_query.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlQuerySerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
-- 
2.43.0


From c45c9b3e181aae49d0670ef86b37d91aeb33ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:07 +0000
Subject: [PATCH 02/30] fix: decode percent-encoded path variables as UTF-8

---
 src/deserializers/url_path.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index a4bd233..ddfaad7 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -338,26 +338,21 @@ where
 }
 
 fn percent_decode(s: &str) -> Result<String> {
-    let mut chars = s.chars();
-    let mut decoded = String::new();
-    while let Some(c) = chars.next() {
-        if c == '%' {
-            let h0 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let h1 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let code = track!(u32::from_str_radix(&format!("{h0}{h1}"), 16)
-                .map_err(|e| track!(ErrorKind::Invalid.cause(e))))?;
-            let c = track!(char::from_u32(code)
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            decoded.push(c);
-            continue;
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::with_capacity(s.len());
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let h0 = bytes.next().and_then(|b| (b as char).to_digit(16));
+            let h1 = bytes.next().and_then(|b| (b as char).to_digit(16));
+            match (h0, h1) {
+                (Some(h0), Some(h1)) => decoded.push((h0 * 16 + h1) as u8),
+                _ => track_panic!(ErrorKind::Invalid, "Invalid escaped char: {:?}", s),
+            }
+        } else {
+            decoded.push(b);
         }
-        decoded.push(c);
     }
-    Ok(decoded)
+    track!(String::from_utf8(decoded).map_err(Error::from))
 }
 
 #[cfg(test)]
-- 
2.43.0


From f30791b72fd9f7a0c56a6107c3711d545b8cfb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:09 +0000
Subject: [PATCH 03/30] fix: do not serialize the query value as the path of
 requests without path variables

---
 src/serializers/rpc_request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index d5af33b..9cca66c 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -221,7 +221,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                         &self.entry_point,
                         &mut self.temp_url,
                     ))?;
-                    track!(value.serialize(&mut serializer))?;
+                    track!(().serialize(&mut serializer))?;
                     self.is_path_initialized = true;
                 }
                 {
-- 
2.43.0


From 414e6bbb970744ed2311198ad29af81447732241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 04/30] fix: reject responses whose body ends before its
 declared length

---
 src/client.rs |  6 +++++-
 src/misc.rs   | 16 ++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 915676a..68aa05a 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -10,6 +10,7 @@ use serde::{Deserialize, Serialize};
 
 use Error;
 use deserializers::RpcResponseDeserializer;
+use misc;
 use procedure::Procedure;
 use serializers::RpcRequestSerializer;
 use types::HttpMethod;
@@ -108,7 +109,10 @@ where
                     } else {
                         let future = futures::done(response.into_body_reader())
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
-                            .map(|(res, body)| (res.into_inner(), body));
+                            .and_then(|(res, body)| {
+                                track!(misc::check_body_end(&res))?;
+                                Ok((res.into_inner(), body))
+                            });
                         Box::new(future)
                     };
                     Phase::D(future)
diff --git a/src/misc.rs b/src/misc.rs
index 404aeaf..b9555c3 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,3 +1,6 @@
+use miasht;
+use miasht::builtin::io::BodyReader;
+use std::io;
 use std::sync::{Once};
 use url::Url;
 
@@ -22,3 +25,16 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
     )?;
     Ok(url)
 }
+
+/// Checks that the body has been read up to its declared end.
+///
+/// The peer may have closed the connection in the middle of the body.
+pub fn check_body_end<R>(reader: &BodyReader<R>) -> ::std::result::Result<(), miasht::Error> {
+    if let BodyReader::FixedLength(ref body) = *reader {
+        if body.limit() > 0 {
+            let e = io::Error::new(io::ErrorKind::UnexpectedEof, "Unexpected EOF in HTTP body");
+            return Err(track!(miasht::Error::from(e)));
+        }
+    }
+    Ok(())
+}
-- 
2.43.0


From afbb1d9da8f405320c6d22b2b954c6cc7e54f208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:24 +0000
Subject: [PATCH 05/30] fix: consume the request body completely before
 handling, and drop truncated requests

---
 src/server.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 682e7f3..a1b8afb 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -82,8 +82,17 @@ impl RpcServerBuilder {
             let future = futures::done(http_request.into_body_reader())
                 .map_err(Error::from)
                 .and_then(move |http_request| rpc_request.read_body(http_request))
+                .and_then(|(http_request, rpc_request)| {
+                    // Skips the rest of the body which may have been left unread.
+                    http_request
+                        .read_all_bytes()
+                        .and_then(|(http_request, _)| {
+                            track!(misc::check_body_end(&http_request))?;
+                            Ok((http_request.into_inner(), rpc_request))
+                        })
+                        .map_err(Error::from)
+                })
                 .and_then(move |(http_request, rpc_request)| {
-                    let http_request = http_request.into_inner();
                     handler
                         .handle_rpc(rpc_request)
                         .map_err(|_| unreachable!())
-- 
2.43.0


From 2fe6ec97c192ebb04a97dff09c9c673ec2e7d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:42 +0000
Subject: [PATCH 06/30] fix: answer requests for URLs without a path with 400
 instead of panicking

---
 src/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc.rs b/src/misc.rs
index b9555c3..35f85c5 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -4,7 +4,7 @@ use std::io;
 use std::sync::{Once};
 use url::Url;
 
-use {Error, Result};
+use {Error, ErrorKind, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
     static mut DUMMY_BASE_URL: Option<&'static Url> = None;
@@ -23,6 +23,7 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
             .parse(url)
             .map_err(Error::from)
     )?;
+    track_assert!(!url.cannot_be_a_base(), ErrorKind::Invalid, "Not a path: {}", url);
     Ok(url)
 }
 
-- 
2.43.0


From b29fbcf747366dc13b8f3cac76c96b787d88fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:43 +0000
Subject: [PATCH 07/30] fix: do not take the first segments of a path starting
 with "//" for a host name

---
 src/misc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/misc.rs b/src/misc.rs
index 35f85c5..59c885e 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -17,6 +17,14 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
             DUMMY_BASE_URL = Some(&*Box::into_raw(url))
         }
     });
+    // A leading "//" is an empty path segment here, not the beginning of a host name.
+    let absolute;
+    let url = if url.starts_with("//") {
+        absolute = format!("http://foo{}", url);
+        &absolute
+    } else {
+        url
+    };
     let url = track!(
         Url::options()
             .base_url(unsafe { DUMMY_BASE_URL })
-- 
2.43.0


From cba7bbf900fe6f41bf4eabbd980b768b857cf66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:44 +0000
Subject: [PATCH 08/30] fix: skip the values of unknown query parameters

---
 src/deserializers/url_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/deserializers/url_query.rs b/src/deserializers/url_query.rs
index 27a88f8..7e0227c 100644
--- a/src/deserializers/url_query.rs
+++ b/src/deserializers/url_query.rs
@@ -299,6 +299,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlQueryDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        if self.in_map {
+            let _v = track!(self.next_str())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From 036bd13ee8846faeff54060801ee1f6f3efed76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:46 +0000
Subject: [PATCH 09/30] fix: accept requests without any header

---
 src/deserializers/http_header.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 29549da..67f621b 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -315,7 +315,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let _v = track!(self.next_bytes())?;
+        if self.in_map {
+            let _v = track!(self.next_bytes())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From 2bdd074e8f81f68594f02aba4a3d5b30e9edc530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:47 +0000
Subject: [PATCH 10/30] fix: deserialize paths without variables into unit
 types

---
 src/deserializers/url_path.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index ddfaad7..c2698b9 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -218,11 +218,13 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
         track_panic!(ErrorKind::Invalid);
     }
 
-    fn deserialize_unit<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Invalid);
+        track_assert!(!self.in_seq, ErrorKind::Invalid);
+        track!(self.finish())?;
+        track!(visitor.visit_unit())
     }
 
     fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
-- 
2.43.0


From f3419d8dae5d5b3c35c54f41215a6398e00f8dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:17 +0000
Subject: [PATCH 11/30] fix: refuse path variables which URLs cannot carry ("."
 and "..")

---
 src/serializers/url_path.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index bb82d84..4ff4307 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -31,6 +31,12 @@ impl<'a> UrlPathSerializer<'a> {
     fn bind_next_var(&mut self, value: &str) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
         track_assert!(!self.append_until_next_var(), ErrorKind::Invalid);
+        track_assert!(
+            value != "." && value != "..",
+            ErrorKind::Invalid,
+            "A path segment cannot have the value {:?}",
+            value
+        );
         self.segments.push(value);
         self.index += 1;
         Ok(())
-- 
2.43.0


From fff53c1cb5e3e4cea95962750dc9cac1fbf923aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:18 +0000
Subject: [PATCH 12/30] fix: keep an empty first path segment

---
 src/serializers/rpc_request.rs | 8 +++++---
 src/serializers/url_path.rs    | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index 9cca66c..b38d6a3 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -27,7 +27,9 @@ impl RpcRequestSerializer {
         entry_point: EntryPoint,
     ) -> Self {
         RpcRequestSerializer {
-            temp_url: Url::parse("http://localhost/").expect("Never fail"),
+            // NOTE: `Url` loses an empty segment at the beginning of a path,
+            //       so the path is built behind a dummy segment.
+            temp_url: Url::parse("http://localhost/_").expect("Never fail"),
             is_path_initialized: false,
             method,
             entry_point,
@@ -55,7 +57,7 @@ impl RpcRequestSerializer {
                 ));
                 track_try_unwrap!(().serialize(&mut serializer));
             }
-            let relative_url = &self.temp_url[url::Position::BeforePath..];
+            let relative_url = &self.temp_url[url::Position::BeforePath..]["/_".len()..];
             let connection = self.connection.take().unwrap();
             connection.build_request(self.method, relative_url)
         }
@@ -228,7 +230,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                     let mut serializer = UrlQuerySerializer::new(self.temp_url.query_pairs_mut());
                     track!(value.serialize(&mut serializer))?;
                 }
-                let relative_url = &self.temp_url[url::Position::BeforePath..];
+                let relative_url = &self.temp_url[url::Position::BeforePath..]["/_".len()..];
                 let connection = self.connection.take().unwrap();
                 self.request = Some(connection.build_request(self.method, relative_url));
                 Ok(())
diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index 4ff4307..642e3be 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -44,6 +44,9 @@ impl<'a> UrlPathSerializer<'a> {
     fn finish(&mut self) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
         track_assert!(self.append_until_next_var(), ErrorKind::Invalid);
+        if self.entry_point.segments().is_empty() {
+            self.segments.push("");
+        }
         Ok(())
     }
     fn append_until_next_var(&mut self) -> bool {
-- 
2.43.0


From 4cfdc8fb8668a11db588f205fa416bbdabfa7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:19 +0000
Subject: [PATCH 13/30] fix: refuse header fields which HTTP cannot carry

---
 src/serializers/http_header.rs | 41 +++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 48b4b94..21b7313 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -22,14 +22,17 @@ impl<'a> HttpHeaderSerializer<'a> {
         }
     }
 
-    fn append(&mut self, key_or_val: Cow<str>) {
+    fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if let Some(key) = self.key.take() {
             let val = &key_or_val;
+            track_assert!(is_field_name(&key), ErrorKind::Invalid, "name={:?}", key);
+            track_assert!(is_field_value(val), ErrorKind::Invalid, "value={:?}", val);
             self.headers.add_raw_header(&key, val.as_bytes());
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
         }
+        Ok(())
     }
 }
 impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
@@ -46,8 +49,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
         let s = if v { "true" } else { "false" };
-        self.append(Cow::Borrowed(s));
-        Ok(())
+        track!(self.append(Cow::Borrowed(s)))
     }
     fn serialize_i8(self, v: i8) -> Result<Self::Ok> {
         track!(self.serialize_i64(v as i64))
@@ -59,8 +61,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_i64(v as i64))
     }
     fn serialize_i64(self, v: i64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_u8(self, v: u8) -> Result<Self::Ok> {
         track!(self.serialize_u64(v as u64))
@@ -72,28 +73,24 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_u64(v as u64))
     }
     fn serialize_u64(self, v: u64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok> {
         track!(self.serialize_f64(v as f64))
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok> {
         track!(self.serialize_str(&v.to_string()))
     }
     fn serialize_str(self, v: &str) -> Result<Self::Ok> {
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
         use std::str;
         let v = unsafe { str::from_utf8_unchecked(v) };
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_none(self) -> Result<Self::Ok> {
         track_assert!(self.key.take().is_some(), ErrorKind::Invalid);
@@ -232,3 +229,21 @@ impl<'a, 'b> ser::SerializeStructVariant for &'a mut HttpHeaderSerializer<'b> {
         Ok(())
     }
 }
+
+/// Returns `true` if `s` is a token of HTTP.
+fn is_field_name(s: &str) -> bool {
+    !s.is_empty()
+        && s.bytes()
+            .all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
+}
+
+/// Returns `true` if `s` is received by the peer as it is.
+///
+/// Control characters are not allowed in HTTP headers,
+/// and the white spaces around a value are not a part of it.
+fn is_field_value(s: &str) -> bool {
+    let is_space = |c| c == ' ' || c == '\t';
+    !s.bytes().any(|b| (b < 0x20 && b != b'\t') || b == 0x7F)
+        && !s.starts_with(is_space)
+        && !s.ends_with(is_space)
+}
-- 
2.43.0


From b92259ee9d966d1bab772b57f621f10927b39962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:22 +0000
Subject: [PATCH 14/30] fix: make the entry point without segments reachable

---
 src/router.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 29771c5..eda611b 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 use url::Url;
 
 use procedure::EntryPoint;
-use types::{HttpMethod, HttpStatus};
+use types::{HttpMethod, HttpStatus, PathSegment};
 use {Error, ErrorKind, Result};
 
 type HandleHttpRequestResult = Box<
@@ -83,7 +83,12 @@ impl Trie {
         handler: HandleHttpRequest,
     ) -> Result<()> {
         let mut node = &mut self.root;
-        for segment in entry_point.segments() {
+        // NOTE: The path of the entry point without segments is "/" (i.e., an empty segment).
+        let segments = match entry_point.segments() {
+            [] => &[PathSegment::Val("")],
+            segments => segments,
+        };
+        for segment in segments {
             use types::PathSegment::*;
             let key = match *segment {
                 Val(s) => Some(s),
-- 
2.43.0


From 067b7a03a3608f11d0ae8773b29138feb688ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 15/30] fix: route requests to any entry point that matches
 their method and path

---
 src/router.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index eda611b..e89ddf4 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -28,15 +28,16 @@ impl Router {
         url: &Url,
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
-        let mut trie = self.trie.root();
-        for segment in url.path_segments().expect("Never fails") {
-            if let Some(child) = trie.get_child(segment) {
-                trie = child;
-            } else {
-                return Err(HttpStatus::NotFound);
-            }
+        let segments = url.path_segments().expect("Never fails").collect::<Vec<_>>();
+        let mut nodes = Vec::new();
+        self.trie.root().collect_matched(&segments, &mut nodes);
+        if nodes.is_empty() {
+            return Err(HttpStatus::NotFound);
         }
-        trie.get_value(request.method())
+        nodes
+            .into_iter()
+            .filter_map(|node| node.get_value(request.method()))
+            .nth(0)
             .ok_or(HttpStatus::MethodNotAllowed)
     }
 }
@@ -123,11 +124,21 @@ impl TrieNode {
             leafs: HashMap::new(),
         }
     }
-    pub fn get_child<'a>(&'a self, segment: &str) -> Option<&'a Self> {
-        let segment: &'static str = unsafe { &*(segment as *const _) as _ };
-        self.children
-            .get(&Some(segment))
-            .or_else(|| self.children.get(&None))
+    /// Collects the nodes having entry points that match with `segments`.
+    ///
+    /// At each segment, the entry points having the constant one are preferred.
+    pub fn collect_matched<'a>(&'a self, segments: &[&str], nodes: &mut Vec<&'a Self>) {
+        if let Some((segment, segments)) = segments.split_first() {
+            let segment: &'static str = unsafe { &*(*segment as *const _) as _ };
+            if let Some(child) = self.children.get(&Some(segment)) {
+                child.collect_matched(segments, nodes);
+            }
+            if let Some(child) = self.children.get(&None) {
+                child.collect_matched(segments, nodes);
+            }
+        } else if !self.leafs.is_empty() {
+            nodes.push(self);
+        }
     }
     pub fn get_value(&self, method: HttpMethod) -> Option<&HandleHttpRequest> {
         self.leafs.get(&method)
-- 
2.43.0


From 8f58fd47a0d77b1392f545cde14b1ef9b2a89013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:53 +0000
Subject: [PATCH 16/30] fix: compare constant path segments with the decoded
 segments of requests

---
 src/deserializers/url_path.rs | 21 +++------------------
 src/misc.rs                   | 19 +++++++++++++++++++
 src/router.rs                 |  9 ++++++---
 3 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index c2698b9..93fad6a 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -5,6 +5,7 @@ use std::str::Split;
 use trackable::error::ErrorKindExt;
 use url::Url;
 
+use misc::percent_decode;
 use types::EntryPoint;
 use {Error, ErrorKind, Result};
 
@@ -43,6 +44,7 @@ impl<'de> UrlPathDeserializer<'de> {
                 .segments
                 .next()
                 .ok_or_else(|| ErrorKind::Invalid.error(),))?;
+            let actual = track!(percent_decode(actual))?;
             track_assert_eq!(actual, expected, ErrorKind::Invalid);
         }
         Ok(())
@@ -57,6 +59,7 @@ impl<'de> UrlPathDeserializer<'de> {
         self.index += 1;
         if let Some(expected) = self.entry_point.segments()[i].as_option() {
             let s = self.segments.next().unwrap();
+            let s = track!(percent_decode(s))?;
             track_assert_eq!(s, expected, ErrorKind::Invalid);
             self.next_value()
         } else {
@@ -339,24 +342,6 @@ where
     Ok(v)
 }
 
-fn percent_decode(s: &str) -> Result<String> {
-    let mut bytes = s.bytes();
-    let mut decoded = Vec::with_capacity(s.len());
-    while let Some(b) = bytes.next() {
-        if b == b'%' {
-            let h0 = bytes.next().and_then(|b| (b as char).to_digit(16));
-            let h1 = bytes.next().and_then(|b| (b as char).to_digit(16));
-            match (h0, h1) {
-                (Some(h0), Some(h1)) => decoded.push((h0 * 16 + h1) as u8),
-                _ => track_panic!(ErrorKind::Invalid, "Invalid escaped char: {:?}", s),
-            }
-        } else {
-            decoded.push(b);
-        }
-    }
-    track!(String::from_utf8(decoded).map_err(Error::from))
-}
-
 #[cfg(test)]
 mod test {
     use serde::Deserialize;
diff --git a/src/misc.rs b/src/misc.rs
index 59c885e..5d4d5fe 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -47,3 +47,22 @@ pub fn check_body_end<R>(reader: &BodyReader<R>) -> ::std::result::Result<(), mi
     }
     Ok(())
 }
+
+/// Decodes a percent-encoded path segment.
+pub fn percent_decode(s: &str) -> Result<String> {
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::with_capacity(s.len());
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let h0 = bytes.next().and_then(|b| (b as char).to_digit(16));
+            let h1 = bytes.next().and_then(|b| (b as char).to_digit(16));
+            match (h0, h1) {
+                (Some(h0), Some(h1)) => decoded.push((h0 * 16 + h1) as u8),
+                _ => track_panic!(ErrorKind::Invalid, "Invalid escaped char: {:?}", s),
+            }
+        } else {
+            decoded.push(b);
+        }
+    }
+    track!(String::from_utf8(decoded).map_err(Error::from))
+}
diff --git a/src/router.rs b/src/router.rs
index e89ddf4..53136ca 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -5,6 +5,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
+use misc;
 use procedure::EntryPoint;
 use types::{HttpMethod, HttpStatus, PathSegment};
 use {Error, ErrorKind, Result};
@@ -129,9 +130,11 @@ impl TrieNode {
     /// At each segment, the entry points having the constant one are preferred.
     pub fn collect_matched<'a>(&'a self, segments: &[&str], nodes: &mut Vec<&'a Self>) {
         if let Some((segment, segments)) = segments.split_first() {
-            let segment: &'static str = unsafe { &*(*segment as *const _) as _ };
-            if let Some(child) = self.children.get(&Some(segment)) {
-                child.collect_matched(segments, nodes);
+            if let Ok(segment) = misc::percent_decode(segment) {
+                let segment: &'static str = unsafe { &*(segment.as_str() as *const _) as _ };
+                if let Some(child) = self.children.get(&Some(segment)) {
+                    child.collect_matched(segments, nodes);
+                }
             }
             if let Some(child) = self.children.get(&None) {
                 child.collect_matched(segments, nodes);
-- 
2.43.0


From a03afcb4cfa927ec7ced65672c623afd1cb053e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:05 +0000
Subject: [PATCH 17/30] fix: do not let wall clock changes alter the suspension
 of addresses

---
 src/pool.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 099882d..c54eafd 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -3,7 +3,7 @@ use std::cmp::Ordering;
 use std::collections::{BTreeMap, Bound, HashMap};
 use std::fmt;
 use std::net::SocketAddr;
-use std::time::{Duration, SystemTime};
+use std::time::{Duration, Instant};
 use fibers::net::TcpStream;
 use fibers::sync::mpsc;
 use fibers::sync::oneshot;
@@ -102,7 +102,7 @@ pub struct RpcClientPool {
     command_tx: mpsc::Sender<Command>,
     command_rx: mpsc::Receiver<Command>,
     seq_no: u64,
-    blacklist: HashMap<SocketAddr, SystemTime>,
+    blacklist: HashMap<SocketAddr, Instant>,
     suspended_duration: Duration,
     connect_timeout: Duration,
 }
@@ -148,14 +148,16 @@ impl RpcClientPool {
     fn handle_command(&mut self, command: Command) {
         match command {
             Command::AcquireConnection { addr, reply } => {
-                if let Some(suspended_until) = self.blacklist.remove(&addr) {
-                    if suspended_until > SystemTime::now() {
-                        self.blacklist.insert(addr, suspended_until);
+                if let Some(suspended_at) = self.blacklist.remove(&addr) {
+                    let elapsed = suspended_at.elapsed();
+                    if elapsed < self.suspended_duration {
+                        self.blacklist.insert(addr, suspended_at);
                         let future = PooledConnection::failed(
                             ErrorKind::Other
                                 .cause(format!(
-                                    "The address {:?} is unavailable until {:?}",
-                                    addr, suspended_until
+                                    "The address {:?} is unavailable for {:?}",
+                                    addr,
+                                    self.suspended_duration - elapsed
                                 ))
                                 .into(),
                         );
@@ -170,8 +172,7 @@ impl RpcClientPool {
                 self.release_connection(addr, connection);
             }
             Command::AddToBlacklist { addr } => {
-                let suspended_until = SystemTime::now() + self.suspended_duration;
-                self.blacklist.insert(addr, suspended_until);
+                self.blacklist.insert(addr, Instant::now());
             }
         }
     }
-- 
2.43.0


From d8daaacb7e9b3f8cacdb323a7d745509c1c15dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:06 +0000
Subject: [PATCH 18/30] fix: make problem responses deserializable on their own

---
 src/rfc7807.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rfc7807.rs b/src/rfc7807.rs
index 04a888b..b9069f0 100644
--- a/src/rfc7807.rs
+++ b/src/rfc7807.rs
@@ -1,6 +1,7 @@
 //! "Problem Details for HTTP APIs ([RFC 7807][RFC 7807])" related components.
 //!
 //! [RFC 7807]: https://tools.ietf.org/html/rfc7807
+use serde::{Deserialize, Deserializer};
 use serdeconv;
 use std::error;
 use std::fmt;
@@ -17,6 +18,7 @@ use RpcResponse;
 /// [RFC 7807]: https://tools.ietf.org/html/rfc7807
 #[derive(Debug, Serialize, Deserialize)]
 pub struct ProblemResponse {
+    #[serde(default, deserialize_with = "deserialize_status")]
     status: Option<u16>,
     header: ProblemHeader,
     #[serde(skip)]
@@ -41,6 +43,14 @@ impl ProblemResponse {
         self.body = problem;
     }
 }
+
+/// Deserializes the `status` field (HTTP responses always have their status).
+fn deserialize_status<'de, D>(deserializer: D) -> Result<Option<u16>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    u16::deserialize(deserializer).map(Some)
+}
 impl RpcResponse for ProblemResponse {
     fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
         let json = serdeconv::to_json_string_pretty(&self.body).expect("Never fails");
-- 
2.43.0


From acba6f4b0a0a45cfdad35dc0dae70c8715019183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:39 +0000
Subject: [PATCH 19/30] fix: keep accepting clients after a failed accept

---
 src/server.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index a1b8afb..6f92438 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -1,4 +1,5 @@
 use fibers::net::TcpStream;
+use fibers::time::timer;
 use fibers::{self, BoxSpawn, Spawn};
 use futures::stream::StreamFuture;
 use futures::{self, Async, Future, Poll, Stream};
@@ -11,6 +12,8 @@ use serde::Deserialize;
 use slog::{Discard, Logger};
 use std::io;
 use std::net::SocketAddr;
+use std::sync::mpsc::RecvError;
+use std::time::Duration;
 use trackable::error::ErrorKindExt;
 
 use deserializers::RpcRequestDeserializer;
@@ -24,6 +27,9 @@ use {Error, ErrorKind, Result};
 
 type BoxFuture<T, E> = Box<dyn Future<Item = T, Error = E> + Send + 'static>;
 
+/// The delay before accepting clients again after a failure.
+const ACCEPT_RETRY_DELAY_MS: u64 = 10;
+
 /// The `RpcServer` builder.
 pub struct RpcServerBuilder {
     bind_addr: SocketAddr,
@@ -131,15 +137,29 @@ pub struct RpcServer {
     spawner: BoxSpawn,
     logger: Logger,
     router: Router,
-    phase:
-        Phase<fibers::net::futures::TcpListenerBind, StreamFuture<fibers::net::streams::Incoming>>,
+    phase: Phase<
+        fibers::net::futures::TcpListenerBind,
+        StreamFuture<fibers::net::streams::Incoming>,
+        BoxFuture<fibers::net::streams::Incoming, RecvError>,
+    >,
 }
 impl Future for RpcServer {
     type Item = ();
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         loop {
-            let next = match track!(self.phase.poll().map_err(Error::from))? {
+            let polled = match self.phase.poll() {
+                Err(Phase::B((e, incoming))) => {
+                    // A failed accept (e.g., the connection has been aborted already or
+                    // there are too many open files) must not stop the server.
+                    warn!(self.logger, "Failed to accept a client: {}", e);
+                    let delay = Duration::from_millis(ACCEPT_RETRY_DELAY_MS);
+                    self.phase = Phase::C(Box::new(timer::timeout(delay).map(|()| incoming)));
+                    continue;
+                }
+                result => track!(result.map_err(Error::from))?,
+            };
+            let next = match polled {
                 Async::NotReady => return Ok(Async::NotReady),
                 Async::Ready(Phase::A(listener)) => {
                     info!(
@@ -168,6 +188,7 @@ impl Future for RpcServer {
                     self.spawner.spawn(future);
                     Phase::B(incoming.into_future())
                 }
+                Async::Ready(Phase::C(incoming)) => Phase::B(incoming.into_future()),
                 _ => unreachable!(),
             };
             self.phase = next;
-- 
2.43.0


From 5a74a8e561dad18e85455bfc47f85b3b834f7eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:52 +0000
Subject: [PATCH 20/30] fix: do not share handlers that are not Sync between
 server threads

---
 src/router.rs | 5 ++---
 src/server.rs | 5 ++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 53136ca..d858934 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -16,13 +16,12 @@ type HandleHttpRequestResult = Box<
         + 'static,
 >;
 type HandleHttpRequest =
-    Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult + Send + 'static>;
+    Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult + Send + Sync + 'static>;
 
 #[derive(Clone)]
 pub struct Router {
     trie: Arc<Trie>,
 }
-unsafe impl Send for Router {}
 impl Router {
     pub fn route(
         &self,
@@ -62,7 +61,7 @@ impl RouterBuilder {
         handler: H,
     ) -> Result<()>
     where
-        H: Send + 'static + Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult,
+        H: Send + Sync + 'static + Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult,
     {
         track!(self.trie.insert(method, &entry_point, Box::new(handler)))?;
         Ok(())
diff --git a/src/server.rs b/src/server.rs
index 6f92438..5a30adc 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -13,6 +13,7 @@ use slog::{Discard, Logger};
 use std::io;
 use std::net::SocketAddr;
 use std::sync::mpsc::RecvError;
+use std::sync::Mutex;
 use std::time::Duration;
 use trackable::error::ErrorKindExt;
 
@@ -58,8 +59,10 @@ impl RpcServerBuilder {
         H: HandleRpc<P>,
     {
         use RpcRequest;
+        // NOTE: `HandleRpc` doesn't require `Sync`, but the server threads share the handler.
+        let handler = Mutex::new(handler);
         let handle_http_request = move |url, http_request| {
-            let handler = handler.clone();
+            let handler = handler.lock().unwrap_or_else(|e| e.into_inner()).clone();
             let rpc_request: P::Request = {
                 let deserialize_result = {
                     let mut de = RpcRequestDeserializer::new(P::entry_point(), &url, &http_request);
-- 
2.43.0


From 878a49d06f341989116007cfad2a0c114edb2ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:08 +0000
Subject: [PATCH 21/30] fix: refuse path variables from which tabs and newlines
 would be removed

---
 src/serializers/url_path.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index 642e3be..5970a9e 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -31,8 +31,9 @@ impl<'a> UrlPathSerializer<'a> {
     fn bind_next_var(&mut self, value: &str) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
         track_assert!(!self.append_until_next_var(), ErrorKind::Invalid);
+        // NOTE: `Url` removes tabs and newlines from the segments.
         track_assert!(
-            value != "." && value != "..",
+            value != "." && value != ".." && !value.contains(&['\t', '\n', '\r'][..]),
             ErrorKind::Invalid,
             "A path segment cannot have the value {:?}",
             value
-- 
2.43.0


From a75ed4b7b1d47f1a3b70453e450dbefdd640db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:45 +0000
Subject: [PATCH 22/30] fix: refuse messages whose head would be cut off

---
 src/misc.rs                     | 12 ++++++++++++
 src/serializers/http_header.rs  |  8 ++++++++
 src/serializers/rpc_request.rs  | 17 +++++++++++++----
 src/serializers/rpc_response.rs | 23 ++++++++++++++++-------
 src/server.rs                   |  2 +-
 5 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/src/misc.rs b/src/misc.rs
index 5d4d5fe..cab0ceb 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -66,3 +66,15 @@ pub fn percent_decode(s: &str) -> Result<String> {
     }
     track!(String::from_utf8(decoded).map_err(Error::from))
 }
+
+/// The maximum size of the head of a HTTP message (`miasht` discards the rest).
+pub const MAX_HEAD_SIZE: usize = 8096;
+
+/// Checks that the head of a HTTP message is not too large.
+///
+/// `size` is the size of the head excluding the "Content-Length" field and the last empty line.
+pub fn check_head_size(size: usize, content_length: usize) -> Result<()> {
+    let size = size + format!("Content-Length: {}\r\n\r\n", content_length).len();
+    track_assert!(size <= MAX_HEAD_SIZE, ErrorKind::Invalid, "Too large head: {} bytes", size);
+    Ok(())
+}
diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 21b7313..c504338 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -11,6 +11,7 @@ pub struct HttpHeaderSerializer<'a> {
     is_first: bool,
     key: Option<Cow<'static, str>>,
     headers: HeadersMut<'a>,
+    written_size: usize,
 }
 impl<'a> HttpHeaderSerializer<'a> {
     /// Makes a new `HttpHeaderSerializer` instance.
@@ -19,15 +20,22 @@ impl<'a> HttpHeaderSerializer<'a> {
             is_first: true,
             key: None,
             headers,
+            written_size: 0,
         }
     }
 
+    /// Returns the size of the header fields that have been written by this serializer.
+    pub fn written_size(&self) -> usize {
+        self.written_size
+    }
+
     fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if let Some(key) = self.key.take() {
             let val = &key_or_val;
             track_assert!(is_field_name(&key), ErrorKind::Invalid, "name={:?}", key);
             track_assert!(is_field_value(val), ErrorKind::Invalid, "value={:?}", val);
             self.headers.add_raw_header(&key, val.as_bytes());
+            self.written_size += key.len() + ": ".len() + val.len() + "\r\n".len();
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index b38d6a3..2cbe2d4 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -6,6 +6,7 @@ use serde::ser::Impossible;
 use url::{self, Url};
 
 use {Error, ErrorKind, Result};
+use misc;
 use types::{EntryPoint, HttpMethod};
 use serializers::{HttpHeaderSerializer, UrlPathSerializer, UrlQuerySerializer};
 
@@ -18,6 +19,7 @@ pub struct RpcRequestSerializer {
     entry_point: EntryPoint,
     connection: Option<Connection<TcpStream>>,
     request: Option<RequestBuilder<TcpStream>>,
+    header_size: usize,
 }
 impl RpcRequestSerializer {
     /// Makes a new `RpcRequestSerializer` instance.
@@ -35,6 +37,7 @@ impl RpcRequestSerializer {
             entry_point,
             connection: Some(connection),
             request: None,
+            header_size: 0,
         }
     }
 
@@ -42,6 +45,8 @@ impl RpcRequestSerializer {
     pub fn finish(mut self, body: &[u8]) -> Result<Request<TcpStream>> {
         let mut request = self.take_request();
         request.add_header(&ContentLength(body.len() as u64));
+        let line = format!("{} {} HTTP/1.1\r\n", self.method, self.relative_url());
+        track!(misc::check_head_size(line.len() + self.header_size, body.len()))?;
         Ok(request.finish())
     }
 
@@ -57,11 +62,13 @@ impl RpcRequestSerializer {
                 ));
                 track_try_unwrap!(().serialize(&mut serializer));
             }
-            let relative_url = &self.temp_url[url::Position::BeforePath..]["/_".len()..];
             let connection = self.connection.take().unwrap();
-            connection.build_request(self.method, relative_url)
+            connection.build_request(self.method, self.relative_url())
         }
     }
+    fn relative_url(&self) -> &str {
+        &self.temp_url[url::Position::BeforePath..]["/_".len()..]
+    }
 }
 impl<'a> ser::Serializer for &'a mut RpcRequestSerializer {
     type Ok = ();
@@ -230,9 +237,9 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                     let mut serializer = UrlQuerySerializer::new(self.temp_url.query_pairs_mut());
                     track!(value.serialize(&mut serializer))?;
                 }
-                let relative_url = &self.temp_url[url::Position::BeforePath..]["/_".len()..];
                 let connection = self.connection.take().unwrap();
-                self.request = Some(connection.build_request(self.method, relative_url));
+                let request = connection.build_request(self.method, self.relative_url());
+                self.request = Some(request);
                 Ok(())
             }
             "header" => {
@@ -240,6 +247,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                 {
                     let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                     track!(value.serialize(&mut serializer))?;
+                    self.header_size += serializer.written_size();
                 }
                 self.request = Some(request);
                 Ok(())
@@ -263,6 +271,7 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcRequestSerializer {
                 let request = self.request.as_mut().unwrap();
                 let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                 track!(value.serialize(&mut serializer))?;
+                self.header_size += serializer.written_size();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
diff --git a/src/serializers/rpc_response.rs b/src/serializers/rpc_response.rs
index 2413f48..4da6b4f 100644
--- a/src/serializers/rpc_response.rs
+++ b/src/serializers/rpc_response.rs
@@ -8,6 +8,7 @@ use serdeconv;
 use trackable::error::ErrorKindExt;
 
 use {Error, ErrorKind, Result, RpcResponse};
+use misc;
 use serializers::HttpHeaderSerializer;
 use types::HttpStatus;
 
@@ -16,6 +17,7 @@ use types::HttpStatus;
 pub struct RpcResponseSerializer {
     connection: Option<Connection<TcpStream>>,
     response: Option<ResponseBuilder<TcpStream>>,
+    head_size: usize,
 }
 impl RpcResponseSerializer {
     /// Serializes the RPC response.
@@ -37,6 +39,7 @@ impl RpcResponseSerializer {
         RpcResponseSerializer {
             connection: Some(connection),
             response: None,
+            head_size: 0,
         }
     }
 
@@ -47,9 +50,16 @@ impl RpcResponseSerializer {
     ) -> Result<(Response<TcpStream>, Box<dyn AsRef<[u8]> + Send + 'static>)> {
         track_assert!(self.response.is_some(), ErrorKind::Invalid);
         let mut response = self.response.expect("Never fail");
-        response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));
+        let body_size = (*body).as_ref().len();
+        response.add_header(&headers::ContentLength(body_size as u64));
+        track!(misc::check_head_size(self.head_size, body_size))?;
         Ok((response.finish(), body))
     }
+
+    fn build_response(&mut self, status: HttpStatus) {
+        self.head_size = format!("HTTP/1.1 {}\r\n", status.as_raw()).len();
+        self.response = self.connection.take().map(|c| c.build_response(status));
+    }
 }
 impl<'a> ser::Serializer for &'a mut RpcResponseSerializer {
     type Ok = ();
@@ -128,8 +138,7 @@ impl<'a> ser::Serializer for &'a mut RpcResponseSerializer {
     ) -> Result<Self::Ok> {
         track_assert!(self.connection.is_some(), ErrorKind::Invalid);
         let status = track!(status_from_str(variant))?;
-        let response = self.connection.take().unwrap().build_response(status);
-        self.response = Some(response);
+        self.build_response(status);
         Ok(())
     }
     fn serialize_newtype_struct<T>(self, _name: &'static str, value: &T) -> Result<Self::Ok>
@@ -187,8 +196,7 @@ impl<'a> ser::Serializer for &'a mut RpcResponseSerializer {
     ) -> Result<Self::SerializeStructVariant> {
         track_assert!(self.connection.is_some(), ErrorKind::Invalid);
         let status = track!(status_from_str(variant))?;
-        let response = self.connection.take().unwrap().build_response(status);
-        self.response = Some(response);
+        self.build_response(status);
         Ok(self)
     }
 }
@@ -211,8 +219,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcResponseSerializer {
                     "Unknown HTTP status: {}",
                     status
                 )?;
-                let response = self.connection.take().unwrap().build_response(status);
-                self.response = Some(response);
+                self.build_response(status);
                 Ok(())
             }
             "header" => {
@@ -220,6 +227,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcResponseSerializer {
                 let response = self.response.as_mut().unwrap();
                 let mut serializer = HttpHeaderSerializer::new(response.headers_mut());
                 track!(value.serialize(&mut serializer))?;
+                self.head_size += serializer.written_size();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
@@ -241,6 +249,7 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcResponseSerializer {
                 let response = self.response.as_mut().unwrap();
                 let mut serializer = HttpHeaderSerializer::new(response.headers_mut());
                 track!(value.serialize(&mut serializer))?;
+                self.head_size += serializer.written_size();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
diff --git a/src/server.rs b/src/server.rs
index 5a30adc..1edac52 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -180,7 +180,7 @@ impl Future for RpcServer {
                     let connected = connected.then(|result| {
                         let stream = track!(result.map_err(miasht::Error::from))?;
                         let _ = stream.with_inner(|inner| inner.set_nodelay(true));
-                        Ok(Connection::new(stream, 1024, 8096, 32))
+                        Ok(Connection::new(stream, 1024, misc::MAX_HEAD_SIZE, 32))
                     });
                     let future = HandleHttpRequest {
                         logger: self.logger.clone(),
-- 
2.43.0


From 405bd9383296ab8d00252aec9e4fa1fd159b4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:21 +0000
Subject: [PATCH 23/30] fix: carry header fields of raw bytes as they are

They were turned into a `str` without any check, and then decoded as UTF-8:
undefined behaviour, which ends the process if the bytes are not UTF-8.
---
 src/serializers/http_header.rs | 35 +++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index c504338..8290a61 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -1,4 +1,5 @@
 use std::borrow::Cow;
+use std::str;
 use miasht::header::HeadersMut;
 use serde::{ser, Serialize};
 use serde::ser::Impossible;
@@ -30,15 +31,20 @@ impl<'a> HttpHeaderSerializer<'a> {
     }
 
     fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
+        if self.key.is_some() {
+            track!(self.append_value(key_or_val.as_bytes()))
+        } else {
+            let key = key_or_val.into_owned();
+            self.key = Some(Cow::Owned(key));
+            Ok(())
+        }
+    }
+    fn append_value(&mut self, val: &[u8]) -> Result<()> {
         if let Some(key) = self.key.take() {
-            let val = &key_or_val;
             track_assert!(is_field_name(&key), ErrorKind::Invalid, "name={:?}", key);
             track_assert!(is_field_value(val), ErrorKind::Invalid, "value={:?}", val);
-            self.headers.add_raw_header(&key, val.as_bytes());
+            self.headers.add_raw_header(&key, val);
             self.written_size += key.len() + ": ".len() + val.len() + "\r\n".len();
-        } else {
-            let key = key_or_val.into_owned();
-            self.key = Some(Cow::Owned(key));
         }
         Ok(())
     }
@@ -96,9 +102,12 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
-        use std::str;
-        let v = unsafe { str::from_utf8_unchecked(v) };
-        track!(self.append(Cow::Borrowed(v)))
+        if self.key.is_some() {
+            track!(self.append_value(v))
+        } else {
+            let key = track!(str::from_utf8(v).map_err(Error::from))?;
+            track!(self.append(Cow::Borrowed(key)))
+        }
     }
     fn serialize_none(self) -> Result<Self::Ok> {
         track_assert!(self.key.take().is_some(), ErrorKind::Invalid);
@@ -249,9 +258,9 @@ fn is_field_name(s: &str) -> bool {
 ///
 /// Control characters are not allowed in HTTP headers,
 /// and the white spaces around a value are not a part of it.
-fn is_field_value(s: &str) -> bool {
-    let is_space = |c| c == ' ' || c == '\t';
-    !s.bytes().any(|b| (b < 0x20 && b != b'\t') || b == 0x7F)
-        && !s.starts_with(is_space)
-        && !s.ends_with(is_space)
+fn is_field_value(s: &[u8]) -> bool {
+    let is_space = |b: Option<&u8>| b == Some(&b' ') || b == Some(&b'\t');
+    !s.iter().any(|&b| (b < 0x20 && b != b'\t') || b == 0x7F)
+        && !is_space(s.first())
+        && !is_space(s.last())
 }
-- 
2.43.0


From 536ca642d01c283fef7435072a5e33b9a64dad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:47 +0000
Subject: [PATCH 24/30] fix: find idle connections to IPv6 addresses that
 differ only in the scope

Connections were ordered by IP address and port only, so a connection to
the same address in another scope hid the idle ones to the wanted address.
---
 src/pool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index c54eafd..7955a13 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -36,8 +36,8 @@ impl PartialOrd for ConnectionId {
 }
 impl Ord for ConnectionId {
     fn cmp(&self, other: &Self) -> Ordering {
-        let other = (other.addr.ip(), other.addr.port(), other.seq_no);
-        (self.addr.ip(), self.addr.port(), self.seq_no).cmp(&other)
+        // NOTE: IPv6 addresses may differ only in the scope.
+        (self.addr, self.seq_no).cmp(&(other.addr, other.seq_no))
     }
 }
 
-- 
2.43.0


From 79e66b2f552ec7f60b99cf1672830295794749b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:22 +0000
Subject: [PATCH 25/30] fix: refuse header fields that contradict the framing
 of the message

A field "Content-Length" that differs from the size of the body, or "Transfer-Encoding", in the header of a request or response
made the peer read another body (or wait forever), because the first one of such fields wins.
---
 src/misc.rs                     |  6 ++++++
 src/serializers/http_header.rs  | 27 +++++++++++++++++++++++++++
 src/serializers/rpc_request.rs  |  5 +++++
 src/serializers/rpc_response.rs |  5 +++++
 4 files changed, 43 insertions(+)

diff --git a/src/misc.rs b/src/misc.rs
index cab0ceb..6327d77 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -78,3 +78,9 @@ pub fn check_head_size(size: usize, content_length: usize) -> Result<()> {
     track_assert!(size <= MAX_HEAD_SIZE, ErrorKind::Invalid, "Too large head: {} bytes", size);
     Ok(())
 }
+
+/// Checks that the "Content-Length" specified by the user (if any) is the actual size of the body.
+pub fn check_content_length(specified: Option<u64>, actual: usize) -> Result<()> {
+    track_assert_eq!(specified.unwrap_or(actual as u64), actual as u64, ErrorKind::Invalid);
+    Ok(())
+}
diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 8290a61..e6d9d6a 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -13,6 +13,7 @@ pub struct HttpHeaderSerializer<'a> {
     key: Option<Cow<'static, str>>,
     headers: HeadersMut<'a>,
     written_size: usize,
+    content_length: Option<u64>,
 }
 impl<'a> HttpHeaderSerializer<'a> {
     /// Makes a new `HttpHeaderSerializer` instance.
@@ -22,6 +23,7 @@ impl<'a> HttpHeaderSerializer<'a> {
             key: None,
             headers,
             written_size: 0,
+            content_length: None,
         }
     }
 
@@ -30,6 +32,11 @@ impl<'a> HttpHeaderSerializer<'a> {
         self.written_size
     }
 
+    /// Returns the value of the "Content-Length" field that has been written by this serializer.
+    pub fn content_length(&self) -> Option<u64> {
+        self.content_length
+    }
+
     fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if self.key.is_some() {
             track!(self.append_value(key_or_val.as_bytes()))
@@ -43,11 +50,31 @@ impl<'a> HttpHeaderSerializer<'a> {
         if let Some(key) = self.key.take() {
             track_assert!(is_field_name(&key), ErrorKind::Invalid, "name={:?}", key);
             track_assert!(is_field_value(val), ErrorKind::Invalid, "value={:?}", val);
+            track!(self.check_framing(&key, val))?;
             self.headers.add_raw_header(&key, val);
             self.written_size += key.len() + ": ".len() + val.len() + "\r\n".len();
         }
         Ok(())
     }
+
+    /// Checks that the field doesn't contradict the framing of the message,
+    /// which is determined by the size of the body.
+    fn check_framing(&mut self, key: &str, val: &[u8]) -> Result<()> {
+        if key.eq_ignore_ascii_case("content-length") {
+            track_assert!(val.iter().all(u8::is_ascii_digit), ErrorKind::Invalid, "value={:?}", val);
+            let length = track!(str::from_utf8(val).map_err(Error::from))?;
+            let length = track!(length.parse::<u64>().map_err(Error::from))?;
+            track_assert_eq!(self.content_length.unwrap_or(length), length, ErrorKind::Invalid);
+            self.content_length = Some(length);
+        }
+        track_assert!(
+            !key.eq_ignore_ascii_case("transfer-encoding"),
+            ErrorKind::Invalid,
+            "value={:?}",
+            val
+        );
+        Ok(())
+    }
 }
 impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type Ok = ();
diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index 2cbe2d4..0c487aa 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -20,6 +20,7 @@ pub struct RpcRequestSerializer {
     connection: Option<Connection<TcpStream>>,
     request: Option<RequestBuilder<TcpStream>>,
     header_size: usize,
+    content_length: Option<u64>,
 }
 impl RpcRequestSerializer {
     /// Makes a new `RpcRequestSerializer` instance.
@@ -38,12 +39,14 @@ impl RpcRequestSerializer {
             connection: Some(connection),
             request: None,
             header_size: 0,
+            content_length: None,
         }
     }
 
     /// Finishes the serialization and returns the resulting HTTP request and body.
     pub fn finish(mut self, body: &[u8]) -> Result<Request<TcpStream>> {
         let mut request = self.take_request();
+        track!(misc::check_content_length(self.content_length, body.len()))?;
         request.add_header(&ContentLength(body.len() as u64));
         let line = format!("{} {} HTTP/1.1\r\n", self.method, self.relative_url());
         track!(misc::check_head_size(line.len() + self.header_size, body.len()))?;
@@ -248,6 +251,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                     let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                     track!(value.serialize(&mut serializer))?;
                     self.header_size += serializer.written_size();
+                    self.content_length = serializer.content_length();
                 }
                 self.request = Some(request);
                 Ok(())
@@ -272,6 +276,7 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcRequestSerializer {
                 let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                 track!(value.serialize(&mut serializer))?;
                 self.header_size += serializer.written_size();
+                self.content_length = serializer.content_length();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
diff --git a/src/serializers/rpc_response.rs b/src/serializers/rpc_response.rs
index 4da6b4f..12cab05 100644
--- a/src/serializers/rpc_response.rs
+++ b/src/serializers/rpc_response.rs
@@ -18,6 +18,7 @@ pub struct RpcResponseSerializer {
     connection: Option<Connection<TcpStream>>,
     response: Option<ResponseBuilder<TcpStream>>,
     head_size: usize,
+    content_length: Option<u64>,
 }
 impl RpcResponseSerializer {
     /// Serializes the RPC response.
@@ -40,6 +41,7 @@ impl RpcResponseSerializer {
             connection: Some(connection),
             response: None,
             head_size: 0,
+            content_length: None,
         }
     }
 
@@ -51,6 +53,7 @@ impl RpcResponseSerializer {
         track_assert!(self.response.is_some(), ErrorKind::Invalid);
         let mut response = self.response.expect("Never fail");
         let body_size = (*body).as_ref().len();
+        track!(misc::check_content_length(self.content_length, body_size))?;
         response.add_header(&headers::ContentLength(body_size as u64));
         track!(misc::check_head_size(self.head_size, body_size))?;
         Ok((response.finish(), body))
@@ -228,6 +231,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcResponseSerializer {
                 let mut serializer = HttpHeaderSerializer::new(response.headers_mut());
                 track!(value.serialize(&mut serializer))?;
                 self.head_size += serializer.written_size();
+                self.content_length = serializer.content_length();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
@@ -250,6 +254,7 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcResponseSerializer {
                 let mut serializer = HttpHeaderSerializer::new(response.headers_mut());
                 track!(value.serialize(&mut serializer))?;
                 self.head_size += serializer.written_size();
+                self.content_length = serializer.content_length();
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
-- 
2.43.0


From f9ffb5e12402c6cfe92b15a589485ef7edf234ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 26/30] fix: send the Host field which HTTP/1.1 requires

Servers must answer HTTP/1.1 requests without it with 400 (RFC 7230, 5.4), so calls to others than htrpc servers failed
unless the header of the request type had such a field.
---
 src/serializers/http_header.rs |  8 ++++++++
 src/serializers/rpc_request.rs | 22 +++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index e6d9d6a..5ff5d36 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -14,6 +14,7 @@ pub struct HttpHeaderSerializer<'a> {
     headers: HeadersMut<'a>,
     written_size: usize,
     content_length: Option<u64>,
+    has_host: bool,
 }
 impl<'a> HttpHeaderSerializer<'a> {
     /// Makes a new `HttpHeaderSerializer` instance.
@@ -24,6 +25,7 @@ impl<'a> HttpHeaderSerializer<'a> {
             headers,
             written_size: 0,
             content_length: None,
+            has_host: false,
         }
     }
 
@@ -37,6 +39,11 @@ impl<'a> HttpHeaderSerializer<'a> {
         self.content_length
     }
 
+    /// Returns `true` if the "Host" field has been written by this serializer.
+    pub fn has_host(&self) -> bool {
+        self.has_host
+    }
+
     fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if self.key.is_some() {
             track!(self.append_value(key_or_val.as_bytes()))
@@ -51,6 +58,7 @@ impl<'a> HttpHeaderSerializer<'a> {
             track_assert!(is_field_name(&key), ErrorKind::Invalid, "name={:?}", key);
             track_assert!(is_field_value(val), ErrorKind::Invalid, "value={:?}", val);
             track!(self.check_framing(&key, val))?;
+            self.has_host |= key.eq_ignore_ascii_case("host");
             self.headers.add_raw_header(&key, val);
             self.written_size += key.len() + ": ".len() + val.len() + "\r\n".len();
         }
diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index 0c487aa..1e23e85 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -1,3 +1,4 @@
+use std::net::SocketAddr;
 use fibers::net::TcpStream;
 use miasht::builtin::headers::ContentLength;
 use miasht::client::{Connection, Request, RequestBuilder};
@@ -21,14 +22,21 @@ pub struct RpcRequestSerializer {
     request: Option<RequestBuilder<TcpStream>>,
     header_size: usize,
     content_length: Option<u64>,
+    host: Option<String>,
 }
 impl RpcRequestSerializer {
     /// Makes a new `RpcRequestSerializer` instance.
     pub fn new(
-        connection: Connection<TcpStream>,
+        mut connection: Connection<TcpStream>,
         method: HttpMethod,
         entry_point: EntryPoint,
     ) -> Self {
+        let host = connection
+            .as_mut()
+            .stream
+            .peer_addr()
+            .map(|addr| SocketAddr::new(addr.ip(), addr.port()).to_string())
+            .unwrap_or_else(|_| String::new());
         RpcRequestSerializer {
             // NOTE: `Url` loses an empty segment at the beginning of a path,
             //       so the path is built behind a dummy segment.
@@ -40,6 +48,7 @@ impl RpcRequestSerializer {
             request: None,
             header_size: 0,
             content_length: None,
+            host: Some(host),
         }
     }
 
@@ -47,6 +56,11 @@ impl RpcRequestSerializer {
     pub fn finish(mut self, body: &[u8]) -> Result<Request<TcpStream>> {
         let mut request = self.take_request();
         track!(misc::check_content_length(self.content_length, body.len()))?;
+        if let Some(ref host) = self.host {
+            // NOTE: HTTP/1.1 requires this field.
+            request.add_raw_header("Host", host.as_bytes());
+            self.header_size += "Host: \r\n".len() + host.len();
+        }
         request.add_header(&ContentLength(body.len() as u64));
         let line = format!("{} {} HTTP/1.1\r\n", self.method, self.relative_url());
         track!(misc::check_head_size(line.len() + self.header_size, body.len()))?;
@@ -252,6 +266,9 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                     track!(value.serialize(&mut serializer))?;
                     self.header_size += serializer.written_size();
                     self.content_length = serializer.content_length();
+                    if serializer.has_host() {
+                        self.host = None;
+                    }
                 }
                 self.request = Some(request);
                 Ok(())
@@ -277,6 +294,9 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcRequestSerializer {
                 track!(value.serialize(&mut serializer))?;
                 self.header_size += serializer.written_size();
                 self.content_length = serializer.content_length();
+                if serializer.has_host() {
+                    self.host = None;
+                }
                 Ok(())
             }
             _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
-- 
2.43.0


From fd9009f8bcbad0dd5f0de99832704e741bbfcd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:14 +0000
Subject: [PATCH 27/30] fix: read all chunks of a chunked body

miasht's reader takes the first chunk for the whole body and leaves the rest
in the connection, where it is read as the next message. A body that was cut
off within a chunk was taken for complete, too.
---
 src/body.rs   | 181 ++++++++++++++++++++++++++++++++++++++++++++++++++
 src/client.rs |   2 +-
 src/lib.rs    |   5 +-
 src/misc.rs   |   2 +-
 src/server.rs |   2 +-
 5 files changed, 187 insertions(+), 5 deletions(-)
 create mode 100644 src/body.rs

diff --git a/src/body.rs b/src/body.rs
new file mode 100644
index 0000000..a58ba9c
--- /dev/null
+++ b/src/body.rs
@@ -0,0 +1,181 @@
+//! HTTP body reader.
+use miasht;
+use miasht::Metadata;
+use miasht::builtin::headers::{ContentLength, TransferEncoding};
+use std::cmp;
+use std::fmt;
+use std::io::{self, Read, Take};
+use std::mem;
+use std::str;
+
+use misc;
+
+/// An extension of HTTP messages which are going to be read.
+pub trait IntoBodyReader: Sized + Read + Metadata {
+    /// Converts into the reader of the body of this message.
+    fn into_body_reader(self) -> Result<BodyReader<Self>, miasht::Error> {
+        BodyReader::new(self)
+    }
+}
+impl<T: Read + Metadata> IntoBodyReader for T {}
+
+/// HTTP body reader.
+///
+/// NOTE: The counterpart in `miasht` takes the first chunk of a chunked body for the whole.
+pub enum BodyReader<R> {
+    /// The body is divided into chunks.
+    Chunked(ChunkedBodyReader<R>),
+
+    /// The length of the body is known.
+    FixedLength(Take<R>),
+
+    /// The body continues until the end of the stream.
+    Raw(R),
+}
+impl<R: Read + Metadata> BodyReader<R> {
+    fn new(inner: R) -> Result<Self, miasht::Error> {
+        let length = track!(inner.headers().parse::<ContentLength>().map_err(miasht::Error::from))?;
+        let encoding =
+            track!(inner.headers().parse::<TransferEncoding>().map_err(miasht::Error::from))?;
+        match (length, encoding) {
+            (Some(_), Some(_)) => {
+                let e = invalid("Both of `Content-Length` and `Transfer-Encoding` are specified");
+                Err(track!(miasht::Error::from(e)))
+            }
+            (Some(h), None) => Ok(BodyReader::FixedLength(inner.take(h.len()))),
+            (None, Some(_)) => Ok(BodyReader::Chunked(ChunkedBodyReader::new(inner))),
+            (None, None) if inner.is_request() => Ok(BodyReader::FixedLength(inner.take(0))),
+            (None, None) => Ok(BodyReader::Raw(inner)),
+        }
+    }
+}
+impl<R> BodyReader<R> {
+    /// Converts into the underlying message.
+    pub fn into_inner(self) -> R {
+        match self {
+            BodyReader::Chunked(r) => r.inner,
+            BodyReader::FixedLength(r) => r.into_inner(),
+            BodyReader::Raw(r) => r,
+        }
+    }
+}
+impl<R: Read> Read for BodyReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        match *self {
+            BodyReader::Chunked(ref mut r) => r.read(buf),
+            BodyReader::FixedLength(ref mut r) => r.read(buf),
+            BodyReader::Raw(ref mut r) => r.read(buf),
+        }
+    }
+}
+impl<R> fmt::Debug for BodyReader<R> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        match *self {
+            BodyReader::Chunked(_) => write!(f, "Chunked(_)"),
+            BodyReader::FixedLength(_) => write!(f, "FixedLength(_)"),
+            BodyReader::Raw(_) => write!(f, "Raw(_)"),
+        }
+    }
+}
+
+#[derive(Debug, Clone, Copy)]
+enum ChunkPhase {
+    Size,
+    Data(u64),
+    DataEnd,
+    Trailer,
+    End,
+}
+
+/// Reader of chunked bodies.
+#[derive(Debug)]
+pub struct ChunkedBodyReader<R> {
+    inner: R,
+    phase: ChunkPhase,
+    line: Vec<u8>,
+}
+impl<R: Read> ChunkedBodyReader<R> {
+    fn new(inner: R) -> Self {
+        ChunkedBodyReader {
+            inner,
+            phase: ChunkPhase::Size,
+            line: Vec::new(),
+        }
+    }
+
+    /// Reads a line (without the line break).
+    fn read_line(&mut self) -> io::Result<Vec<u8>> {
+        while !self.line.ends_with(b"\r\n") {
+            if self.line.len() == misc::MAX_HEAD_SIZE {
+                return Err(invalid("Too long line in chunked HTTP body"));
+            }
+            let mut byte = [0];
+            if self.inner.read(&mut byte)? == 0 {
+                return Err(unexpected_eof());
+            }
+            self.line.push(byte[0]);
+        }
+        let mut line = mem::replace(&mut self.line, Vec::new());
+        let len = line.len() - 2;
+        line.truncate(len);
+        Ok(line)
+    }
+}
+impl<R: Read> Read for ChunkedBodyReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            self.phase = match self.phase {
+                ChunkPhase::Size => match parse_chunk_size(&self.read_line()?)? {
+                    0 => ChunkPhase::Trailer,
+                    size => ChunkPhase::Data(size),
+                },
+                ChunkPhase::Data(0) => ChunkPhase::DataEnd,
+                ChunkPhase::Data(remaining) => {
+                    let max = cmp::min(remaining, buf.len() as u64) as usize;
+                    let size = self.inner.read(&mut buf[..max])?;
+                    if size == 0 && max > 0 {
+                        return Err(unexpected_eof());
+                    }
+                    self.phase = ChunkPhase::Data(remaining - size as u64);
+                    return Ok(size);
+                }
+                ChunkPhase::DataEnd => {
+                    if !self.read_line()?.is_empty() {
+                        return Err(invalid("Chunk must be terminated with a line break"));
+                    }
+                    ChunkPhase::Size
+                }
+                ChunkPhase::Trailer => {
+                    if self.read_line()?.is_empty() {
+                        ChunkPhase::End
+                    } else {
+                        ChunkPhase::Trailer
+                    }
+                }
+                ChunkPhase::End => return Ok(0),
+            };
+        }
+    }
+}
+
+fn parse_chunk_size(line: &[u8]) -> io::Result<u64> {
+    str::from_utf8(line.split(|b| *b == b';').next().unwrap_or(line))
+        .ok()
+        .map(|s| s.trim_end_matches(|c| c == ' ' || c == '\t'))
+        .and_then(|s| {
+            if s.starts_with('+') {
+                None
+            } else {
+                u64::from_str_radix(s, 16).ok()
+            }
+        })
+        .ok_or_else(|| invalid("Invalid chunk size"))
+}
+
+fn invalid(message: &str) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, message)
+}
+
+fn unexpected_eof() -> io::Error {
+    io::Error::new(io::ErrorKind::UnexpectedEof, "Unexpected EOF in HTTP body")
+}
diff --git a/src/client.rs b/src/client.rs
index 68aa05a..7cd97b0 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -3,12 +3,12 @@ use fibers::net::TcpStream;
 use futures::{self, Async, Future, Poll};
 use handy_async::future::Phase;
 use miasht;
-use miasht::builtin::io::IoExt;
 use miasht::builtin::futures::FutureExt;
 use miasht::client::{Connection, Response};
 use serde::{Deserialize, Serialize};
 
 use Error;
+use body::IntoBodyReader;
 use deserializers::RpcResponseDeserializer;
 use misc;
 use procedure::Procedure;
diff --git a/src/lib.rs b/src/lib.rs
index 801d041..92eff89 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -21,11 +21,11 @@ pub use miasht::builtin::futures::FutureExt;
 
 #[allow(missing_docs)]
 pub type BodyReader =
-    miasht::builtin::io::BodyReader<miasht::server::Request<fibers::net::TcpStream>>;
+    body::BodyReader<miasht::server::Request<fibers::net::TcpStream>>;
 
 #[allow(missing_docs)]
 pub fn content_length(body: &BodyReader) -> Option<u64> {
-    if let miasht::builtin::io::BodyReader::FixedLength(ref r) = *body {
+    if let body::BodyReader::FixedLength(ref r) = *body {
         Some(r.limit())
     } else {
         None
@@ -89,6 +89,7 @@ pub mod rfc7807;
 pub mod serializers;
 pub mod types;
 
+mod body;
 mod client;
 mod error;
 mod misc;
diff --git a/src/misc.rs b/src/misc.rs
index 6327d77..9d58170 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,9 +1,9 @@
 use miasht;
-use miasht::builtin::io::BodyReader;
 use std::io;
 use std::sync::{Once};
 use url::Url;
 
+use body::BodyReader;
 use {Error, ErrorKind, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
diff --git a/src/server.rs b/src/server.rs
index 1edac52..1db79bd 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -6,7 +6,6 @@ use futures::{self, Async, Future, Poll, Stream};
 use handy_async::future::Phase;
 use miasht;
 use miasht::builtin::futures::FutureExt;
-use miasht::builtin::io::IoExt;
 use miasht::server::{Connection, Request, Response};
 use serde::Deserialize;
 use slog::{Discard, Logger};
@@ -17,6 +16,7 @@ use std::sync::Mutex;
 use std::time::Duration;
 use trackable::error::ErrorKindExt;
 
+use body::IntoBodyReader;
 use deserializers::RpcRequestDeserializer;
 use misc;
 use procedure::{HandleRpc, Procedure};
-- 
2.43.0


From 7f5a54ee7ef125fb67a926a6f4d943cfa94613e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:41 +0000
Subject: [PATCH 28/30] fix: don't reuse connections whose end the server has
 announced

A connection is no longer pooled after a response with `Connection: close`,
an HTTP/1.0 response without keep-alive, or a body that lasts until the end
of the connection.
---
 src/client.rs |  6 ++++--
 src/misc.rs   | 26 +++++++++++++++++++++++++-
 src/pool.rs   |  4 +++-
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 7cd97b0..c49793d 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -78,7 +78,7 @@ impl<P> Future for CallInner<P>
 where
     P: Procedure,
 {
-    type Item = (P::Response, Connection<TcpStream>);
+    type Item = (P::Response, Option<Connection<TcpStream>>);
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         loop {
@@ -125,7 +125,9 @@ where
                         track!(P::Response::deserialize(&mut deserializer))?
                     };
                     rpc_response.set_body(body);
-                    return Ok(Async::Ready((rpc_response, response.finish())));
+                    let is_reusable = misc::is_reusable(&response, P::method());
+                    let connection = Some(response.finish()).filter(|_| is_reusable);
+                    return Ok(Async::Ready((rpc_response, connection)));
                 }
                 _ => unreachable!(),
             };
diff --git a/src/misc.rs b/src/misc.rs
index 9d58170..496b2d1 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,9 +1,10 @@
-use miasht;
+use miasht::{self, Metadata, Version};
 use std::io;
 use std::sync::{Once};
 use url::Url;
 
 use body::BodyReader;
+use types::HttpMethod;
 use {Error, ErrorKind, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
@@ -48,6 +49,29 @@ pub fn check_body_end<R>(reader: &BodyReader<R>) -> ::std::result::Result<(), mi
     Ok(())
 }
 
+/// Checks whether the connection can be used for further requests after the response.
+///
+/// The server may have announced that it closes the connection,
+/// and a body of unknown size ends with the connection.
+pub fn is_reusable<R: Metadata>(response: &R, method: HttpMethod) -> bool {
+    let headers = response.headers();
+    let mut is_persistent = response.version() != Version::Http1_0;
+    for (name, value) in headers.iter() {
+        if name.eq_ignore_ascii_case("connection") {
+            for option in String::from_utf8_lossy(value).split(',') {
+                if option.trim().eq_ignore_ascii_case("close") {
+                    return false;
+                }
+                is_persistent |= option.trim().eq_ignore_ascii_case("keep-alive");
+            }
+        }
+    }
+    is_persistent
+        && (method == HttpMethod::Head
+            || headers.get("content-length").is_some()
+            || headers.get("transfer-encoding").is_some())
+}
+
 /// Decodes a percent-encoded path segment.
 pub fn percent_decode(s: &str) -> Result<String> {
     let mut bytes = s.bytes();
diff --git a/src/pool.rs b/src/pool.rs
index 7955a13..c759cca 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -322,7 +322,9 @@ where
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         if let Async::Ready((response, connection)) = track!(self.inner.poll())? {
-            self.handle.release_connection(self.addr, connection);
+            if let Some(connection) = connection {
+                self.handle.release_connection(self.addr, connection);
+            }
             Ok(Async::Ready(response))
         } else {
             Ok(Async::NotReady)
-- 
2.43.0


From a227a139f24add1fb31652231973d87b6725280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:25 +0000
Subject: [PATCH 29/30] fix: don't panic if the connect timeout is too long

The expiry time of a timeout such as `Duration::MAX` overflowed `Instant`,
and the first call to be connected panicked.
---
 src/pool.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index c759cca..46e38e1 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -1,5 +1,5 @@
 //! Connection pool.
-use std::cmp::Ordering;
+use std::cmp::{self, Ordering};
 use std::collections::{BTreeMap, Bound, HashMap};
 use std::fmt;
 use std::net::SocketAddr;
@@ -142,7 +142,8 @@ impl RpcClientPool {
 
     /// Sets the timeout of a TCP connecting phase.
     pub fn set_connect_timeout(&mut self, timeout: Duration) {
-        self.connect_timeout = timeout;
+        // The expiry time has to be representable as an `Instant`.
+        self.connect_timeout = cmp::min(timeout, Duration::from_secs(u64::from(u32::MAX)));
     }
 
     fn handle_command(&mut self, command: Command) {
-- 
2.43.0


From 7c8881d82ddac8566cfb6f9f775ae95e5933c615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:10 +0000
Subject: [PATCH 30/30] fix: keep the status of a problem response in step with
 its problem

`ProblemResponse::set_problem` left the status of the response as it was, so
that the response went out with a status other than the one its document
names.
---
 src/rfc7807.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rfc7807.rs b/src/rfc7807.rs
index b9069f0..ece5556 100644
--- a/src/rfc7807.rs
+++ b/src/rfc7807.rs
@@ -39,7 +39,10 @@ impl ProblemResponse {
     }
 
     /// Sets the `Problem` instance of this response.
+    ///
+    /// The status of the response becomes that of the problem.
     pub fn set_problem(&mut self, problem: Problem) {
+        self.status = Some(problem.get_status_code());
         self.body = problem;
     }
 }
-- 
2.43.0

