From 5e397cdfddbdf85e5a4c37179b7adbb0f290c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:31 +0000
Subject: [PATCH 01/66] fix: percent-encode each url-encoded key and value
 separately

A value containing `&` or `=` could add or change other parameters, text in
nested values was not escaped as JSON, and decoding percent-decoded the whole
string before splitting it into parameters.
---
 crates/core/src/urlencode.rs     | 100 +++++++++++++++++++++++++++----
 crates/core/src/urlencode/ser.rs |  44 ++++++++++----
 2 files changed, 121 insertions(+), 23 deletions(-)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index d77732d..3ae67ce 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -5,7 +5,8 @@ mod ser;
 
 use percent_encoding::percent_decode_str;
 pub use ser::{to_string, Serializer};
-use serde::de::DeserializeOwned;
+use serde::de::value::MapDeserializer;
+use serde::de::{DeserializeOwned, Deserializer, IntoDeserializer, Visitor};
 
 use crate::urlencode::error::{Error, Result};
 
@@ -48,18 +49,91 @@ pub fn from_str<T>(s: &str) -> Result<T>
 where
     T: DeserializeOwned,
 {
-    // HACK: deserializing with `serde_json` makes decoding trivial and takes ~60µs
-    let decoded = percent_decode_str(s).decode_utf8_lossy();
-    let decoded = format!("{{\"{decoded}\"}}");
-    let decoded = decoded
-        .replace('=', "\":\"")
-        .replace('&', "\",\"")
-        .replace("\"[", "[")
-        .replace("]\"", "]")
-        .replace("\"{", "{")
-        .replace("}\"", "}");
-
-    serde_json::from_str(&decoded).map_err(|e| Error::Message(e.to_string()))
+    // split into key/value pairs *before* decoding so that an encoded `&` or `=`
+    // is not mistaken for a separator
+    let pairs = s
+        .split('&')
+        .map(|pair| {
+            let (key, value) = pair
+                .split_once('=')
+                .ok_or_else(|| Error::Message(format!("`{pair}` is not a key/value pair")))?;
+            Ok((decode(key), Param(decode(value))))
+        })
+        .collect::<Result<Vec<_>>>()?;
+
+    T::deserialize(MapDeserializer::new(pairs.into_iter()))
+}
+
+fn decode(s: &str) -> String {
+    percent_decode_str(s).decode_utf8_lossy().into_owned()
+}
+
+// A decoded parameter value. Text is used as-is while arrays and objects are
+// JSON encoded.
+struct Param(String);
+
+impl Param {
+    fn json(&self) -> Option<serde_json::Value> {
+        if self.0.starts_with(['[', '{']) {
+            return serde_json::from_str(&self.0).ok();
+        }
+        None
+    }
+}
+
+impl IntoDeserializer<'_, Error> for Param {
+    type Deserializer = Self;
+
+    fn into_deserializer(self) -> Self::Deserializer {
+        self
+    }
+}
+
+impl<'de> Deserializer<'de> for Param {
+    type Error = Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        match self.json() {
+            Some(value) => {
+                value.deserialize_any(visitor).map_err(|e| Error::Message(e.to_string()))
+            }
+            None => visitor.visit_string(self.0),
+        }
+    }
+
+    fn deserialize_str<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        visitor.visit_string(self.0)
+    }
+
+    fn deserialize_string<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        visitor.visit_string(self.0)
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self, _name: &'static str, visitor: V,
+    ) -> Result<V::Value> {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V: Visitor<'de>>(
+        self, name: &'static str, variants: &'static [&'static str], visitor: V,
+    ) -> Result<V::Value> {
+        match self.json() {
+            Some(value) => value
+                .deserialize_enum(name, variants, visitor)
+                .map_err(|e| Error::Message(e.to_string())),
+            None => visitor.visit_enum(self.0.into_deserializer()),
+        }
+    }
+
+    serde::forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes byte_buf unit
+        unit_struct seq tuple tuple_struct map struct identifier ignored_any
+    }
 }
 
 #[cfg(test)]
diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 1b1e697..574b019 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -5,7 +5,7 @@ use crate::urlencode::error::{Error, Result};
 
 const TOP_LEVEL: usize = 1;
 const UNRESERVED: &AsciiSet =
-    &NON_ALPHANUMERIC.remove(b'&').remove(b'=').remove(b'.').remove(b'_').remove(b'-').remove(b'~');
+    &NON_ALPHANUMERIC.remove(b'.').remove(b'_').remove(b'-').remove(b'~');
 
 /// Serializes a value to a url-encoded string.
 ///
@@ -48,10 +48,23 @@ where
     let mut serializer = Serializer {
         output: String::new(),
         level: 0,
+        separators: Vec::new(),
     };
     value.serialize(&mut serializer)?;
 
-    let encoded = utf8_percent_encode(&serializer.output, UNRESERVED).to_string();
+    // encode keys and values, leaving only the separators between them as-is
+    let Serializer {
+        output, separators, ..
+    } = serializer;
+    let mut encoded = String::new();
+    let mut start = 0;
+    for sep in separators {
+        encoded.extend(utf8_percent_encode(&output[start..sep], UNRESERVED));
+        encoded += &output[sep..=sep];
+        start = sep + 1;
+    }
+    encoded.extend(utf8_percent_encode(&output[start..], UNRESERVED));
+
     Ok(encoded)
 }
 
@@ -67,6 +80,17 @@ where
 pub struct Serializer {
     output: String,
     level: usize,
+
+    // position of each (single-byte) `&` and `=` separator in `output`
+    separators: Vec<usize>,
+}
+
+impl Serializer {
+    // Append a separator that must not be percent-encoded.
+    fn separator(&mut self, separator: char) {
+        self.separators.push(self.output.len());
+        self.output.push(separator);
+    }
 }
 
 impl ser::Serializer for &mut Serializer {
@@ -137,9 +161,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_str(self, v: &str) -> Result<()> {
         if self.level > TOP_LEVEL {
-            self.output += "\"";
-            self.output += v;
-            self.output += "\"";
+            self.output += &serde_json::to_string(v).map_err(ser::Error::custom)?;
         } else {
             self.output += v;
         }
@@ -221,7 +243,7 @@ impl ser::Serializer for &mut Serializer {
             self.output += "}";
         } else {
             variant.serialize(&mut *self)?;
-            self.output += "=";
+            self.separator('=');
             value.serialize(&mut *self)?;
         }
 
@@ -266,7 +288,8 @@ impl ser::Serializer for &mut Serializer {
             self.output += ":[";
         } else {
             variant.serialize(&mut *self)?;
-            self.output += "=[";
+            self.separator('=');
+            self.output += "[";
         }
 
         Ok(self)
@@ -301,7 +324,8 @@ impl ser::Serializer for &mut Serializer {
             self.output += ":{";
         } else {
             variant.serialize(&mut *self)?;
-            self.output += "={";
+            self.separator('=');
+            self.output += "{";
         }
         Ok(self)
     }
@@ -469,14 +493,14 @@ impl ser::SerializeStruct for &mut Serializer {
                 self.output += ",";
             }
         } else if !self.output.is_empty() {
-            self.output += "&";
+            self.separator('&');
         }
 
         key.serialize(&mut **self)?;
         if self.level > TOP_LEVEL {
             self.output += ":";
         } else {
-            self.output += "=";
+            self.separator('=');
         }
         value.serialize(&mut **self)
     }
-- 
2.43.0


From a93a6f43d25ff9093bb54c0328fba053006ed123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:32 +0000
Subject: [PATCH 02/66] fix: url-encode top-level maps and fields following a
 tuple

A map at the top level was written as a truncated JSON object and any field
after a tuple was written as though it were nested.
---
 crates/core/src/urlencode/ser.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 574b019..933dad4 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -264,7 +264,6 @@ impl ser::Serializer for &mut Serializer {
 
     // Tuples look just like sequences in JSON.
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple> {
-        self.level += 1;
         self.serialize_seq(Some(len))
     }
 
@@ -459,8 +458,12 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('{') {
-            self.output += ",";
+        if self.level > TOP_LEVEL {
+            if !self.output.ends_with('{') {
+                self.output += ",";
+            }
+        } else if !self.output.is_empty() {
+            self.separator('&');
         }
         key.serialize(&mut **self)
     }
@@ -469,12 +472,18 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        self.output += ":";
+        if self.level > TOP_LEVEL {
+            self.output += ":";
+        } else {
+            self.separator('=');
+        }
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
-        self.output += "}";
+        if self.level > TOP_LEVEL {
+            self.output += "}";
+        }
         self.level -= 1;
         Ok(())
     }
-- 
2.43.0


From d7b2518e2480c151441e1fae1fc7c88ed7701ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:53 +0000
Subject: [PATCH 03/66] fix: compare `const` filters with the value they select

A string claim was compared with the JSON-quoted constant, so it never
matched, a boolean never matched, `null` matched any constant and an object
panicked.
---
 crates/dif-exch/src/matcher.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 887443a..e42fe55 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -103,19 +103,16 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
     let FilterValue::Const(const_str) = filter_val else {
         return Err(anyhow!("unexpected filter"));
     };
-    let Ok(const_val) = serde_json::to_value(const_str) else {
-        return Err(anyhow!("issue serializing match criteria"));
-    };
 
     match vc_node {
-        Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),
-        Value::String(str_node) => Ok(str_node == &const_val.to_string()),
-        Value::Number(num_node) => Ok(num_node.to_string() == const_val),
-        Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
-        Value::Null => Ok(true),
-        Value::Object(_) => {
-            unimplemented!("object matching not implemented")
+        Value::Array(arr_node) => {
+            Ok(arr_node.iter().any(|n| n.as_str() == Some(const_str.as_str())))
         }
+        Value::String(str_node) => Ok(str_node == const_str),
+        Value::Number(num_node) => Ok(num_node.to_string() == *const_str),
+        Value::Bool(bool_node) => Ok(bool_node.to_string() == *const_str),
+        // a string constant can never equal `null` or an object
+        Value::Null | Value::Object(_) => Ok(false),
     }
 }
 
-- 
2.43.0


From b79cf50bb8c950820286f28ed5924aeb2e87f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:53 +0000
Subject: [PATCH 04/66] fix: apply `pattern` filters to text rather than to
 quoted JSON

Anchored patterns could never match a string claim and patterns could match
the quotes and separators of the JSON representation.
---
 crates/dif-exch/src/matcher.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index e42fe55..1c8f44e 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -125,7 +125,14 @@ fn match_pattern(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         return Err(anyhow!("invalid regex pattern: {pattern}"));
     };
 
-    Ok(re.captures(&vc_node.to_string()).is_some())
+    // match text rather than its (quoted) JSON representation
+    match vc_node {
+        Value::Array(arr_node) => {
+            Ok(arr_node.iter().filter_map(Value::as_str).any(|s| re.is_match(s)))
+        }
+        Value::String(str_node) => Ok(re.is_match(str_node)),
+        _ => Ok(re.is_match(&vc_node.to_string())),
+    }
 }
 
 // Check whether JSONPath result format matches that specified by `FilterValue`.
-- 
2.43.0


From e409fbe417cb5822a98354083d5530fdb877aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:53 +0000
Subject: [PATCH 05/66] fix: return an error for an unsupported filter format

A presentation definition using any other JSON Schema format caused a panic.
---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 1c8f44e..3c654da 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -150,7 +150,7 @@ fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
             Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),
             _ => Ok(false),
         },
-        _ => unimplemented!("format matching not implemented for {format}"),
+        _ => Err(anyhow!("format matching not implemented for {format}")),
     }
 }
 
-- 
2.43.0


From 5f23b7ae21ce18697277944803426a7bd5326ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:53 +0000
Subject: [PATCH 06/66] fix: try remaining paths when a filter does not match

Only one of a field's JSON path expressions is required to match.
---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 3c654da..cfd8676 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -74,7 +74,7 @@ impl Field {
             if let Some(node) = nodes.into_iter().next() {
                 match filter.value.matched(node) {
                     Ok(true) => return Ok(true),
-                    Ok(false) => break,
+                    Ok(false) => continue,
                     Err(e) => return Err(e),
                 }
             }
-- 
2.43.0


From 23fccb9ecb71e3b25bddfccdef275a19255a7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:07 +0000
Subject: [PATCH 07/66] fix: apply the filter of an optional field that is
 present

As documented on `Field`, a value selected for an optional field must still
validate against the filter.
---
 crates/dif-exch/src/matcher.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index cfd8676..6f4232f 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -34,8 +34,13 @@ impl Constraints {
 
         // EVERY field must match
         for field in fields {
-            // if no match AND the field is not optional, constraints are not satisfied
-            if !field.matched(&vc_val).unwrap_or_default() && !field.optional.unwrap_or_default() {
+            if field.matched(&vc_val).unwrap_or_default() {
+                continue;
+            }
+
+            // if no match AND the field is not optional, constraints are not satisfied. An
+            // optional field can be absent but, when present, must match its filter
+            if !field.optional.unwrap_or_default() || field.present(&vc_val) {
                 return Ok(false);
             }
         }
@@ -82,6 +87,14 @@ impl Field {
 
         Ok(false)
     }
+
+    // Check whether any of the field's JSON path expressions selects a value.
+    fn present(&self, vc: &Value) -> bool {
+        self.path
+            .iter()
+            .filter_map(|path| JsonPath::parse(path).ok())
+            .any(|jpath| !jpath.query(vc).all().is_empty())
+    }
 }
 
 impl FilterValue {
-- 
2.43.0


From 8677a535be66b2ab8790d036dd4ae5c2528bf036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 08/66] fix: separate list items generated by the request
 macros

More than one grant type or authorization detail generated Rust that did not
compile.
---
 crates/macros/src/authorization.rs | 2 +-
 crates/macros/src/create_offer.rs  | 4 ++--
 crates/macros/src/token.rs         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index eb6726f..d97e1e4 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -93,7 +93,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
                 locations: None
-            }
+            },
         });
     }
 
diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index fbda8b5..46a6ea7 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -58,10 +58,10 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
         for gt in gts.as_array().unwrap() {
             match gt.as_str().unwrap() {
                 "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
-                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode});
+                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode,});
                 }
                 "authorization_code" => {
-                    tokens.extend(quote! {#path::GrantType::AuthorizationCode});
+                    tokens.extend(quote! {#path::GrantType::AuthorizationCode,});
                 }
                 _ => {
                     return Err(Error::new(
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 8124144..19d04cb 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -118,7 +118,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #configuration,
                 locations: None
-            }
+            },
         });
     }
 
-- 
2.43.0


From fb5f0e1f49cd53f0e99d3b3d8129a1131d411618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 09/66] fix: qualify the default send type in
 `create_offer_request!`

The default could only be used where `SendType` was in scope.
---
 crates/macros/src/create_offer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index 46a6ea7..a405fe9 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -30,8 +30,9 @@ pub fn request(input: &Json) -> Result<TokenStream> {
     let grant_types = grant_types(input.get("grant_types"))?;
 
     let tx_code_required = input.get("tx_code_required").unwrap_or(Value::Bool(false));
-    let send_type =
-        input.get("send_type").map_or_else(|| quote! {SendType::ByVal}, |v| quote! {#v.into()});
+    let send_type = input
+        .get("send_type")
+        .map_or_else(|| quote! {#path::SendType::ByVal}, |v| quote! {#v.into()});
 
     // return error for any unexpected fields
     input.check_consumed()?;
-- 
2.43.0


From 5a7ea28b3e63e4470358bb79be82a7b5223d429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 10/66] fix: name the missing field in request macro errors

---
 crates/macros/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index 5a8ca84..f57d6ca 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -20,7 +20,7 @@ impl Json {
     /// Expect the key to be present and return the value or an error.
     pub fn expect(&mut self, key: &str) -> Result<Value> {
         let Some(v) = self.fields.remove(key) else {
-            return Err(Error::new(Span::call_site(), "`{key}` is not set"));
+            return Err(Error::new(Span::call_site(), format!("`{key}` is not set")));
         };
         Ok(Value::Tokens(quote! {Into::into(#v)}))
     }
-- 
2.43.0


From 95b3692c9a8d0930782ca7b95d536622db4d0504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 11/66] fix: generate claims for `token_request!` authorization
 details

A `credential_definition` used with a `credential_configuration_id`, or any
`credentialSubject`, generated Rust that did not compile.
---
 crates/macros/src/authorization.rs |  2 +-
 crates/macros/src/token.rs         | 27 ++-------------------------
 2 files changed, 3 insertions(+), 26 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index d97e1e4..6dc497b 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -202,7 +202,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     })
 }
 
-fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
+pub fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     let span = Span::call_site();
 
     if let Some(subject_value) = definition.get("credentialSubject") {
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 19d04cb..79ece0f 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -4,6 +4,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::subject;
 use crate::parse::{Json, Value};
 
 pub fn request(input: &Json) -> Result<TokenStream> {
@@ -134,9 +135,7 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
-            quote! {Some(#path::ProfileW3c{
-                credential_definition:#credential_definition
-            })}
+            quote! {Some(#path::ProfileClaims::W3c(#credential_definition))}
         } else {
             quote! {None}
         };
@@ -224,25 +223,3 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
         }
     })
 }
-
-fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
-    let span = Span::call_site();
-    let path = quote! {vercre_issuer};
-
-    if let Some(subject_value) = definition.get("credentialSubject") {
-        let Some(credential_subject) = subject_value.as_object() else {
-            return Err(Error::new(span, "`credentialSubject` must be an object"));
-        };
-
-        // build claims map
-        let claims = credential_subject.iter().map(|(k, _)| {
-            quote! {(#k.to_string(), #path::ClaimDefinition::Claim(#path::ClaimDefinition::default()))}
-        });
-
-        Ok(quote! {
-            Some(std::collections::HashMap::from([#(#claims),*]))
-        })
-    } else {
-        Ok(quote! {None})
-    }
-}
-- 
2.43.0


From 4a83b03886a4d0fa9d1fe4dee82778c18fff857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:34 +0000
Subject: [PATCH 12/66] fix: keep the `credentialSubject` of
 `credential_request!`

Claims in the request's credential definition were silently dropped.
---
 crates/macros/src/credential.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index 72a33a0..e015877 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -2,6 +2,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::subject;
 use crate::parse::{Json, Value};
 
 // Create strongly typed `CredentialRequest` from JSON-like input,
@@ -79,11 +80,11 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`type` is not set"));
     };
 
-    // let subject = subject(credential_definition)?;
+    let subject = subject(credential_definition)?;
 
     Ok(quote! {
         #path::CredentialDefinition {
-            credential_subject: None,
+            credential_subject: #subject,
             context: None,
             type_: Some(#type_array),
         }
-- 
2.43.0


From eb9a28801337eb8242f2f8ea593025563a74fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:49 +0000
Subject: [PATCH 13/66] fix: report a wrong `grant_types` of
 `create_offer_request!` as an error

---
 crates/macros/src/create_offer.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index a405fe9..8062162 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -56,8 +56,15 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
     if let Some(gts) = input {
         let mut tokens = TokenStream::new();
 
-        for gt in gts.as_array().unwrap() {
-            match gt.as_str().unwrap() {
+        let Some(gts) = gts.as_array() else {
+            return Err(Error::new(span, "`grant_types` must be an array"));
+        };
+
+        for gt in gts {
+            let Some(gt) = gt.as_str() else {
+                return Err(Error::new(span, "`grant_types` must be an array of strings"));
+            };
+            match gt {
                 "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
                     tokens.extend(quote! {#path::GrantType::PreAuthorizedCode,});
                 }
@@ -65,10 +72,7 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
                     tokens.extend(quote! {#path::GrantType::AuthorizationCode,});
                 }
                 _ => {
-                    return Err(Error::new(
-                        span,
-                        format!("unsupported grant type: {}", gt.as_str().unwrap()),
-                    ));
+                    return Err(Error::new(span, format!("unsupported grant type: {gt}")));
                 }
             }
         }
-- 
2.43.0


From 0a09d6fb58cb1a0505e37de233cc6645d3dfa688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:28 +0000
Subject: [PATCH 14/66] fix: report an unexpected object in a request macro as
 an error

---
 crates/macros/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index f57d6ca..2e44ded 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -169,7 +169,7 @@ impl ToTokens for Value {
                 tokens.extend(quote! { vec![#(#values),*] });
             }
             Self::Object(_) => {
-                unimplemented!("Value::to_tokens for Object");
+                tokens.extend(quote! { compile_error!("unexpected JSON object") });
                 //     let fields = o.iter().map(|(k, v)| {
                 //         let mut tokens = TokenStream::new();
                 //         v.to_tokens(&mut tokens);
-- 
2.43.0


From dfbe7ca5c9b089576ef28732c7568ffbb096771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 15/66] fix: allow anonymous pre-authorized token requests when
 the server supports them

---
 vercre-issuer/src/token.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 909e2a8..2b93a89 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -94,9 +94,9 @@ impl Context {
                 }
 
                 // anonymous access allowed?
-                if request.client_id.as_ref().is_none()
-                    || request.client_id.as_ref().is_some_and(String::is_empty)
-                        && !server.pre_authorized_grant_anonymous_access_supported
+                if (request.client_id.is_none()
+                    || request.client_id.as_ref().is_some_and(String::is_empty))
+                    && !server.pre_authorized_grant_anonymous_access_supported
                 {
                     return Err(Error::InvalidClient("anonymous access is not supported".into()));
                 }
@@ -152,7 +152,7 @@ impl Context {
             }
         }
 
-        if let Some(client_id) = &request.client_id {
+        if let Some(client_id) = request.client_id.as_ref().filter(|id| !id.is_empty()) {
             // client metadata
             let Ok(client) = Metadata::client(provider, client_id).await else {
                 return Err(Error::InvalidClient("invalid `client_id`".into()));
-- 
2.43.0


From 3eca7b2eb935891f333d15f14392b0262c2b7d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 16/66] fix: keep access tokens for their advertised lifetime

---
 vercre-issuer/src/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 2b93a89..4cebc6e 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -213,6 +213,7 @@ impl Context {
 
         // update state
         let mut state = self.state.clone();
+        state.expires_at = Utc::now() + Expire::Access.duration();
         state.stage = Stage::Validated(Token {
             access_token: access_token.clone(),
             credentials: authorized,
-- 
2.43.0


From 31220adf98a7fcd9a85af2264e66512d6c47149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 17/66] fix: accept pushed requests when the server requires
 them

---
 vercre-issuer/src/par.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/par.rs b/vercre-issuer/src/par.rs
index 443699f..e65c0cf 100644
--- a/vercre-issuer/src/par.rs
+++ b/vercre-issuer/src/par.rs
@@ -48,6 +48,7 @@ async fn verify(provider: &impl Provider, request: &PushedAuthorizationRequest)
     };
     let mut ctx = authorize::Context {
         issuer,
+        is_par: true,
         ..authorize::Context::default()
     };
     ctx.verify(provider, &request.request).await?;
-- 
2.43.0


From 58d5a19e52e1b535e0e512351a13b94794fed040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 18/66] fix: refuse requests for claims the issuer does not
 support

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 61baef1..47ff32e 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -1707,7 +1707,7 @@ impl CredentialConfiguration {
         // ensure `claimset` claims exist in the supported claims
         if !claimset.is_empty() {
             if let Some(claims) = &self.format.claims() {
-                let _ = Self::claims_supported(claimset, claims);
+                Self::claims_supported(claimset, claims)?;
             }
         }
 
-- 
2.43.0


From e42889815bc63dfdff1c2511129b9f018fb09aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 19/66] fix: refuse an empty list of key proofs

---
 vercre-issuer/src/credential.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 7d424f0..08e7fda 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -122,6 +122,10 @@ impl Context {
                 },
             };
 
+            if proof_jwts.is_empty() {
+                return Err(self.invalid_proof(provider, "proof not set").await?);
+            }
+
             for proof_jwt in proof_jwts {
                 // TODO: check proof is signed with supported algorithm (from proof_type)
                 let jwt: jws::Jwt<ProofClaims> =
-- 
2.43.0


From 4bb51537178adf7d94b3dfc334b314532b3ba9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 20/66] fix: refuse key proofs made for another issuer

---
 vercre-issuer/src/credential.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 08e7fda..f13e9d7 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -145,6 +145,13 @@ impl Context {
                         .await?);
                 }
 
+                // proof is intended for this issuer
+                if jwt.claims.aud != self.issuer.credential_issuer {
+                    return Err(self
+                        .invalid_proof(provider, "Proof JWT audience claim is invalid")
+                        .await?);
+                }
+
                 // previously issued c_nonce
                 if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
                     return Err(self
-- 
2.43.0


From 12e56ce2edcbc45acecd02f09aba7e53c6cfe452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 21/66] fix: return a fresh nonce when the nonce has expired

---
 vercre-issuer/src/credential.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index f13e9d7..e859768 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -97,10 +97,6 @@ impl Context {
             return Err(Error::AccessDenied("invalid access token state".into()));
         };
 
-        if token_state.c_nonce_expired() {
-            return Err(Error::AccessDenied("c_nonce has expired".into()));
-        }
-
         // TODO: refactor into separate function.
         if let Some(supported_types) = &self.configuration.proof_types_supported {
             let Some(proof) = &request.proof else {
@@ -153,6 +149,9 @@ impl Context {
                 }
 
                 // previously issued c_nonce
+                if token_state.c_nonce_expired() {
+                    return Err(self.invalid_proof(provider, "c_nonce has expired").await?);
+                }
                 if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
                     return Err(self
                         .invalid_proof(provider, "Proof JWT nonce claim is invalid")
-- 
2.43.0


From 36cfe383a7c747687fd9a578cf0cbe1d4acd6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 22/66] fix: look up credential status by credential identifier

---
 vercre-issuer/src/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index e859768..af61ac4 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -270,7 +270,7 @@ impl Context {
         let Some(subject_id) = &self.state.subject_id else {
             return Err(Error::AccessDenied("invalid subject id".into()));
         };
-        let status = Status::status(provider, subject_id, "credential_identifier")
+        let status = Status::status(provider, subject_id, &self.authorized.credential_identifier)
             .await
             .map_err(|e| Error::ServerError(format!("issue populating credential status: {e}")))?;
 
-- 
2.43.0


From 412648b0e5a3d84092f1d73fe797f6e28c7507d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 23/66] fix: require an unexpired access token for client
 registration

---
 vercre-issuer/src/register.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vercre-issuer/src/register.rs b/vercre-issuer/src/register.rs
index 8aa7875..b412165 100644
--- a/vercre-issuer/src/register.rs
+++ b/vercre-issuer/src/register.rs
@@ -5,7 +5,7 @@ use vercre_openid::issuer::{Provider, RegistrationRequest, RegistrationResponse,
 use vercre_openid::{Error, Result};
 
 // use crate::shell;
-use crate::state::State;
+use crate::state::{Stage, State};
 
 /// Registration request handler.
 ///
@@ -24,9 +24,14 @@ pub async fn register(
 async fn verify(provider: &impl Provider, request: &RegistrationRequest) -> Result<()> {
     tracing::debug!("register::verify");
 
-    // verify state is still accessible (has not expired)
+    // verify access token is valid and has not expired
     match StateStore::get::<State>(provider, &request.access_token).await {
-        Ok(_) => Ok(()),
+        Ok(state) if state.is_expired() => Err(Error::AccessDenied("access token expired".into())),
+        Ok(State {
+            stage: Stage::Validated(_),
+            ..
+        }) => Ok(()),
+        Ok(_) => Err(Error::AccessDenied("invalid access token".into())),
         Err(e) => Err(Error::ServerError(format!("State not found: {e}"))),
     }
 }
-- 
2.43.0


From 48e3c69c9a0e8007e2847d72ecf37b574c43018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 24/66] fix: create offers for issuers with an empty list of
 authorization servers

---
 vercre-issuer/src/create_offer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/create_offer.rs b/vercre-issuer/src/create_offer.rs
index 0228e40..066bb59 100644
--- a/vercre-issuer/src/create_offer.rs
+++ b/vercre-issuer/src/create_offer.rs
@@ -233,7 +233,7 @@ impl Context {
         // TODO: determine how to select correct server?
         // select `authorization_server`, if specified
         let authorization_server =
-            self.issuer.authorization_servers.as_ref().map(|servers| servers[0].clone());
+            self.issuer.authorization_servers.as_ref().and_then(|servers| servers.first().cloned());
 
         let mut grants = Grants {
             authorization_code: None,
-- 
2.43.0


From 60ed7ffb6c518ea9ab1aad3f814f5284131b3acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:53 +0000
Subject: [PATCH 25/66] fix: save issued state under the notification id

---
 vercre-issuer/src/credential.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index af61ac4..9469397 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -27,7 +27,7 @@ use vercre_w3c_vc::model::{CredentialSubject, VerifiableCredential};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
 use vercre_w3c_vc::verify_key;
 
-use crate::state::{Authorized, Deferrance, Expire, Stage, State};
+use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 
 /// Credential request handler.
 ///
@@ -204,9 +204,11 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue  resolving signer: {e}")))?;
 
         // determine credential format
+        let mut issued = VerifiableCredential::default();
         let response = match &self.configuration.format {
             Format::JwtVcJson(w3c) => {
                 let vc = self.w3c_vc(provider, &w3c.credential_definition, dataset).await?;
+                issued.clone_from(&vc);
                 self.jwt_vc_json(vc, signer, issuance_date).await?
             }
             Format::IsoMdl(_) => self.mso_mdoc(dataset, signer).await?,
@@ -233,9 +235,8 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
 
         // create issuance state for notification endpoint
-        // TODO: save credential in state !!
-        // state.stage = Stage::Issued(Credential { credential: vc, issuance:
-        // issuance_dt });
+        // TODO: save non-W3C credentials in state
+        state.stage = Stage::Issued(Credential { credential: issued });
         let notification_id = gen::notification_id();
 
         StateStore::put(provider, &notification_id, &state, state.expires_at)
-- 
2.43.0


From fc34b0d4af2d7bf0d2302a085f0c419fba189f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:42 +0000
Subject: [PATCH 26/66] fix: issue only the claims authorized

---
 vercre-issuer/src/token.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 4cebc6e..d038f5b 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -331,13 +331,25 @@ fn authorized_credentials(items: &[AuthorizedItem]) -> HashMap<String, Authorize
     let mut authorized = HashMap::new();
 
     for item in items {
+        // subset of claims authorized, if any
+        let claim_ids = match &item.item {
+            ItemType::AuthorizationDetail(ad) => match &ad.credential {
+                CredentialAuthorization::ConfigurationId { claims, .. } => {
+                    claims.as_ref().and_then(ProfileClaims::claims)
+                }
+                CredentialAuthorization::Format(fmt) => fmt.claims(),
+            }
+            .map(|claims| claims.into_keys().collect::<Vec<_>>()),
+            ItemType::Scope(_) => None,
+        };
+
         for identifier in &item.credential_identifiers {
             authorized.insert(
                 identifier.clone(),
                 Authorized {
                     credential_identifier: identifier.clone(),
                     credential_configuration_id: item.credential_configuration_id.clone(),
-                    claim_ids: None,
+                    claim_ids: claim_ids.clone(),
                 },
             );
         }
-- 
2.43.0


From 902dc59c4ec0c6901b6e7888a13a2241574beadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:42 +0000
Subject: [PATCH 27/66] fix: keep the deferred transaction while issuance is
 pending

---
 vercre-issuer/src/deferred.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index 901bac6..ca4b9a6 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -48,11 +48,6 @@ async fn process(
         return Err(Error::ServerError("Deferred state not found.".into()));
     };
 
-    // remove deferred state item
-    StateStore::purge(provider, &request.transaction_id)
-        .await
-        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
-
     // make credential request
     let mut cred_req = deferred_state.credential_request;
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
@@ -61,11 +56,21 @@ async fn process(
     let response = credential(provider.clone(), cred_req).await?;
 
     // is issuance still pending?
-    if let CredentialResponseType::TransactionId(_) = response.response {
+    if let CredentialResponseType::TransactionId(txn_id) = &response.response {
+        // the Wallet will retry using the original transaction
+        StateStore::purge(provider, txn_id)
+            .await
+            .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
         // TODO: make retry interval configurable
         return Err(Error::IssuancePending(5));
     };
 
+    // remove deferred state item
+    StateStore::purge(provider, &request.transaction_id)
+        .await
+        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
     Ok(DeferredCredentialResponse {
         credential_response: response,
     })
-- 
2.43.0


From e30e84eed60d6c16e86398fac5bc86608bc20362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:02 +0000
Subject: [PATCH 28/66] fix: issue deferred credentials after the nonce has
 been renewed

---
 vercre-issuer/src/credential.rs | 14 ++++++++++++--
 vercre-issuer/src/deferred.rs   |  8 +++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 9469397..7566f88 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -38,6 +38,14 @@ use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 #[instrument(level = "debug", skip(provider))]
 pub async fn credential(
     provider: impl Provider, request: CredentialRequest,
+) -> Result<CredentialResponse> {
+    request_credential(provider, request, false).await
+}
+
+// Handle a credential request. The `c_nonce` of a deferred request has been
+// checked (and, possibly, superseded) by the time the request is retried.
+pub async fn request_credential(
+    provider: impl Provider, request: CredentialRequest, deferred: bool,
 ) -> Result<CredentialResponse> {
     let Ok(state) = StateStore::get::<State>(&provider, &request.access_token).await else {
         return Err(Error::AccessDenied("invalid access token".into()));
@@ -50,6 +58,7 @@ pub async fn credential(
     let mut ctx = Context {
         state,
         issuer,
+        deferred,
         ..Context::default()
     };
 
@@ -74,6 +83,7 @@ struct Context {
     authorized: Authorized,
     configuration: CredentialConfiguration,
     holder_did: String,
+    deferred: bool,
 }
 
 impl Context {
@@ -149,10 +159,10 @@ impl Context {
                 }
 
                 // previously issued c_nonce
-                if token_state.c_nonce_expired() {
+                if !self.deferred && token_state.c_nonce_expired() {
                     return Err(self.invalid_proof(provider, "c_nonce has expired").await?);
                 }
-                if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
+                if !self.deferred && jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
                     return Err(self
                         .invalid_proof(provider, "Proof JWT nonce claim is invalid")
                         .await?);
diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index ca4b9a6..0d846ed 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -15,7 +15,7 @@ use vercre_openid::issuer::{
 };
 use vercre_openid::{Error, Result};
 
-use crate::credential::credential;
+use crate::credential::request_credential;
 use crate::state::{Stage, State};
 
 /// Deferred credential request handler.
@@ -50,10 +50,12 @@ async fn process(
 
     // make credential request
     let mut cred_req = deferred_state.credential_request;
+    if cred_req.access_token != request.access_token {
+        return Err(Error::AccessDenied("invalid access token".into()));
+    }
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
-    cred_req.access_token.clone_from(&request.access_token);
 
-    let response = credential(provider.clone(), cred_req).await?;
+    let response = request_credential(provider.clone(), cred_req, true).await?;
 
     // is issuance still pending?
     if let CredentialResponseType::TransactionId(txn_id) = &response.response {
-- 
2.43.0


From 69a771f676c3d8aeab3d5ac8727fbb866476db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:39 +0000
Subject: [PATCH 29/66] fix: name bitstring status properties as the status
 list specification does

---
 crates/w3c-vc/src/model/vc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/w3c-vc/src/model/vc.rs b/crates/w3c-vc/src/model/vc.rs
index 6dbd03c..bf32009 100644
--- a/crates/w3c-vc/src/model/vc.rs
+++ b/crates/w3c-vc/src/model/vc.rs
@@ -232,6 +232,7 @@ impl Default for CredentialStatusType {
 ///
 /// [Bitstring Status List v1.0](https://www.w3.org/TR/vc-bitstring-status-list/)
 #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
+#[serde(rename_all = "camelCase")]
 pub struct Bitstring {
     /// The purpose of the status declaration stored in the bitstring.
     pub status_purpose: StatusPurpose,
-- 
2.43.0


From 9c7addc127118d140eec1f2cbf77348ea42ba28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:21 +0000
Subject: [PATCH 30/66] fix: keep evidence fields that are not strings

---
 crates/w3c-vc/src/model/vc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/w3c-vc/src/model/vc.rs b/crates/w3c-vc/src/model/vc.rs
index bf32009..0970ca4 100644
--- a/crates/w3c-vc/src/model/vc.rs
+++ b/crates/w3c-vc/src/model/vc.rs
@@ -428,7 +428,7 @@ pub struct Evidence {
     /// A list of schema-specific evidence fields.
     #[serde(flatten)]
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub extra: Option<HashMap<String, String>>,
+    pub extra: Option<HashMap<String, Value>>,
 }
 
 /// [`VcBuilder`] is used to build a [`VerifiableCredential`]
-- 
2.43.0


From ca064846df0c26125edd2427ea830bc24b989236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:21 +0000
Subject: [PATCH 31/66] fix: sign a credential that has an empty list of
 subjects without panicking

---
 crates/w3c-vc/src/proof/jose.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/w3c-vc/src/proof/jose.rs b/crates/w3c-vc/src/proof/jose.rs
index d25fde6..b3052f5 100644
--- a/crates/w3c-vc/src/proof/jose.rs
+++ b/crates/w3c-vc/src/proof/jose.rs
@@ -87,8 +87,8 @@ pub struct VcClaims {
 impl VcClaims {
     pub fn from_vc(vc: VerifiableCredential, issued_at: i64) -> Self {
         let subject = match &vc.credential_subject {
-            Quota::One(sub) => sub,
-            Quota::Many(subs) => &subs[0],
+            Quota::One(sub) => Some(sub),
+            Quota::Many(subs) => subs.first(),
         };
 
         let issuer_id = match &vc.issuer {
@@ -98,7 +98,7 @@ impl VcClaims {
 
         Self {
             // TODO: find better way to set sub (shouldn't need to be in vc)
-            sub: subject.id.clone().unwrap_or_default(),
+            sub: subject.and_then(|s| s.id.clone()).unwrap_or_default(),
             nbf: None,
             iss: issuer_id.clone(),
             iat: issued_at,
-- 
2.43.0


From e37a313ac26c7e5cf230aa5ebc7ccdfe22a41e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:21 +0000
Subject: [PATCH 32/66] fix: parse empty and non-ASCII presentation text
 without panicking

---
 crates/w3c-vc/src/model/vp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 83918b8..99b8118 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -168,7 +168,7 @@ impl FromStr for VerifiablePresentation {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self, Self::Err> {
-        if &s[0..1] != "{" {
+        if !s.starts_with('{') {
             // base64 encoded string
             let dec = Base64UrlUnpadded::decode_vec(s)?;
             return Ok(serde_json::from_slice(dec.as_slice())?);
-- 
2.43.0


From 0c79095c463136b1f13815c5ea5ff0b30c12b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:21 +0000
Subject: [PATCH 33/66] fix: draw mdoc digest ids without overflow

---
 crates/iso-mdl/src/mso.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/iso-mdl/src/mso.rs b/crates/iso-mdl/src/mso.rs
index 72f6c45..01e9d1a 100644
--- a/crates/iso-mdl/src/mso.rs
+++ b/crates/iso-mdl/src/mso.rs
@@ -190,7 +190,7 @@ impl DigestIdGenerator {
     pub fn gen(&mut self) -> DigestId {
         let mut digest_id;
         loop {
-            digest_id = i32::abs(rand::thread_rng().gen());
+            digest_id = rand::thread_rng().gen_range(0..=DigestId::MAX);
             if self.used.insert(digest_id) {
                 return digest_id;
             }
-- 
2.43.0


From 3ceead65e9f6923439d207decd04547afb1ed3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:21 +0000
Subject: [PATCH 34/66] fix: return an error when the mdoc signer fails

---
 crates/iso-mdl/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/iso-mdl/src/lib.rs b/crates/iso-mdl/src/lib.rs
index 2a8c3c5..49acef1 100644
--- a/crates/iso-mdl/src/lib.rs
+++ b/crates/iso-mdl/src/lib.rs
@@ -74,7 +74,7 @@ pub async fn to_credential(
 
     // sign
     let mso_bytes = Tag24(mso).to_vec()?;
-    let signature = signer.sign(&mso_bytes).await;
+    let signature = signer.try_sign(&mso_bytes).await?;
 
     // build COSE_Sign1
     let algorithm = match signer.algorithm() {
-- 
2.43.0


From 35ed515796f53ced16b489fe0575343e0d66b039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:21 +0000
Subject: [PATCH 35/66] fix: keep message statuses within their entry of the
 status list

---
 crates/status/src/bitstring.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 4593791..8727771 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -150,17 +150,23 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
                 continue;
             }
 
-            let position = status.list_index * config.size;
-            if position >= bits.len() {
+            let Some(position) = status
+                .list_index
+                .checked_mul(config.size)
+                .filter(|pos| pos.saturating_add(config.size) <= bits.len())
+            else {
                 return Err(anyhow!("status index out of range"));
-            }
+            };
             match config.purpose {
                 StatusPurpose::Revocation | StatusPurpose::Suspension => {
                     bits.set(position, status.value != 0);
                 }
                 StatusPurpose::Message => {
                     let value = status.value.view_bits::<Lsb0>();
-                    for (i, bit) in value.iter().enumerate() {
+                    if value.iter().skip(config.size).any(|bit| *bit) {
+                        return Err(anyhow!("status value out of range"));
+                    }
+                    for (i, bit) in value.iter().take(config.size).enumerate() {
                         bits.set(position + i, *bit);
                     }
                 }
-- 
2.43.0


From 7551e03d354d15d2f5e05779f9a09d15aa25d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:21 +0000
Subject: [PATCH 36/66] fix: encode the status list as a bitstring with a
 multibase prefix

---
 crates/status/src/bitstring.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 8727771..6edc1b2 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -7,8 +7,8 @@ use std::io::Write;
 
 use anyhow::anyhow;
 use base64ct::{Base64UrlUnpadded, Encoding};
-use bitvec::bits;
-use bitvec::order::Lsb0;
+use bitvec::bitvec;
+use bitvec::order::{Lsb0, Msb0};
 use bitvec::view::BitView;
 use chrono::Utc;
 use flate2::write::GzEncoder;
@@ -143,7 +143,7 @@ pub struct ValidationError {
 // TODO: Provide methods for updating the bitstring incrementally.
 #[allow(clippy::module_name_repetitions)]
 pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Result<String> {
-    let bits = bits![mut 0; MAX_ENTRIES];
+    let mut bits = bitvec![u8, Msb0; 0; MAX_ENTRIES];
     for entry in issued {
         for status in &entry.status {
             if status.purpose != config.purpose {
@@ -174,15 +174,14 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
         }
     }
 
-    let uncompressed = bits.into_iter().map(|b| if *b { '1' } else { '0' }).collect::<String>();
-
     let mut gz_encoder = GzEncoder::new(Vec::new(), flate2::Compression::default());
-    gz_encoder.write_all(uncompressed.as_bytes())?;
+    gz_encoder.write_all(bits.as_raw_slice())?;
     let compressed = gz_encoder.finish()?;
 
+    // multibase prefix for base64url without padding
     let encoded = Base64UrlUnpadded::encode_string(&compressed);
 
-    Ok(encoded)
+    Ok(format!("u{encoded}"))
 }
 
 /// Generates a bitstring status list credential for the given status type.
-- 
2.43.0


From 9dc5c7073ec8ee9a32693188a610293825047231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:21 +0000
Subject: [PATCH 37/66] fix: build the status list credential

---
 crates/status/src/bitstring.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 6edc1b2..7db5ad2 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -15,6 +15,7 @@ use flate2::write::GzEncoder;
 use serde::{Deserialize, Serialize};
 use serde_json::{Map, Value};
 use thiserror::Error;
+use vercre_core::Kind;
 use vercre_infosec::Signer;
 use vercre_w3c_vc::model::{CredentialStatus, CredentialSubject, StatusPurpose, VcBuilder};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
@@ -208,11 +209,11 @@ pub async fn credential(
     if !base_url.ends_with('/') {
         base_url.push('/');
     }
-    let id = format!("{base_url}/{}", config.list);
+    let id = format!("{base_url}{}", config.list);
 
     let mut claims = Map::new();
     claims.insert("type".into(), Value::String("BitstringStatusList".into()));
-    claims.insert("purpose".into(), Value::String(config.purpose.to_string()));
+    claims.insert("statusPurpose".into(), Value::String(config.purpose.to_string()));
     claims.insert("encodedList".into(), Value::String(bitstring.into()));
 
     let cache_time = ttl.unwrap_or(DEFAULT_TTL);
@@ -221,6 +222,7 @@ pub async fn credential(
     let issued_at = Utc::now().timestamp();
 
     let vc = VcBuilder::new()
+        .add_context(Kind::String("https://www.w3.org/ns/credentials/status/v1".into()))
         .id(id.clone())
         .add_type("BitstringStatusListCredential")
         .issuer(credential_issuer)
-- 
2.43.0


From 921bad89c1d1dd441a66a0be922d2287dbc5f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:21 +0000
Subject: [PATCH 38/66] fix: escape the detail of status errors

---
 crates/status/src/bitstring.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 7db5ad2..602cdba 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -48,20 +48,20 @@ pub const DEFAULT_TTL: u64 = 300_000;
 #[derive(Error, Debug, Deserialize)]
 pub enum Error {
     /// Retrievel of the status list failed.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-128", "code": -128, "title": "status retrieval error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-128", "code": -128, "title": "status retrieval error", "detail": {}}}"#, Value::from(.0.as_str()))]
     Retrieval(String),
 
     /// Validation of the status entry failed.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-129", "code": -129, "title": "status verification error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-129", "code": -129, "title": "status verification error", "detail": {}}}"#, Value::from(.0.as_str()))]
     Verification(String),
 
     /// The status list length does not satisfy the minimum length required for
     /// herd privacy.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-130", "code": -130, "title": "status list length error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-130", "code": -130, "title": "status list length error", "detail": {}}}"#, Value::from(.0.as_str()))]
     ListLength(String),
 
     /// The index into the status list is larger than the length of the list.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-67", "code": -67, "title": "range error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-67", "code": -67, "title": "range error", "detail": {}}}"#, Value::from(.0.as_str()))]
     Range(String),
 }
 
-- 
2.43.0


From 0244eca52c9252a2f7b5efd70d72fde000935e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:58 +0000
Subject: [PATCH 39/66] fix: refuse expired presentation requests

---
 vercre-verifier/src/request_object.rs | 3 +++
 vercre-verifier/src/response.rs       | 3 +++
 vercre-verifier/src/state.rs          | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/vercre-verifier/src/request_object.rs b/vercre-verifier/src/request_object.rs
index 38033ed..37ff014 100644
--- a/vercre-verifier/src/request_object.rs
+++ b/vercre-verifier/src/request_object.rs
@@ -46,6 +46,9 @@ async fn process(
     let state = StateStore::get::<State>(&provider, &request.id)
         .await
         .map_err(|e| Error::ServerError(format!("issue fetching state: {e}")))?;
+    if state.is_expired() {
+        return Err(Error::InvalidRequest("state has expired".into()));
+    }
     let req_obj = state.request_object;
 
     // verify client_id (perhaps should use 'verify' method?)
diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index d3e08a1..fcdbba6 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -63,6 +63,9 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
     let Ok(state) = StateStore::get::<State>(&provider, state_key).await else {
         return Err(Error::InvalidRequest("state not found".into()));
     };
+    if state.is_expired() {
+        return Err(Error::InvalidRequest("state has expired".into()));
+    }
     let saved_req = &state.request_object;
 
     let Some(vp_token) = request.vp_token.clone() else {
diff --git a/vercre-verifier/src/state.rs b/vercre-verifier/src/state.rs
index 701c59d..cbd24f5 100644
--- a/vercre-verifier/src/state.rs
+++ b/vercre-verifier/src/state.rs
@@ -30,6 +30,13 @@ pub struct State {
     pub request_object: RequestObject,
 }
 
+impl State {
+    /// Whether the state has expired.
+    pub fn is_expired(&self) -> bool {
+        self.expires_at < Utc::now()
+    }
+}
+
 // impl State {
 //     /// Determines whether state has expired or not.
 //     pub fn expired(&self) -> bool {
-- 
2.43.0


From 7ae7aca24c8585881748ce508f940090a571bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:58 +0000
Subject: [PATCH 40/66] fix: refuse presentations made for another verifier

---
 vercre-verifier/src/response.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index fcdbba6..e0dfbe5 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -76,11 +76,14 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
 
     // check nonce matches
     for vp_val in &vp_token {
-        let (vp, nonce) = match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
-            Ok(Payload::Vp { vp, nonce, .. }) => (vp, nonce),
-            Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
-            Err(e) => return Err(Error::ServerError(format!("issue verifying VP proof: {e}"))),
-        };
+        let (vp, client_id, nonce) =
+            match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
+                Ok(Payload::Vp { vp, client_id, nonce }) => (vp, client_id, nonce),
+                Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
+                Err(e) => {
+                    return Err(Error::ServerError(format!("issue verifying VP proof: {e}")));
+                }
+            };
 
         // else {
         //     return Err(Error::InvalidRequest("invalid vp_token".into()));
@@ -88,6 +91,12 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
         if nonce != saved_req.nonce {
             return Err(Error::InvalidRequest("nonce does not match".into()));
         }
+
+        // check VP was created for this Verifier
+        // N.B. embedded proofs do not carry the audience
+        if matches!(vp_val, Kind::String(_)) && client_id != saved_req.client_id {
+            return Err(Error::InvalidRequest("audience does not match".into()));
+        }
         vps.push(vp);
     }
 
-- 
2.43.0


From d531ee1d46b655f1cc838e82a24371e21eb980dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:58 +0000
Subject: [PATCH 41/66] fix: refuse credentials that are not yet valid

---
 vercre-verifier/src/response.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index e0dfbe5..8630f2b 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -192,6 +192,9 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
         if vc.valid_until.is_some_and(|exp| exp < chrono::Utc::now()) {
             return Err(Error::InvalidRequest("credential has expired".into()));
         }
+        if vc.valid_from.is_some_and(|from| from > chrono::Utc::now()) {
+            return Err(Error::InvalidRequest("credential is not yet valid".into()));
+        }
 
         // TODO: look up credential status using status.id
         // if let Some(_status) = &vc.credential_status {
-- 
2.43.0


From b0321dc211ba2b19b94b5f098fc4270811868a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 42/66] fix: build a fresh proof for every credential request,
 addressed to the issuer

---
 vercre-holder/src/issuance/credentials.rs | 80 +++++++++++++----------
 vercre-holder/src/issuance/deferred.rs    |  6 +-
 2 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 0370577..6520def 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -10,7 +10,9 @@ use serde::{Deserialize, Serialize};
 use tracing::instrument;
 use vercre_core::Kind;
 use vercre_infosec::jose::jws::{self, Type};
-use vercre_issuer::{CredentialAuthorization, CredentialIssuance, Format, SingleProof};
+use vercre_issuer::{
+    CredentialAuthorization, CredentialIssuance, Format, SingleProof, TokenResponse,
+};
 use vercre_macros::credential_request;
 use vercre_openid::issuer::{
     CredentialConfiguration, CredentialRequest, CredentialResponse, CredentialResponseType, Proof,
@@ -85,37 +87,21 @@ pub async fn credentials(
         return Err(e);
     }
 
-    // Construct a proof to be used in the credential requests.
-    let claims = ProofClaims {
-        iss: Some(issuance.client_id.clone()),
-        aud: issuance.offer.credential_issuer.clone(),
-        iat: chrono::Utc::now().timestamp(),
-        nonce: issuance.token.c_nonce.clone(),
-    };
-    let jwt = jws::encode(Type::Proof, &claims, provider.clone()).await.map_err(|e| {
-        tracing::error!(target: "Endpoint::credentials", ?e);
-        e
-    })?;
-
     // If the flow is scope-based then we can't examine authorization details
     // but proceed instead to request credentials by format.
     if issuance.scope.is_some() {
-        credential_by_format(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_format(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
     // Otherwise the flow is definition or format based and we make a request
     // for each authorized credential identifier.
     else {
-        credential_by_identifier(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_identifier(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
 
     // Stash the state for the next step (save or cancel or deferred).
@@ -135,9 +121,23 @@ pub async fn credentials(
     })
 }
 
+// Construct a proof to be used in a credential request.
+//
+// The issuer returns a new `c_nonce` with each credential so each request needs
+// its own proof.
+async fn proof(provider: impl HolderProvider, issuance: &Issuance) -> anyhow::Result<String> {
+    let claims = ProofClaims {
+        iss: Some(issuance.client_id.clone()),
+        aud: issuance.issuer.credential_issuer.clone(),
+        iat: chrono::Utc::now().timestamp(),
+        nonce: issuance.token.c_nonce.clone(),
+    };
+    jws::encode(Type::Proof, &claims, provider).await
+}
+
 // Make a credential request by format based on the flow being by scope.
 async fn credential_by_format(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     if request.credential_identifiers.is_some() {
         bail!("credential identifiers must be `None` for scope-based issuance");
@@ -153,12 +153,13 @@ async fn credential_by_format(
     let Some((cfg_id, config)) = config else {
         bail!("credential configuration not found for scope and format");
     };
+    let jwt = proof(provider.clone(), issuance).await?;
     let request = CredentialRequest {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
         access_token: issuance.token.access_token.clone(),
         credential: CredentialIssuance::Format(config.format.clone()),
         proof: Some(Proof::Single {
-            proof_type: SingleProof::Jwt { jwt: jwt.into() },
+            proof_type: SingleProof::Jwt { jwt },
         }),
         ..Default::default()
     };
@@ -180,14 +181,25 @@ async fn credential_by_format(
             return Err(e);
         }
     };
+    update_nonce(&mut issuance.token, &cred_res);
     Ok(())
 }
 
+// Use the issuer's new `c_nonce`, if there is one, in subsequent proofs.
+pub fn update_nonce(token: &mut TokenResponse, response: &CredentialResponse) {
+    if response.c_nonce.is_some() {
+        token.c_nonce.clone_from(&response.c_nonce);
+    }
+    if response.c_nonce_expires_in.is_some() {
+        token.c_nonce_expires_in.clone_from(&response.c_nonce_expires_in);
+    }
+}
+
 // Make a credential request by identifier.
 async fn credential_by_identifier(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
-    let Some(authorized) = &issuance.token.authorization_details else {
+    let Some(authorized) = &issuance.token.authorization_details.clone() else {
         bail!("no authorization details in token response");
     };
 
@@ -217,13 +229,14 @@ async fn credential_by_identifier(
                     continue;
                 }
             }
+            let jwt = proof(provider.clone(), issuance).await?;
             let request = credential_request!({
                 "credential_issuer": issuance.issuer.credential_issuer.clone(),
                 "access_token": issuance.token.access_token.clone(),
                 "credential_identifier": cred_id.to_string(),
                 "proof": {
                     "proof_type": "jwt",
-                    "jwt": jwt.to_string()
+                    "jwt": jwt
                 }
             });
             let cred_res = Issuer::credential(&provider, request).await?;
@@ -240,12 +253,7 @@ async fn credential_by_identifier(
                     return Err(e);
                 }
             };
-            if cred_res.c_nonce.is_some() {
-                issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
-            }
-            if cred_res.c_nonce_expires_in.is_some() {
-                issuance.token.c_nonce_expires_in.clone_from(&cred_res.c_nonce_expires_in);
-            }
+            update_nonce(&mut issuance.token, &cred_res);
         }
     }
     Ok(())
diff --git a/vercre-holder/src/issuance/deferred.rs b/vercre-holder/src/issuance/deferred.rs
index baa4dde..84797eb 100644
--- a/vercre-holder/src/issuance/deferred.rs
+++ b/vercre-holder/src/issuance/deferred.rs
@@ -9,7 +9,9 @@ use tracing::instrument;
 use vercre_issuer::DeferredCredentialRequest;
 
 use super::{Issuance, Status};
-use crate::issuance::credentials::{process_credential_response, CredentialsResponse};
+use crate::issuance::credentials::{
+    process_credential_response, update_nonce, CredentialsResponse,
+};
 use crate::provider::{HolderProvider, Issuer, StateStore};
 
 /// Deferred credential request.
@@ -91,6 +93,8 @@ pub async fn deferred(
         }
     };
 
+    update_nonce(&mut issuance.token, &deferred_response.credential_response);
+
     // Release issuance state if no more deferred credentials and no
     // credentials to save, otherwise stash the state.
     if issuance.deferred.is_empty() && issuance.credentials.is_empty() {
-- 
2.43.0


From 11548e2dfa1eea0c0a87112488af24fb3189c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 43/66] fix: keep what the holder accepted when authorizing
 without details

---
 vercre-holder/src/issuance/authorize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 34a1002..47c20be 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -167,7 +167,11 @@ pub async fn authorize(
             issuance
         }
     };
-    issuance.accepted.clone_from(&request.authorization_details);
+    // Narrow to the details requested, otherwise leave the scope of any earlier
+    // acceptance as is.
+    if request.authorization_details.is_some() {
+        issuance.accepted.clone_from(&request.authorization_details);
+    }
 
     // PKCE pair
     let verifier = pkce::code_verifier();
-- 
2.43.0


From b5d72c3cacebf7dfdf3884b71732833e50607e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 44/66] fix: no panic on issuer metadata with empty lists

---
 vercre-holder/src/issuance/authorize.rs   | 12 ++++++++++--
 vercre-holder/src/issuance/credentials.rs |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 47c20be..402775e 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -268,14 +268,22 @@ fn authorization_request(
         return Err(anyhow!("code challenge methods missing from authorization server metadata"));
     };
 
+    let Some(code_challenge_method) = code_challenge_methods.first().cloned() else {
+        return Err(anyhow!("code challenge methods missing from authorization server metadata"));
+    };
+    let response_types = &issuance.authorization_server.oauth.response_types_supported;
+    let Some(response_type) = response_types.first().cloned() else {
+        return Err(anyhow!("response types missing from authorization server metadata"));
+    };
+
     Ok(AuthorizationRequest::Object(RequestObject {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
-        response_type: issuance.authorization_server.oauth.response_types_supported[0].clone(),
+        response_type,
         client_id: issuance.client_id.clone(),
         redirect_uri: request.redirect_uri.clone(),
         state: Some(issuance.id.clone()),
         code_challenge,
-        code_challenge_method: code_challenge_methods[0].clone(),
+        code_challenge_method,
         authorization_details: auth_details,
         scope,
         resource: Some(issuance.issuer.credential_issuer.clone()),
diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 6520def..91c9cdf 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -326,7 +326,7 @@ async fn credential(
     // Base64-encoded logo if possible.
     if let Some(display) = &config.display {
         // TODO: Locale?
-        if let Some(logo_info) = &display[0].logo {
+        if let Some(logo_info) = display.first().and_then(|d| d.logo.as_ref()) {
             if let Some(uri) = &logo_info.uri {
                 if let Ok(logo) = Issuer::logo(provider, uri).await {
                     storable_credential.logo = Some(logo);
-- 
2.43.0


From 29a8227b3d6419386a0bfba2aa7002753df5c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 45/66] fix: saving keeps the flow while credentials are still
 deferred

---
 vercre-holder/src/issuance/save.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/issuance/save.rs b/vercre-holder/src/issuance/save.rs
index 6acb2e8..d917410 100644
--- a/vercre-holder/src/issuance/save.rs
+++ b/vercre-holder/src/issuance/save.rs
@@ -5,6 +5,7 @@
 //!
 //! The converse of this endpoint is the `cancel` endpoint.
 
+use chrono::{DateTime, Utc};
 use serde::{Deserialize, Serialize};
 use tracing::instrument;
 use vercre_issuer::{NotificationEvent, NotificationRequest};
@@ -68,7 +69,7 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
     issuance.credentials.clear();
 
     // Notify issuer if we have been given a notification ID.
-    if let Some(notification_id) = issuance.notification_id {
+    if let Some(notification_id) = issuance.notification_id.take() {
         if let Err(e) = Issuer::notification(
             &provider,
             NotificationRequest {
@@ -86,7 +87,8 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
         }
     }
 
-    // Purge state if there are no deferred credentials left to process.
+    // Purge state if there are no deferred credentials left to process, otherwise
+    // stash the state without the credentials now saved.
     if issuance.deferred.is_empty() {
         if let Err(e) = StateStore::purge(&provider, &request.issuance_id).await {
             tracing::error!(target: "Endpoint::save", ?e);
@@ -94,6 +96,12 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
         }
         return Ok(request.issuance_id.clone());
     }
+    if let Err(e) =
+        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
+    {
+        tracing::error!(target: "Endpoint::save", ?e);
+        return Err(e);
+    };
 
     Ok(request.issuance_id.clone())
 }
-- 
2.43.0


From 02c8039b9bb8e8e20abd3adcc2b358d3fb99909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 46/66] fix: refuse to accept credentials that are not on offer

---
 vercre-holder/src/issuance/accept.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/vercre-holder/src/issuance/accept.rs b/vercre-holder/src/issuance/accept.rs
index 30f5b5c..86f7024 100644
--- a/vercre-holder/src/issuance/accept.rs
+++ b/vercre-holder/src/issuance/accept.rs
@@ -17,8 +17,8 @@ use chrono::{DateTime, Utc};
 use serde::{Deserialize, Serialize};
 use tracing::instrument;
 use vercre_issuer::{
-    AuthorizationDetail, Claim, CredentialAuthorization, CredentialConfiguration,
-    CredentialDefinition, Format, ProfileClaims,
+    AuthorizationDetail, Claim, CredentialAuthorization, CredentialDefinition, Format,
+    ProfileClaims,
 };
 
 use super::{Issuance, Status};
@@ -81,12 +81,10 @@ pub async fn accept(
         }
     };
 
-    issuance.accepted =
-        narrow_scope(&issuance.issuer.credential_configurations_supported, request.accept.as_ref())
-            .map_err(|e| {
-                tracing::error!(target: "Endpoint::accept", ?e);
-                e
-            })?;
+    issuance.accepted = narrow_scope(&issuance, request.accept.as_ref()).map_err(|e| {
+        tracing::error!(target: "Endpoint::accept", ?e);
+        e
+    })?;
 
     issuance.status = Status::Accepted;
 
@@ -110,7 +108,7 @@ pub async fn accept(
 }
 
 fn narrow_scope(
-    offered: &HashMap<String, CredentialConfiguration>, accept: Option<&Vec<AuthorizationSpec>>,
+    issuance: &Issuance, accept: Option<&Vec<AuthorizationSpec>>,
 ) -> anyhow::Result<Option<Vec<AuthorizationDetail>>> {
     // Just return None if the holder wants all credential configurations.
     let Some(accept) = accept else {
@@ -118,12 +116,16 @@ fn narrow_scope(
     };
     let mut auth_details = Vec::new();
     for auth_spec in accept {
+        let cfg_id = &auth_spec.credential_configuration_id;
+        if !issuance.offer.credential_configuration_ids.contains(cfg_id) {
+            bail!("credential configuration accepted not found in offer");
+        }
         let claims: Option<ProfileClaims> = match &auth_spec.claims {
             Some(claims) => {
                 let Some(credential_configuration) =
-                    offered.get(&auth_spec.credential_configuration_id)
+                    issuance.issuer.credential_configurations_supported.get(cfg_id)
                 else {
-                    bail!("credential configuration accepted not found in offer");
+                    bail!("credential configuration accepted is not supported by the issuer");
                 };
 
                 let profile = match &credential_configuration.format {
@@ -144,7 +146,7 @@ fn narrow_scope(
         // TODO: Support CredentialAuthorization::Format
         let detail = AuthorizationDetail {
             credential: CredentialAuthorization::ConfigurationId {
-                credential_configuration_id: auth_spec.credential_configuration_id.clone(),
+                credential_configuration_id: cfg_id.clone(),
                 claims,
             },
             ..Default::default()
-- 
2.43.0


From ec7de75db669aae4ea4e8c129245b189c1b786d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 47/66] fix: do not keep a flow for an offer that is refused

---
 vercre-holder/src/issuance/offer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vercre-holder/src/issuance/offer.rs b/vercre-holder/src/issuance/offer.rs
index e24b74e..04334c0 100644
--- a/vercre-holder/src/issuance/offer.rs
+++ b/vercre-holder/src/issuance/offer.rs
@@ -118,14 +118,6 @@ pub async fn offer(
 
     issuance.status = Status::Ready;
 
-    // Stash the state for the next step.
-    if let Err(e) =
-        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
-    {
-        tracing::error!(target: "Endpoint::offer", ?e);
-        return Err(e);
-    };
-
     // Trim the supported credentials to just those on offer so that the holder
     // can decide which to accept.
     let mut offered = HashMap::<String, CredentialConfiguration>::new();
@@ -140,6 +132,14 @@ pub async fn offer(
         offered.insert(cfg_id.clone(), found.clone());
     }
 
+    // Stash the state for the next step.
+    if let Err(e) =
+        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
+    {
+        tracing::error!(target: "Endpoint::offer", ?e);
+        return Err(e);
+    };
+
     let res = OfferResponse {
         issuance_id: issuance.id,
         issuer: request.offer.credential_issuer.clone(),
-- 
2.43.0


From c5512627611b66089a2ee85473151c14146df866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:00 +0000
Subject: [PATCH 48/66] fix: no panic on a truncated presentation status

---
 vercre-holder/src/presentation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/presentation.rs b/vercre-holder/src/presentation.rs
index c238758..0108533 100644
--- a/vercre-holder/src/presentation.rs
+++ b/vercre-holder/src/presentation.rs
@@ -84,8 +84,8 @@ impl FromStr for Status {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self> {
-        if s.starts_with("Failed") {
-            return Ok(Self::Failed(s[8..].to_string()));
+        if let Some(e) = s.strip_prefix("Failed: ") {
+            return Ok(Self::Failed(e.to_string()));
         }
         match s {
             "Inactive" => Ok(Self::Inactive),
-- 
2.43.0


From a3358eea990bbbdffebb883b31e6351440e9627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:14 +0000
Subject: [PATCH 49/66] fix: a presentation needs no type beyond
 VerifiablePresentation

---
 crates/w3c-vc/src/model/vp.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 99b8118..498910f 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -156,9 +156,6 @@ impl VpBuilder {
         if self.vp.context.len() < 2 {
             bail!("context is required");
         }
-        if let Quota::One(_) = self.vp.type_ {
-            bail!("type is required");
-        }
 
         Ok(self.vp)
     }
-- 
2.43.0


From 8b5a5a0ebdda4c9af622b7545dce516b350d052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:26 +0000
Subject: [PATCH 50/66] fix: find credentials for every input descriptor of a
 presentation request

---
 vercre-holder/src/presentation.rs         |  6 +++---
 vercre-holder/src/presentation/request.rs | 22 ++++++++++++----------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/vercre-holder/src/presentation.rs b/vercre-holder/src/presentation.rs
index 0108533..a3ebddd 100644
--- a/vercre-holder/src/presentation.rs
+++ b/vercre-holder/src/presentation.rs
@@ -40,9 +40,9 @@ pub struct Presentation {
     /// Definition).
     pub credentials: Vec<Credential>,
 
-    /// The `JSONPath` query used to match credentials to the verifier's
-    /// request.
-    pub filter: Constraints,
+    /// The `JSONPath` queries used to match credentials to the verifier's
+    /// request: one for each Input Descriptor.
+    pub filters: Vec<Constraints>,
 
     /// The presentation submission token.
     pub submission: PresentationSubmission,
diff --git a/vercre-holder/src/presentation/request.rs b/vercre-holder/src/presentation/request.rs
index 0005204..965760b 100644
--- a/vercre-holder/src/presentation/request.rs
+++ b/vercre-holder/src/presentation/request.rs
@@ -76,13 +76,17 @@ pub async fn request(
 
     // Get the credentials from the holder's credential store that match the
     // verifier's request.
-    let filter = build_filter(&req_obj).map_err(|e| {
+    presentation.filters = build_filters(&req_obj).map_err(|e| {
         tracing::error!(target: "Endpoint::request", ?e);
         e
     })?;
-    presentation.filter.clone_from(&filter);
-    let credentials = CredentialStorer::find(&provider, Some(filter)).await?;
-    presentation.credentials.clone_from(&credentials);
+    for filter in &presentation.filters {
+        for credential in CredentialStorer::find(&provider, Some(filter.clone())).await? {
+            if !presentation.credentials.contains(&credential) {
+                presentation.credentials.push(credential);
+            }
+        }
+    }
 
     // Stash the presentation flow for subsequent steps
     if let Err(e) = super::put_presentation(provider, &presentation).await {
@@ -115,10 +119,9 @@ async fn parse_request_object_response(
     Ok(jwt.claims)
 }
 
-/// Construct a credential filter (`JSONPath`) from the presentation definition
-/// contained in the presentation request.
-// TODO: How to handle multiple input descriptors?
-fn build_filter(request: &RequestObject) -> anyhow::Result<Constraints> {
+/// Construct credential filters (`JSONPath`) from the presentation definition
+/// contained in the presentation request: one for each input descriptor.
+fn build_filters(request: &RequestObject) -> anyhow::Result<Vec<Constraints>> {
     let pd = match &request.presentation_definition {
         Kind::Object(pd) => pd,
         Kind::String(_) => bail!("presentation_definition_uri is unsupported"),
@@ -126,7 +129,6 @@ fn build_filter(request: &RequestObject) -> anyhow::Result<Constraints> {
     if pd.input_descriptors.is_empty() {
         bail!("no input descriptors found");
     }
-    let constraints = pd.input_descriptors[0].constraints.clone();
 
-    Ok(constraints)
+    Ok(pd.input_descriptors.iter().map(|input| input.constraints.clone()).collect())
 }
-- 
2.43.0


From 4a6573365ef39d139b82a9059636e65e25c5f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:26 +0000
Subject: [PATCH 51/66] fix: map each input descriptor to a credential that
 satisfies it

---
 vercre-holder/src/presentation/present.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/presentation/present.rs b/vercre-holder/src/presentation/present.rs
index 821b3c1..94f2b17 100644
--- a/vercre-holder/src/presentation/present.rs
+++ b/vercre-holder/src/presentation/present.rs
@@ -92,13 +92,19 @@ fn create_submission(presentation: &Presentation) -> anyhow::Result<Presentation
     let mut desc_map: Vec<DescriptorMap> = vec![];
     for n in 0..pd.input_descriptors.len() {
         let in_desc = &pd.input_descriptors[n];
+        let Some(index) = presentation
+            .credentials
+            .iter()
+            .position(|c| in_desc.constraints.satisfied(&c.vc).unwrap_or_default())
+        else {
+            bail!("no credential found for input descriptor {}", in_desc.id);
+        };
         let dm = DescriptorMap {
             id: in_desc.id.clone(),
             path: "$".to_string(),
             path_nested: PathNested {
                 format: "jwt_vc_json".to_string(),
-                // URGENT: index matched VCs not input descriptors!!
-                path: "$.verifiableCredential[0]".to_string(),
+                path: format!("$.verifiableCredential[{index}]"),
             },
             format: "jwt_vc_json".to_string(),
         };
-- 
2.43.0


From 42dde07efc77d0241e38c71521a0fc6a07887165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 52/66] fix: escape text in OpenID error responses

---
 crates/openid/src/error.rs | 52 +++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 8acb9ce..279ff9c 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -21,7 +21,7 @@ pub enum Error {
     /// parameter value, repeats a parameter, includes multiple credentials,
     /// utilizes more than one mechanism for authenticating the client, or is
     /// otherwise malformed.
-    #[error(r#"{{"error": "invalid_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_request", "error_description": {}}}"#, quoted(.0))]
     InvalidRequest(String),
 
     /// Client authentication failed (e.g., unknown client, no client
@@ -39,7 +39,7 @@ pub enum Error {
     ///
     /// Verifier's pre-registered metadata has been found based on the Client
     /// Identifier, but `client_metadata` parameter is also set.
-    #[error(r#"{{"error": "invalid_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_client", "error_description": {}}}"#, quoted(.0))]
     InvalidClient(String),
 
     /// The provided authorization grant (e.g., authorization code,
@@ -49,60 +49,60 @@ pub enum Error {
     ///
     /// The Authorization Server expects a PIN in the pre-authorized flow but
     /// the client provides the wrong PIN.
-    #[error(r#"{{"error": "invalid_grant", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_grant", "error_description": {}}}"#, quoted(.0))]
     InvalidGrant(String),
 
     /// The client is not authorized to request an authorization code using this
     /// method.
-    #[error(r#"{{"error": "unauthorized_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unauthorized_client", "error_description": {}}}"#, quoted(.0))]
     UnauthorizedClient(String),
 
     /// The authorization grant type is not supported by the authorization
     /// server.
-    #[error(r#"{{"error": "unsupported_grant_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_grant_type", "error_description": {}}}"#, quoted(.0))]
     UnsupportedGrantType(String),
 
     /// The requested scope is invalid, unknown, malformed, or exceeds the scope
     /// granted.
-    #[error(r#"{{"error": "invalid_scope", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_scope", "error_description": {}}}"#, quoted(.0))]
     InvalidScope(String),
 
     /// Unknown authorization details type or authorization details not
     /// conforming to the respective type definition
-    #[error(r#"{{"error": "invalid_authorization_details", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_authorization_details", "error_description": {}}}"#, quoted(.0))]
     InvalidAuthorizationDetails(String),
 
     /// The resource owner or authorization server denied the request.
-    #[error(r#"{{"error": "access_denied", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "access_denied", "error_description": {}}}"#, quoted(.0))]
     AccessDenied(String),
 
     /// The authorization server does not support obtaining an authorization
     /// code using this method.
-    #[error(r#"{{"error": "unsupported_response_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_response_type", "error_description": {}}}"#, quoted(.0))]
     UnsupportedResponseType(String),
 
     /// The authorization server encountered an unexpected condition that
     /// prevented it from fulfilling the request.
-    #[error(r#"{{"error": "server_error", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "server_error", "error_description": {}}}"#, quoted(.0))]
     ServerError(String),
 
     /// The authorization server is unable to handle the request due to
     /// temporary overloading or maintenance.
-    #[error(r#"{{"error": "temporarily_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "temporarily_unavailable", "error_description": {}}}"#, quoted(.0))]
     TemporarilyUnavailable(String),
 
     /// The Credential Request is missing a required parameter, includes an
     /// unsupported parameter or parameter value, repeats the same
     /// parameter, or is otherwise malformed.
-    #[error(r#"{{"error": "invalid_credential_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_credential_request", "error_description": {}}}"#, quoted(.0))]
     InvalidCredentialRequest(String),
 
     /// Requested credential type is not supported.
-    #[error(r#"{{"error": "unsupported_credential_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_type", "error_description": {}}}"#, quoted(.0))]
     UnsupportedCredentialType(String),
 
     /// Requested credential format is not supported.
-    #[error(r#"{{"error": "unsupported_credential_format", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_format", "error_description": {}}}"#, quoted(.0))]
     UnsupportedFormat(String),
 
     /// Credential Request did not contain a proof, or proof was invalid, i.e.
@@ -111,7 +111,11 @@ pub enum Error {
     /// `c_nonce_expires_in` values to be used by the Wallet when creating
     /// another proof of possession of key material.
     #[allow(missing_docs)]
-    #[error(r#"{{"error": "invalid_proof", "error_description": "{hint}", "c_nonce": "{c_nonce}", "c_nonce_expires_in": {c_nonce_expires_in}}}"#)]
+    #[error(
+        r#"{{"error": "invalid_proof", "error_description": {}, "c_nonce": {}, "c_nonce_expires_in": {c_nonce_expires_in}}}"#,
+        quoted(.hint),
+        quoted(.c_nonce)
+    )]
     InvalidProof { hint: String, c_nonce: String, c_nonce_expires_in: i64 },
 
     /// This error occurs when the encryption parameters in the Credential
@@ -119,7 +123,7 @@ pub enum Error {
     /// indicates that the Credential Issuer requires the Credential
     /// Response to be sent encrypted, but the Credential Request does not
     /// contain the necessary encryption parameters.
-    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": {}}}"#, quoted(.0))]
     InvalidEncryptionParameters(String),
 
     /// The Credential issuance is still pending. The error response SHOULD also
@@ -135,23 +139,24 @@ pub enum Error {
     /// This error occurs when the `transaction_id` was not issued by the
     /// respective Credential Issuer or it was already used to obtain the
     /// Credential.
-    #[error(r#"{{"error": "invalid_transaction_id", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_transaction_id", "error_description": {}}}"#, quoted(.0))]
     InvalidTransactionId(String),
 
     /// The Wallet does not support any of the formats requested by the
     /// Verifier, such as those included in the `vp_formats` registration
     /// parameter.
-    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": {}}}"#, quoted(.0))]
     VpFormatsNotSupported(String),
 
     /// The Presentation Definition URL cannot be reached.
-    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": {}}}"#, quoted(.0))]
     InvalidPresentationDefinitionUri(String),
 
     /// The Presentation Definition URL can be reached, but the specified
     /// `presentation_definition` cannot be found at the URL.
     #[error(
-        r#"{{"error": "invalid_presentation_definition_reference", "error_description": "{0}"}}"#
+        r#"{{"error": "invalid_presentation_definition_reference", "error_description": {}}}"#,
+        quoted(.0)
     )]
     InvalidPresentationDefinitionReference(String),
 
@@ -160,10 +165,15 @@ pub enum Error {
     /// Use when the User Agent cannot invoke the Wallet and another component
     /// receives the request while the End-User wishes to continue the journey
     /// on the Verifier website.
-    #[error(r#"{{"error": "wallet_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "wallet_unavailable", "error_description": {}}}"#, quoted(.0))]
     WalletUnavailable(String),
 }
 
+/// Text as a JSON string, quotes included.
+fn quoted(text: &str) -> serde_json::Value {
+    serde_json::Value::from(text)
+}
+
 /// Error response for `OpenID` for Verifiable Credentials.
 #[allow(clippy::module_name_repetitions)]
 #[derive(Deserialize, Serialize)]
-- 
2.43.0


From 8ccdddd519ef0ccc370d1ccec7e2455ab78137cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 53/66] fix: serialize the issuance_pending error

---
 crates/openid/src/error.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 279ff9c..1266c45 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -182,7 +182,8 @@ pub struct OidError {
     pub error: String,
 
     /// Error description.
-    pub error_description: String,
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub error_description: Option<String>,
 
     /// Optional client-state parameter.
     #[serde(skip_serializing_if = "Option::is_none")]
@@ -195,6 +196,10 @@ pub struct OidError {
     /// The expiry time of the `c_nonce`.
     #[serde(skip_serializing_if = "Option::is_none")]
     pub c_nonce_expires_in: Option<i64>,
+
+    /// The number of seconds to wait before retrying a deferred request.
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub interval: Option<i64>,
 }
 
 impl Serialize for Error {
-- 
2.43.0


From 52ff7bc5dfc6afa72aa8de1cb55c8f688ba51809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 54/66] fix: name the ldp_vc format as the specification does

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 47ff32e..0d7a20c 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -732,7 +732,7 @@ pub enum Format {
     /// used by the Wallet to check whether it supports a certain VC. If
     /// necessary, the Wallet could apply JSON-LD processing to the
     /// Credential issued.
-    #[serde(rename = "ldp-vc")]
+    #[serde(rename = "ldp_vc")]
     LdpVc(ProfileW3c),
 
     /// A W3C Verifiable Credential.
-- 
2.43.0


From a37b891d234516e8bb8f3e9b2a8082648455666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 55/66] fix: tell form-encoded and JSON authorization requests
 apart

---
 crates/openid/src/issuer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 0d7a20c..ee8b459 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -434,10 +434,14 @@ impl FromStr for AuthorizationRequest {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if s.contains('=') && s.contains('&') {
-            Ok(urlencode::from_str(s)?)
+        if !s.trim_start().starts_with('{') {
+            return Ok(urlencode::from_str(s)?);
+        }
+        let value: serde_json::Value = serde_json::from_str(s)?;
+        if value.get("request_uri").is_some() {
+            Ok(Self::Uri(serde_json::from_value(value)?))
         } else {
-            Ok(Self::Object(serde_json::from_str(s)?))
+            Ok(Self::Object(serde_json::from_value(value)?))
         }
     }
 }
-- 
2.43.0


From 10e3e31f15d67c2edc66e76af7a0132419c4e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 56/66] fix: leave an absent client_id out of token requests

---
 crates/openid/src/issuer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index ee8b459..3f55fb9 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -963,6 +963,7 @@ pub struct TokenRequest {
     /// OPTIONAL, as described in Section 3.2.1 of OAuth 2.0 [RFC6749], and,
     /// consequently, the `client_id` parameter is only needed when a form
     /// of Client Authentication that relies on this parameter is used.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub client_id: Option<String>,
 
     /// Authorization grant type.
-- 
2.43.0


From 2b0342b1be5cd57d52372219636a49c9c10d3b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 57/66] fix: write a request object response the way it is read

---
 crates/openid/src/verifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/openid/src/verifier.rs b/crates/openid/src/verifier.rs
index ef5a885..acc3bfc 100644
--- a/crates/openid/src/verifier.rs
+++ b/crates/openid/src/verifier.rs
@@ -440,9 +440,9 @@ impl Serialize for RequestObjectResponse {
         S: Serializer,
     {
         match &self.request_object {
-            RequestObjectType::Object(_) => {
+            RequestObjectType::Object(object) => {
                 let mut map = serializer.serialize_map(Some(1))?;
-                map.serialize_entry("request_object", &self.request_object)?;
+                map.serialize_entry("request_object", object)?;
                 map.end()
             }
             RequestObjectType::Jwt(jwt) => jwt.serialize(serializer),
-- 
2.43.0


From 74bb3b4899670db2c69c872921fea754b97128bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:36 +0000
Subject: [PATCH 58/66] fix: read numbers and booleans from forms

---
 crates/core/src/urlencode.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index 3ae67ce..c5d56ce 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -81,6 +81,18 @@ impl Param {
     }
 }
 
+// Read a number or boolean from its text.
+macro_rules! deserialize_scalar {
+    ($($method:ident)*) => {$(
+        fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+            match serde_json::from_str::<serde_json::Value>(&self.0) {
+                Ok(value) => value.$method(visitor).map_err(|e| Error::Message(e.to_string())),
+                Err(_) => visitor.visit_string(self.0),
+            }
+        }
+    )*};
+}
+
 impl IntoDeserializer<'_, Error> for Param {
     type Deserializer = Self;
 
@@ -130,9 +142,15 @@ impl<'de> Deserializer<'de> for Param {
         }
     }
 
+    deserialize_scalar! {
+        deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
+        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64
+        deserialize_f32 deserialize_f64
+    }
+
     serde::forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes byte_buf unit
-        unit_struct seq tuple tuple_struct map struct identifier ignored_any
+        i128 u128 char bytes byte_buf unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
     }
 }
 
-- 
2.43.0


From 5607efcb35be8896da787488f8713450f485db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:31 +0000
Subject: [PATCH 59/66] fix: a pushed authorization request could be used more
 than once

---
 vercre-issuer/src/authorize.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index fc19b45..96384f9 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -91,11 +91,11 @@ pub async fn authorize(
     provider: impl Provider, request: AuthorizationRequest,
 ) -> Result<AuthorizationResponse> {
     // request object or URI (Pushed Authorization Request)
-    let mut is_par = false;
+    let mut par_uri = None;
     let request = match request {
         AuthorizationRequest::Object(request) => request,
         AuthorizationRequest::Uri(uri) => {
-            is_par = true;
+            par_uri = Some(uri.request_uri.clone());
             let state: State = StateStore::get(&provider, &uri.request_uri)
                 .await
                 .map_err(|e| Error::ServerError(format!("state issue: {e}")))?;
@@ -117,11 +117,20 @@ pub async fn authorize(
 
     let mut ctx = Context {
         issuer,
-        is_par,
+        is_par: par_uri.is_some(),
         ..Context::default()
     };
     ctx.verify(&provider, &request).await?;
-    ctx.process(&provider, request).await
+    let response = ctx.process(&provider, request).await?;
+
+    // a pushed authorization request can only be used once
+    if let Some(request_uri) = &par_uri {
+        StateStore::purge(&provider, request_uri)
+            .await
+            .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+    }
+
+    Ok(response)
 }
 
 #[derive(Debug, Default)]
-- 
2.43.0


From 7d9752dc81af669230f2ec044f20e9b4d58079e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:31 +0000
Subject: [PATCH 60/66] fix: only the first item of a requested scope was
 granted

---
 vercre-issuer/src/authorize.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index 96384f9..1791298 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -332,9 +332,9 @@ impl Context {
     // Verify Credentials requested in `scope` are supported.
     // N.B. has side effect of saving valid scope items into context for later use.
     fn verify_scope(&mut self, scope: &str) -> Result<()> {
-        if let Some(item) = scope.split_whitespace().next() {
-            let mut scope_map = HashMap::new();
+        let mut scope_map = HashMap::new();
 
+        for item in scope.split_whitespace() {
             // find supported configurations that has the requested scope
             for (config_id, cred_cfg) in &self.issuer.credential_configurations_supported {
                 // `authorization_details` credential request takes precedence `scope` request
@@ -347,12 +347,12 @@ impl Context {
                     scope_map.insert(config_id.to_string(), item.to_string());
                 }
             }
+        }
 
-            if scope_map.is_empty() {
-                return Err(Error::InvalidScope(format!("scope item {item} is unsupported")));
-            }
-            self.scope_items.extend(scope_map);
+        if scope_map.is_empty() && !scope.trim().is_empty() {
+            return Err(Error::InvalidScope(format!("scope {scope} is unsupported")));
         }
+        self.scope_items.extend(scope_map);
 
         Ok(())
     }
-- 
2.43.0


From 824d6391771b6372cc7f5081a9e8368f17d89007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:49 +0000
Subject: [PATCH 61/66] fix: a scope was refused when its credentials were also
 requested by authorization_details

---
 vercre-issuer/src/authorize.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index 1791298..e5603ca 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -333,23 +333,27 @@ impl Context {
     // N.B. has side effect of saving valid scope items into context for later use.
     fn verify_scope(&mut self, scope: &str) -> Result<()> {
         let mut scope_map = HashMap::new();
+        let mut supported = scope.trim().is_empty();
 
         for item in scope.split_whitespace() {
             // find supported configurations that has the requested scope
             for (config_id, cred_cfg) in &self.issuer.credential_configurations_supported {
+                if cred_cfg.scope.as_deref() != Some(item) {
+                    continue;
+                }
+                supported = true;
+
                 // `authorization_details` credential request takes precedence `scope` request
                 if self.auth_dets.contains_key(config_id) {
                     continue;
                 }
 
                 // save scope item + credential_configuration_id
-                if cred_cfg.scope == Some(item.to_string()) {
-                    scope_map.insert(config_id.to_string(), item.to_string());
-                }
+                scope_map.insert(config_id.to_string(), item.to_string());
             }
         }
 
-        if scope_map.is_empty() && !scope.trim().is_empty() {
+        if !supported {
             return Err(Error::InvalidScope(format!("scope {scope} is unsupported")));
         }
         self.scope_items.extend(scope_map);
-- 
2.43.0


From 952e8a28da8a7d194fab2613bfc3b9958a97ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:28 +0000
Subject: [PATCH 62/66] fix: macros refuse an authorization detail whose type
 is not text

---
 crates/macros/src/authorization.rs | 4 +---
 crates/macros/src/token.rs         | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 6dc497b..0db0b31 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -76,9 +76,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
 
         // check type is set and is `openid_credential`
         if let Some(type_) = detail.get("type") {
-            if let Some(t) = type_.as_str()
-                && t != "openid_credential"
-            {
+            if type_.as_str() != Some("openid_credential") {
                 return Err(Error::new(span, "`type` must be `openid_credential`"));
             }
         } else {
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 79ece0f..5fbb5ab 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -102,9 +102,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
 
         // check type is set and is `openid_credential`
         if let Some(type_) = detail.get("type") {
-            if let Some(t) = type_.as_str()
-                && t != "openid_credential"
-            {
+            if type_.as_str() != Some("openid_credential") {
                 return Err(Error::new(span, "`type` must be `openid_credential`"));
             }
         } else {
-- 
2.43.0


From c0bbd37bc6229e0d75b28e2e2870d420de3716e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:29 +0000
Subject: [PATCH 63/66] fix: macros refuse a claim that is not an object

---
 crates/macros/src/authorization.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 0db0b31..1dfde26 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -208,6 +208,8 @@ pub fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
             return Err(Error::new(span, "`credentialSubject` must be an object"));
         };
 
+        check_claims(credential_subject)?;
+
         // build claims map
         let claims = claims(credential_subject);
 
@@ -217,6 +219,17 @@ pub fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     }
 }
 
+// Every claim is an object: empty, or a set of nested claims.
+fn check_claims(claimset: &HashMap<String, Value>) -> Result<()> {
+    for (k, v) in claimset {
+        let Some(nested) = v.as_object() else {
+            return Err(Error::new(Span::call_site(), format!("`{k}` must be an object")));
+        };
+        check_claims(nested)?;
+    }
+    Ok(())
+}
+
 fn claims(claimset: &HashMap<String, Value>) -> TokenStream {
     let path = quote! {vercre_issuer};
 
-- 
2.43.0


From a78acbd7561b1d3618d98ef5129efd3b1a51b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:33 +0000
Subject: [PATCH 64/66] fix: refuse form text that is not UTF-8 when decoded

---
 crates/core/src/urlencode.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index c5d56ce..b122697 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -57,15 +57,18 @@ where
             let (key, value) = pair
                 .split_once('=')
                 .ok_or_else(|| Error::Message(format!("`{pair}` is not a key/value pair")))?;
-            Ok((decode(key), Param(decode(value))))
+            Ok((decode(key)?, Param(decode(value)?)))
         })
         .collect::<Result<Vec<_>>>()?;
 
     T::deserialize(MapDeserializer::new(pairs.into_iter()))
 }
 
-fn decode(s: &str) -> String {
-    percent_decode_str(s).decode_utf8_lossy().into_owned()
+fn decode(s: &str) -> Result<String> {
+    let decoded = percent_decode_str(s)
+        .decode_utf8()
+        .map_err(|_| Error::Message(format!("`{s}` is not valid UTF-8 when decoded")))?;
+    Ok(decoded.into_owned())
 }
 
 // A decoded parameter value. Text is used as-is while arrays and objects are
-- 
2.43.0


From acd76cd8235dc54381c787659b61f18393498e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:49 +0000
Subject: [PATCH 65/66] fix: using an access token does not extend its
 advertised lifetime

---
 vercre-issuer/src/credential.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 7566f88..5dc9a4e 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -231,7 +231,6 @@ impl Context {
 
         // update token state with new `c_nonce`
         let mut state = self.state.clone();
-        state.expires_at = Utc::now() + Expire::Access.duration();
 
         let Stage::Validated(mut token_state) = state.stage else {
             return Err(Error::AccessDenied("invalid access token state".into()));
@@ -247,6 +246,7 @@ impl Context {
         // create issuance state for notification endpoint
         // TODO: save non-W3C credentials in state
         state.stage = Stage::Issued(Credential { credential: issued });
+        state.expires_at = Utc::now() + Expire::Access.duration();
         let notification_id = gen::notification_id();
 
         StateStore::put(provider, &notification_id, &state, state.expires_at)
@@ -435,7 +435,6 @@ impl Context {
         // generate nonce and update token state
         let c_nonce = gen::nonce();
         let mut state = self.state.clone();
-        state.expires_at = Utc::now() + Expire::Access.duration();
 
         let Stage::Validated(mut token_state) = state.stage else {
             return Err(Error::AccessDenied("invalid access token state".into()));
-- 
2.43.0


From 643201578aa3a8197c9ebfcf70bc2b0f140725ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:13 +0000
Subject: [PATCH 66/66] fix: issue every type of a credential definition, not
 only the second

---
 vercre-issuer/src/credential.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 5dc9a4e..c17650b 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -289,11 +289,16 @@ impl Context {
         let (name, description) =
             self.configuration.display.as_ref().map_or((None, None), create_names);
 
-        VerifiableCredential::builder()
+        // every type of the definition (the base type is set by the builder)
+        let builder = types
+            .iter()
+            .skip(1)
+            .fold(VerifiableCredential::builder(), |builder, type_| builder.add_type(type_));
+
+        builder
             .add_context(Kind::String(format!("{credential_issuer}/credentials/v1")))
             // TODO: generate credential id
             .id(format!("{credential_issuer}/credentials/{credential_type}"))
-            .add_type(credential_type)
             .add_name(name)
             .add_description(description)
             .issuer(credential_issuer)
-- 
2.43.0

