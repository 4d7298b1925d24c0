From 5993e35e15d088e58f89ab6dd79f0a57bc106415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 01/64] fix: map hint on an object above infer_map_threshold
 panicked

---
 json_typegen_shared/src/inference/jsoninfer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 7ec2375..76981d5 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -106,9 +106,8 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     val_type: Box::new(inner),
                 })
             }
-            _ => {
-                panic!("Got non-object from infer_object")
-            }
+            // infer_object may itself have decided on a map, because of infer_map_threshold
+            map => Ok(map),
         }
     }
 
-- 
2.43.0


From 7e94732371e3ea01d9670ec855c13326fda866a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 02/64] fix: SQL input without a CREATE TABLE statement
 panicked

---
 json_typegen_shared/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/lib.rs b/json_typegen_shared/src/lib.rs
index 87ee91b..727e13d 100644
--- a/json_typegen_shared/src/lib.rs
+++ b/json_typegen_shared/src/lib.rs
@@ -112,8 +112,10 @@ pub fn codegen(name: &str, input: &str, mut options: Options) -> Result<String,
     let shape = match options.input_mode {
         options::InputMode::Sql => {
             let shapes = sql::sql_to_shape(input).map_err(JTError::SqlParsingError)?;
-            let (_name, shap) = shapes.get(0).unwrap();
-            shap.clone()
+            let (_name, shap) = shapes.into_iter().next().ok_or_else(|| {
+                JTError::SqlParsingError("Input contains no CREATE TABLE statement".to_string())
+            })?;
+            shap
         }
         options::InputMode::Json => infer_from_sample(&source, &options, &hints)?,
     };
-- 
2.43.0


From 5c705e685f4db65486d3f8e943671df6754d36b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 03/64] fix: deeply nested samples overflowed the stack

---
 .../src/inference/jsoninfer.rs                | 31 ++++++++++++++++---
 .../src/inference/jsoninputerr.rs             |  2 ++
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 76981d5..06d1955 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -26,14 +26,20 @@ pub fn shape_from_json<R: Read>(
         .ok_or(JsonInputErr::NoMatchForUnwrap)
 }
 
+/// How deeply nested a sample can be. The limit keeps hostile or broken input from overflowing the
+/// stack, here and in the code generation, and is the same as the default limit in serde_json
+const MAX_DEPTH: usize = 128;
+
 struct Inference<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> {
     tokens: Peekable<T>,
+    depth: usize,
 }
 
 impl<R: Read> Inference<JsonLexer<R>> {
     fn new(source: R) -> Self {
         Inference {
             tokens: JsonLexer::new(source).peekable(),
+            depth: 0,
         }
     }
 }
@@ -55,13 +61,26 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
         }
     }
 
+    fn nested<S>(
+        &mut self,
+        parse: impl FnOnce(&mut Self) -> Result<S, JsonInputErr>,
+    ) -> Result<S, JsonInputErr> {
+        if self.depth >= MAX_DEPTH {
+            return Err(JsonInputErr::NestingTooDeep);
+        }
+        self.depth += 1;
+        let result = parse(self);
+        self.depth -= 1;
+        result
+    }
+
     fn infer_shape(&mut self, options: &Options, hints: &Hints) -> Result<Shape, JsonInputErr> {
         for hint in hints.applicable.iter() {
             match hint.hint_type {
                 HintType::MapType(_) => {
                     return if let JsonToken::ObjectStart = self.next_token()? {
                         hint.used.set(true);
-                        self.infer_map(options, hints)
+                        self.nested(|parser| parser.infer_map(options, hints))
                     } else {
                         Err(JsonInputErr::InvalidTargetForHint)
                     };
@@ -86,8 +105,8 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 }
             }
             JsonToken::String(_) => Ok(Shape::StringT),
-            JsonToken::ObjectStart => self.infer_object(options, hints),
-            JsonToken::ArrayStart => self.infer_array(options, hints),
+            JsonToken::ObjectStart => self.nested(|parser| parser.infer_object(options, hints)),
+            JsonToken::ArrayStart => self.nested(|parser| parser.infer_array(options, hints)),
             JsonToken::ObjectEnd | JsonToken::ArrayEnd | JsonToken::Comma | JsonToken::Colon => {
                 Err(JsonInputErr::InvalidJson)
             }
@@ -238,7 +257,8 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     self.expect_token(JsonToken::Colon)?;
 
                     if *first_token == "-" || *first_token == key {
-                        let result = self.unwrap(rest_of_pointer, options, hints)?;
+                        let result =
+                            self.nested(|parser| parser.unwrap(rest_of_pointer, options, hints))?;
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
@@ -268,7 +288,8 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     if *first_token == "-"
                         || (first_token_is_numeric && *first_token == index.to_string())
                     {
-                        let result = self.unwrap(rest_of_pointer, options, hints)?;
+                        let result =
+                            self.nested(|parser| parser.unwrap(rest_of_pointer, options, hints))?;
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
diff --git a/json_typegen_shared/src/inference/jsoninputerr.rs b/json_typegen_shared/src/inference/jsoninputerr.rs
index 2569f12..a9e90c7 100644
--- a/json_typegen_shared/src/inference/jsoninputerr.rs
+++ b/json_typegen_shared/src/inference/jsoninputerr.rs
@@ -16,4 +16,6 @@ pub enum JsonInputErr {
     NoMatchForUnwrap,
     #[error("Hint is not valid for the matched value")]
     InvalidTargetForHint,
+    #[error("Sample is too deeply nested")]
+    NestingTooDeep,
 }
-- 
2.43.0


From 3754617133207fa39f3a38026756355e87785e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 04/64] fix: hints were applied to values that unwrap discards

---
 json_typegen_shared/src/inference/jsoninfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 06d1955..448a894 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -262,7 +262,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        let _ = self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ObjectEnd)) = self.tokens.peek() {
@@ -293,7 +293,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        let _ = self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ArrayEnd)) = self.tokens.peek() {
-- 
2.43.0


From 78317683385a2430288c9a68bcc6f1a1a3e92c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:11 +0000
Subject: [PATCH 05/64] fix: invalid JSON below an opaque type hint was ignored

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 448a894..43632ff 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -87,7 +87,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 }
                 HintType::OpaqueType(ref t) => {
                     hint.used.set(true);
-                    let _ = self.infer_shape(options, &Hints::new()); // parse and discard the actual value
+                    let _ = self.infer_shape(options, &Hints::new())?; // parse and discard the actual value
                     return Ok(Shape::Opaque(t.clone()));
                 }
                 _ => {}
-- 
2.43.0


From 3e9f5343f31a7fa616d5bc06088d5f9226ee8c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 06/64] fix: a hint for one array index was applied to every
 element from the thirteenth on

---
 json_typegen_shared/src/inference/jsoninfer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 43632ff..31cb00c 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -189,11 +189,10 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
         let mut folded = Shape::Bottom;
 
         loop {
+            let shape = self.infer_shape(options, &hints.step_index(len))?;
             if len < 12 {
-                let shape = self.infer_shape(options, &hints.step_index(len))?;
                 shapes.push(shape);
             } else {
-                let shape = self.infer_shape(options, &hints.step_array())?;
                 folded = common_shape(shape, folded);
             }
             len += 1;
-- 
2.43.0


From 85322a2630ea96180ec0f6e632e4a30e10884328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:16 +0000
Subject: [PATCH 07/64] fix: JSON pointers could not refer to keys containing /
 or ~

---
 json_typegen_shared/src/hints.rs               | 11 ++++++++++-
 json_typegen_shared/src/inference/jsoninfer.rs |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/hints.rs b/json_typegen_shared/src/hints.rs
index 745cc9b..6378718 100644
--- a/json_typegen_shared/src/hints.rs
+++ b/json_typegen_shared/src/hints.rs
@@ -42,6 +42,15 @@ pub struct Hints<'a> {
     pub applicable: Vec<&'a Hint>,
 }
 
+/// Whether a JSON pointer token refers to the given object key, taking escapes into account
+pub fn token_matches_key(token: &str, key: &str) -> bool {
+    if token.contains('~') {
+        token.replace("~1", "/").replace("~0", "~") == key
+    } else {
+        token == key
+    }
+}
+
 fn is_index(s: &str) -> bool {
     s == "-" || s.bytes().all(|b| (b'0'..=b'9').contains(&b))
 }
@@ -72,7 +81,7 @@ impl<'a> Hints<'a> {
 
     /// ([/a/b, /a/c, /d/e], "a") -> [/b, /c]
     pub fn step_field(&self, name: &str) -> Hints {
-        self.step(|first| first == "-" || first == name)
+        self.step(|first| first == "-" || token_matches_key(first, name))
     }
 
     /// [/1/b, /a/c, /-/e] -> [/b, /c, /e]
diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 31cb00c..6dd9d37 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -1,5 +1,5 @@
 use crate::Options;
-use crate::hints::{HintType, Hints};
+use crate::hints::{HintType, Hints, token_matches_key};
 use crate::inference::jsoninputerr::JsonInputErr;
 use crate::inference::jsonlex::{JsonLexer, JsonToken};
 use crate::shape::{Shape, common_shape};
@@ -255,7 +255,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
 
                     self.expect_token(JsonToken::Colon)?;
 
-                    if *first_token == "-" || *first_token == key {
+                    if *first_token == "-" || token_matches_key(first_token, &key) {
                         let result =
                             self.nested(|parser| parser.unwrap(rest_of_pointer, options, hints))?;
                         folded = optional_common_shape(folded, result);
-- 
2.43.0


From e7f9cebc074a073b0855d96f5f8acb26b594531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 08/64] fix: content after the end of the JSON sample was
 ignored

---
 json_typegen_shared/src/inference/jsoninfer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 6dd9d37..02a0192 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -21,9 +21,14 @@ pub fn shape_from_json<R: Read>(
         pointer.split('/').collect()
     };
 
-    Inference::new(read)
-        .unwrap(&pointer_tokens, options, hints)?
-        .ok_or(JsonInputErr::NoMatchForUnwrap)
+    let mut inference = Inference::new(read);
+    let shape = inference.unwrap(&pointer_tokens, options, hints)?;
+
+    match inference.tokens.next() {
+        None => shape.ok_or(JsonInputErr::NoMatchForUnwrap),
+        Some(Ok(_)) => Err(JsonInputErr::InvalidJson),
+        Some(Err(err)) => Err(err),
+    }
 }
 
 /// How deeply nested a sample can be. The limit keeps hostile or broken input from overflowing the
-- 
2.43.0


From 0bc22f613f3002b2e8687fc2b1fdebf148ef63fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 09/64] fix: unescaped control characters in strings were
 accepted

---
 json_typegen_shared/src/inference/jsonlex.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index 7067727..d27d03c 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -141,6 +141,9 @@ impl<R: Read> JsonLexer<R> {
                     }
                     _ => return Err(JsonInputErr::InvalidEscape(escaped)),
                 };
+            } else if byte < 0x20 {
+                // control characters have to be escaped
+                return Err(JsonInputErr::InvalidJson);
             } else {
                 self.buffer.push(byte)
             }
-- 
2.43.0


From 8bc5f645290cab5e0fd7e89860fd917a0bad5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 10/64] fix: malformed numbers were accepted

---
 json_typegen_shared/src/inference/jsonlex.rs | 34 ++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index d27d03c..4d7e59a 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -183,6 +183,9 @@ impl<R: Read> JsonLexer<R> {
                 _ => break,
             }
         }
+        if !is_json_number(&buffer) {
+            return Err(JsonInputErr::InvalidJson);
+        }
         // TODO: Actually parse numbers
         Ok(JsonToken::Number(
             String::from_utf8(buffer).map_err(|_err| JsonInputErr::InvalidUtf8)?,
@@ -190,6 +193,37 @@ impl<R: Read> JsonLexer<R> {
     }
 }
 
+/// -?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?
+fn is_json_number(bytes: &[u8]) -> bool {
+    // splits off any leading digits, and gives their count
+    fn digits(bytes: &[u8]) -> (usize, &[u8]) {
+        let count = bytes.iter().take_while(|b| b.is_ascii_digit()).count();
+        (count, &bytes[count..])
+    }
+
+    let bytes = bytes.strip_prefix(b"-").unwrap_or(bytes);
+    let (count, mut rest) = digits(bytes);
+    if count == 0 || (count > 1 && bytes[0] == b'0') {
+        return false;
+    }
+    if let Some(fraction) = rest.strip_prefix(b".") {
+        let (count, after) = digits(fraction);
+        if count == 0 {
+            return false;
+        }
+        rest = after;
+    }
+    if let Some((b'e' | b'E', exponent)) = rest.split_first() {
+        let exponent = match exponent.split_first() {
+            Some((b'+' | b'-', unsigned)) => unsigned,
+            _ => exponent,
+        };
+        let (count, after) = digits(exponent);
+        return count > 0 && after.is_empty();
+    }
+    rest.is_empty()
+}
+
 impl<R: Read> Iterator for JsonLexer<R> {
     type Item = Result<JsonToken, JsonInputErr>;
 
-- 
2.43.0


From c732077b3b41b22334ae417cc8482eb11be15b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:26 +0000
Subject: [PATCH 11/64] fix: numbers with an exponent or outside of the 64-bit
 range were inferred as integers

---
 json_typegen_shared/src/inference/jsoninfer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 02a0192..450de2c 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -103,10 +103,11 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
             JsonToken::True | JsonToken::False => Ok(Shape::Bool),
             JsonToken::Null => Ok(Shape::Null),
             JsonToken::Number(s) => {
-                if s.contains('.') {
-                    Ok(Shape::Floating)
-                } else {
+                // Numbers that are too big for, or can not be read as, an integer have to be floats
+                if s.parse::<i64>().is_ok() && s != "-0" {
                     Ok(Shape::Integer)
+                } else {
+                    Ok(Shape::Floating)
                 }
             }
             JsonToken::String(_) => Ok(Shape::StringT),
-- 
2.43.0


From 97ed014c5e7242cd19d8789b15ee749d930bfe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 12/64] fix: a field that is null or missing was treated as
 always present

---
 json_typegen_shared/src/shape.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index e496c11..f88c45e 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -115,7 +115,6 @@ impl Shape {
     pub(crate) fn into_optional(self) -> Self {
         use self::Shape::*;
         match self {
-            Null => Nullable(Box::new(self)),
             Any | Bottom | Optional(_) => self,
             non_nullable => Optional(Box::new(non_nullable)),
         }
-- 
2.43.0


From 0b085a243da18203cda957c29c0b2edb8d300b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 13/64] fix: a field could become nullable twice

---
 json_typegen_shared/src/shape.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index f88c45e..1707385 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -122,9 +122,8 @@ impl Shape {
     pub(crate) fn into_nullable(self) -> Self {
         use self::Shape::*;
         match self {
-            Null => Nullable(Box::new(self)),
-            Any | Bottom | Nullable(_) => self,
-            Optional(non_nullable) => Optional(Box::new(Nullable(non_nullable))),
+            Null | Any | Bottom | Nullable(_) => self,
+            Optional(inner) => Optional(Box::new(inner.into_nullable())),
             non_nullable => Nullable(Box::new(non_nullable)),
         }
     }
-- 
2.43.0


From c7e22b30751649499129302d0bd601e63f6ca26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:53 +0000
Subject: [PATCH 14/64] fix: a type with an optional field was reused where the
 field is null

---
 json_typegen_shared/src/shape.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 1707385..57e9b80 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -137,7 +137,6 @@ impl Shape {
         }
         match (self, other) {
             (_, Bottom) => true,
-            (Optional(_), Null) => true,
             (Optional(a), Optional(b)) => a.is_acceptable_substitution_for(b),
             (VecT { elem_type: e1 }, VecT { elem_type: e2 }) => {
                 e1.is_acceptable_substitution_for(e2)
-- 
2.43.0


From b866070e1fb4725677a606d6957b95802facecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:55 +0000
Subject: [PATCH 15/64] fix: properties in Zod schemas were not separated by
 commas

---
 json_typegen_shared/src/generation/zod_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 6045b9b..83fcd63 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -111,7 +111,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "{}{}{}{}: {};",
+                "{}{}{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name { "\"" } else { "" },
                 name,
-- 
2.43.0


From ab196c601b544d1253e461aef280645c539a553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:58 +0000
Subject: [PATCH 16/64] fix: precedence of nullable array elements in
 TypeScript

---
 json_typegen_shared/src/generation/typescript.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 1015214..5778184 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -75,7 +75,11 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     let singular = to_singular(path);
     let (inner, defs) = type_from_shape(ctxt, &singular, shape);
-    (format!("{}[]", inner), defs)
+    match shape {
+        // [] binds tighter than |
+        Shape::Optional(_) | Shape::Nullable(_) => (format!("({})[]", inner), defs),
+        _ => (format!("{}[]", inner), defs),
+    }
 }
 
 fn generate_map_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
-- 
2.43.0


From 9264f4148b4e6e8107271a8bc35cf2c54a5d61ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 17/64] fix: TypeScript type names could start with a digit

---
 json_typegen_shared/src/generation/typescript.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 5778184..c8e78b4 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -105,16 +105,10 @@ fn generate_tuple_type(ctxt: &mut Ctxt, path: &str, shapes: &[Shape]) -> (Ident,
 
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
     let name = name.trim();
-    let mut output_name = if let Some(c) = name.chars().next() {
-        if c.is_ascii_digit() {
-            let temp = String::from("n") + name;
-            type_case(&temp)
-        } else {
-            type_case(name)
-        }
-    } else {
-        type_case(name)
-    };
+    let mut output_name = type_case(name);
+    if output_name.starts_with(|c: char| c.is_ascii_digit()) {
+        output_name = type_case(&(String::from("n") + &output_name));
+    }
     if output_name.is_empty() {
         output_name.push_str("GeneratedType");
     }
-- 
2.43.0


From cdb07ab651f811788f1e3d4a3ca675fb315d04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:02 +0000
Subject: [PATCH 18/64] fix: malformed naming strategy annotation for
 kebab-case in Kotlin

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index ac35a2f..887c4f5 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -320,7 +320,7 @@ fn transform_annotation(ctxt: &mut Ctxt) -> String {
             jackson_naming_annotation(ctxt, "SnakeCaseStrategy")
         }
         (Some(StringTransform::KebabCase), OutputMode::KotlinJackson) => {
-            jackson_naming_annotation(ctxt, "KebabCaseStrategy::class)")
+            jackson_naming_annotation(ctxt, "KebabCaseStrategy")
         }
         _ => "".into(),
     }
-- 
2.43.0


From 76b842ce51b4e625d85faac4d4afaa6c98f3a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 19/64] fix: the CLI truncated an existing output file when
 code generation failed

---
 json_typegen_cli/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index c6b2664..3fec8b4 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -86,6 +86,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
         codegen(name, &input, options)
     };
 
+    // Don't touch the output file unless there is something to write to it
+    let code = code?;
+
     if let Some(filename) = matches.value_of("output") {
         let mut file = OpenOptions::new()
             .read(true)
@@ -94,9 +97,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
             .truncate(true)
             .open(filename)?;
 
-        file.write_all(code?.as_bytes())?;
+        file.write_all(code.as_bytes())?;
     } else {
-        print!("{}", code?);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From a906b0ee2db0390970874081cdb1c670c0605b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 20/64] fix: strings were not escaped in JSON Schema and shape
 output

---
 json_typegen_shared/src/generation/value.rs |  6 ++++--
 json_typegen_shared/src/util.rs             | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/value.rs b/json_typegen_shared/src/generation/value.rs
index 8e117bc..a9dc6de 100644
--- a/json_typegen_shared/src/generation/value.rs
+++ b/json_typegen_shared/src/generation/value.rs
@@ -1,5 +1,7 @@
 use linked_hash_map::LinkedHashMap;
 
+use crate::util::escape_string;
+
 pub enum Value {
     Null,
     Bool(bool),
@@ -15,7 +17,7 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
         Value::Null => "null".to_string(),
         Value::Bool(b) => format!("{}", b),
         Value::Str(s) => format!("\"{}\"", s),
-        Value::String(s) => format!("\"{}\"", s),
+        Value::String(s) => format!("\"{}\"", escape_string(s)),
         Value::Array(values) => {
             let mut code = "[\n".to_string();
             let len = values.len();
@@ -36,7 +38,7 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
             let len = map.len();
             for (i, (key, val)) in map.iter().enumerate() {
                 code += &"  ".repeat(indent + 1);
-                code += &format!("\"{}\": ", key);
+                code += &format!("\"{}\": ", escape_string(key));
                 code += &pretty_print_value(indent + 1, val);
                 if i != len - 1 {
                     code += ",";
diff --git a/json_typegen_shared/src/util.rs b/json_typegen_shared/src/util.rs
index 63ac86f..4a7e75b 100644
--- a/json_typegen_shared/src/util.rs
+++ b/json_typegen_shared/src/util.rs
@@ -74,6 +74,26 @@ fn lowercase_first_letter(s: &str) -> String {
     }
 }
 
+/// Escape a string for use in a double quoted literal. The escapes used are those that mean the
+/// same in JSON, JavaScript, Kotlin and Python
+pub fn escape_string(s: &str) -> String {
+    let mut escaped = String::new();
+    for c in s.chars() {
+        match c {
+            '"' => escaped.push_str("\\\""),
+            '\\' => escaped.push_str("\\\\"),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\t' => escaped.push_str("\\t"),
+            c if c.is_control() || c == '\u{2028}' || c == '\u{2029}' => {
+                escaped.push_str(&format!("\\u{:04x}", c as u32))
+            }
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 // based on hashmap! macro from maplit crate
 macro_rules! string_hashmap {
     ($($key:expr => $value:expr,)+) => { string_hashmap!($($key => $value),+) };
-- 
2.43.0


From ce8d270cde2e9d857084ad997c97de969923e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 21/64] fix: keys were not escaped in serde attributes

---
 json_typegen_shared/src/generation/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 0921a82..fc2e82e 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -252,7 +252,7 @@ fn generate_struct_type(
             };
             let mut field_code = String::new();
             if needs_rename {
-                field_code += &format!("    #[serde(rename = \"{}\")]\n", name)
+                field_code += &format!("    #[serde(rename = {:?})]\n", name)
             }
 
             let (is_collapsed, collapsed) = collapse_option_vec(ctxt, typ);
-- 
2.43.0


From 3a78574a9e60340b2c7fba36f9b7736434b6123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:40 +0000
Subject: [PATCH 22/64] fix: keys were not escaped in TypeScript and Zod output

---
 json_typegen_shared/src/generation/typescript.rs            | 4 ++--
 json_typegen_shared/src/generation/typescript_type_alias.rs | 3 ++-
 json_typegen_shared/src/generation/zod_schema.rs            | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index c8e78b4..08b9ff7 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -4,7 +4,7 @@ use std::collections::HashSet;
 use crate::options::Options;
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::type_case;
+use crate::util::{escape_string, type_case};
 
 pub struct Ctxt {
     options: Options,
@@ -196,7 +196,7 @@ fn generate_interface_type(
             format!(
                 "    {}{}{}{}: {};",
                 if escape_name { "\"" } else { "" },
-                name,
+                escape_string(name),
                 if escape_name { "\"" } else { "" },
                 if was_optional { "?" } else { "" },
                 field_type
diff --git a/json_typegen_shared/src/generation/typescript_type_alias.rs b/json_typegen_shared/src/generation/typescript_type_alias.rs
index c78bcff..1448f92 100644
--- a/json_typegen_shared/src/generation/typescript_type_alias.rs
+++ b/json_typegen_shared/src/generation/typescript_type_alias.rs
@@ -3,6 +3,7 @@ use linked_hash_map::LinkedHashMap;
 use crate::generation::typescript::{collapse_option, is_ts_identifier};
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
+use crate::util::escape_string;
 
 pub struct Ctxt {
     options: Options,
@@ -113,7 +114,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
                 "{}{}{}{}{}: {};",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name { "\"" } else { "" },
-                name,
+                escape_string(name),
                 if escape_name { "\"" } else { "" },
                 if was_optional { "?" } else { "" },
                 field_type
diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 83fcd63..fa22aa2 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -3,7 +3,7 @@ use linked_hash_map::LinkedHashMap;
 use crate::generation::typescript::{collapse_option, is_ts_identifier};
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
-use crate::util::lower_camel_case;
+use crate::util::{escape_string, lower_camel_case};
 
 pub struct Ctxt {
     options: Options,
@@ -114,7 +114,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
                 "{}{}{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name { "\"" } else { "" },
-                name,
+                escape_string(name),
                 if escape_name { "\"" } else { "" },
                 field_type
             )
-- 
2.43.0


From 025ead399bb6b2b2c503bd82bbe58ec5cb5048ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 23/64] fix: keys were not escaped in Kotlin annotations

---
 json_typegen_shared/src/generation/kotlin.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 887c4f5..e7d713f 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -5,7 +5,7 @@ use crate::OutputMode;
 use crate::options::{ImportStyle, Options, StringTransform};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::{kebab_case, lower_camel_case, snake_case, type_case};
+use crate::util::{escape_string, kebab_case, lower_camel_case, snake_case, type_case};
 
 struct Ctxt {
     options: Options,
@@ -227,13 +227,13 @@ fn generate_data_class(
                     field_code += &format!(
                         "    @{}(\"{}\")\n",
                         import(ctxt, "com.fasterxml.jackson.annotation.JsonProperty"),
-                        name
+                        escape_key(name)
                     )
                 } else if ctxt.options.output_mode == OutputMode::KotlinKotlinx {
                     field_code += &format!(
                         "    @{}(\"{}\")\n",
                         import(ctxt, "kotlinx.serialization.SerialName"),
-                        name
+                        escape_key(name)
                     )
                 }
             }
@@ -278,6 +278,11 @@ fn generate_data_class(
     (type_name, Some(code))
 }
 
+fn escape_key(name: &str) -> String {
+    // $ starts a template expression
+    escape_string(name).replace('$', "\\$")
+}
+
 fn apply_transform(ctxt: &Ctxt, field_name: &str) -> String {
     match (
         &ctxt.options.property_name_format,
-- 
2.43.0


From ccd4bde96c84ca6c5ebe90905f04a7272bd159be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 24/64] fix: keys were not escaped in Python aliases

---
 json_typegen_shared/src/generation/python.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 5b086ac..654fb33 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -4,7 +4,7 @@ use std::collections::HashSet;
 use crate::options::{ImportStyle, Options, StringTransform};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::{kebab_case, lower_camel_case, snake_case, type_case};
+use crate::util::{escape_string, kebab_case, lower_camel_case, snake_case, type_case};
 
 #[derive(PartialEq, PartialOrd, Ord, Eq, Hash, Clone, Copy)]
 enum Import {
@@ -268,7 +268,7 @@ fn generate_data_class(
                 field_code += &format!(
                     " = {}(alias=\"{}\")",
                     import(ctxt, Import::Field),
-                    transformed
+                    escape_string(&transformed)
                 )
             }
 
-- 
2.43.0


From a25c4061fdf53669140d546401808b911917212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 25/64] fix: null was not allowed for nullable values in JSON
 Schema

---
 json_typegen_shared/src/generation/json_schema.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/json_schema.rs b/json_typegen_shared/src/generation/json_schema.rs
index 6f4ad48..6279128 100644
--- a/json_typegen_shared/src/generation/json_schema.rs
+++ b/json_typegen_shared/src/generation/json_schema.rs
@@ -53,7 +53,20 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> Value {
         MapT { val_type: v } => generate_map_type(ctxt, path, v),
         Opaque(t) => Value::Object(string_hashmap! { "type" => Value::String(t.clone()) }),
         Optional(e) => type_from_shape(ctxt, path, e),
-        Nullable(e) => type_from_shape(ctxt, path, e),
+        Nullable(e) => allow_null(type_from_shape(ctxt, path, e)),
+    }
+}
+
+fn allow_null(schema: Value) -> Value {
+    match schema {
+        Value::Object(mut map) => {
+            if let Some(typ) = map.get_mut("type") {
+                let non_null = std::mem::replace(typ, Value::Null);
+                *typ = Value::Array(vec![non_null, Value::Str("null")]);
+            }
+            Value::Object(map)
+        }
+        schema => schema,
     }
 }
 
-- 
2.43.0


From 2ff90a45914aeb631fa8e2e68a20200b9e43e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:09 +0000
Subject: [PATCH 26/64] fix: use_default_for_missing_fields made nullable
 values in Rust types non-nullable

---
 json_typegen_shared/src/generation/rust.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index fc2e82e..61f4356 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -96,12 +96,9 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
             }
         }
         Nullable(e) => {
+            // A default for missing fields does not help for values that are present, but null
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                (format!("Option<{}>", inner), defs)
-            }
+            (format!("Option<{}>", inner), defs)
         }
     }
 }
-- 
2.43.0


From 81f65ccb63ff541319717a61dd1f35c049444179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:12 +0000
Subject: [PATCH 27/64] fix: generated rust types could shadow types that the
 generated code uses

---
 json_typegen_shared/src/generation/rust.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 61f4356..5f00839 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -20,7 +20,7 @@ pub type Code = String;
 pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
     let mut ctxt = Ctxt {
         options,
-        type_names: HashSet::new(),
+        type_names: RESERVED_TYPE_NAMES.iter().map(|s| s.to_string()).collect(),
         imports: HashSet::new(),
         created_structs: Vec::new(),
     };
@@ -141,6 +141,9 @@ fn field_name(name: &str, used_names: &HashSet<String>) -> Ident {
     type_or_field_name(name, used_names, "field", snake_case)
 }
 
+/// Types the generated code refers to, which generated types can not shadow
+const RESERVED_TYPE_NAMES: &[&str] = &["HashMap", "Option", "String", "Value", "Vec"];
+
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
     type_or_field_name(name, used_names, "GeneratedType", type_case)
 }
-- 
2.43.0


From ae2e90ab487285fc110d1879614c4e55a8d2498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:34 +0000
Subject: [PATCH 28/64] fix: generated Python classes could shadow names that
 the generated code uses

---
 json_typegen_shared/src/generation/python.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 654fb33..e0229b8 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -48,7 +48,7 @@ pub type Code = String;
 pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
     let mut ctxt = Ctxt {
         options,
-        type_names: HashSet::new(),
+        type_names: RESERVED_TYPE_NAMES.iter().map(|s| s.to_string()).collect(),
         imports: HashSet::new(),
         created_classes: Vec::new(),
     };
@@ -175,6 +175,9 @@ fn field_name(name: &str, used_names: &HashSet<String>) -> Ident {
     type_or_field_name(name, used_names, "field", snake_case)
 }
 
+/// Names the generated code refers to, which generated types can not shadow
+const RESERVED_TYPE_NAMES: &[&str] = &["Any", "BaseModel", "Field", "Optional"];
+
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
     type_or_field_name(name, used_names, "GeneratedType", type_case)
 }
-- 
2.43.0


From a88a63ea0c25a3812c7cc8e297bf5ad0ec507287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 29/64] fix: generated Kotlin classes could shadow types that
 the generated code uses

---
 json_typegen_shared/src/generation/kotlin.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index e7d713f..a3e6e32 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -20,7 +20,7 @@ pub type Code = String;
 pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
     let mut ctxt = Ctxt {
         options,
-        type_names: HashSet::new(),
+        type_names: RESERVED_TYPE_NAMES.iter().map(|s| s.to_string()).collect(),
         imports: HashSet::new(),
         created_classes: Vec::new(),
     };
@@ -134,6 +134,14 @@ fn field_name(name: &str, used_names: &HashSet<String>) -> Ident {
     type_or_field_name(name, used_names, "field", lower_camel_case)
 }
 
+/// Types the generated code refers to, which generated types can not shadow
+#[rustfmt::skip]
+const RESERVED_TYPE_NAMES: &[&str] = &[
+    "Any", "Boolean", "Double", "List", "Long", "Map", "Pair", "String", "Triple",
+    "JsonAnyGetter", "JsonAnySetter", "JsonNaming", "JsonProperty", "PropertyNamingStrategies",
+    "SerialName", "Serializable",
+];
+
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
     type_or_field_name(name, used_names, "GeneratedType", type_case)
 }
-- 
2.43.0


From 2efb2060bc5563f05f9674dd33d536a68107216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 30/64] fix: the Rust keywords dyn and gen were used as
 identifiers

---
 json_typegen_shared/src/generation/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 5f00839..8f1336c 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -154,7 +154,7 @@ const RUST_KEYWORDS: &[&str] = &[
     "macro", "match", "mod", "move", "mut", "offsetof", "override", "priv", "proc", "pub", "pure",
     "ref", "return", "Self", "self", "sizeof", "static", "struct", "super", "trait", "true",
     "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield", "async",
-    "await", "try",
+    "await", "try", "dyn", "gen",
 ];
 
 fn type_or_field_name(
-- 
2.43.0


From c35178743a1661bef1a0c1199f1695f2d13eb2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 31/64] fix: the Kotlin keyword typeof was used as an
 identifier

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index a3e6e32..f21f71f 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -152,7 +152,7 @@ fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
 const KOTLIN_KEYWORDS: &[&str] = &[
     "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in",
     "interface", "is", "null", "object", "package", "return", "super", "this", "throw", "true",
-    "try", "typealias", "val", "var", "when", "while",
+    "try", "typealias", "typeof", "val", "var", "when", "while",
 ];
 
 fn type_or_field_name(
-- 
2.43.0


From 086a4c173b899badca1f888c870676252e0b4327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 32/64] fix: a key could collide with the field that collects
 additional fields

---
 json_typegen_shared/src/generation/kotlin.rs | 3 +++
 json_typegen_shared/src/generation/rust.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index f21f71f..1a35435 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -221,6 +221,9 @@ fn generate_data_class(
         .push((containing_shape.clone(), type_name.clone()));
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additionalFields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 8f1336c..c994d2e 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -237,6 +237,9 @@ fn generate_struct_type(
     };
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additional_fields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
-- 
2.43.0


From 360f6faffc186107e8fed16bd40315fdb479d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 33/64] fix: error messages containing "# broke the output of
 the macro

---
 json_typegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen/src/lib.rs b/json_typegen/src/lib.rs
index 9f6306a..b62ff02 100644
--- a/json_typegen/src/lib.rs
+++ b/json_typegen/src/lib.rs
@@ -71,7 +71,7 @@ pub fn json_typegen(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
         Ok(code) => code,
         Err(e) => {
             let message = display_error_with_causes(&e);
-            format!(r##"compile_error!(r#"{}"#);"##, message)
+            format!("compile_error!({:?});", message)
         }
     }
     .parse()
-- 
2.43.0


From 19baa18d32204d2ce36cd3e6e6a3e2b6d881850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 34/64] fix: names of quoted SQL columns included the quotes

---
 json_typegen_shared/src/sql.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/sql.rs b/json_typegen_shared/src/sql.rs
index d16fa1d..d26ffb4 100644
--- a/json_typegen_shared/src/sql.rs
+++ b/json_typegen_shared/src/sql.rs
@@ -15,7 +15,7 @@ pub fn sql_to_shape(input: &str) -> Result<Vec<(String, Shape)>, String> {
                     fields: columns
                         .iter()
                         .map(|column: &ColumnDef| {
-                            (column.name.to_string(), shape_for_column(column))
+                            (column.name.value.clone(), shape_for_column(column))
                         })
                         .collect(),
                 },
-- 
2.43.0


From 6bfabef0ce858cacaec11e9fd6c4e1edc17fecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 35/64] fix: recursive Python classes were used before they
 were defined

---
 json_typegen_shared/src/generation/python.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index e0229b8..ce2387a 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -40,6 +40,7 @@ struct Ctxt {
     type_names: HashSet<String>,
     imports: HashSet<Import>,
     created_classes: Vec<(Shape, Ident)>,
+    unfinished_classes: HashSet<Ident>,
 }
 
 pub type Ident = String;
@@ -51,6 +52,7 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         type_names: RESERVED_TYPE_NAMES.iter().map(|s| s.to_string()).collect(),
         imports: HashSet::new(),
         created_classes: Vec::new(),
+        unfinished_classes: HashSet::new(),
     };
 
     if !matches!(shape, Shape::Struct { .. }) {
@@ -239,7 +241,12 @@ fn generate_data_class(
 ) -> (Ident, Option<Code>) {
     for (created_for_shape, ident) in ctxt.created_classes.iter() {
         if created_for_shape.is_acceptable_substitution_for(containing_shape) {
-            return (ident.into(), None);
+            return if ctxt.unfinished_classes.contains(ident) {
+                // The class will only be defined later, so this has to be a forward reference
+                (format!("\"{}\"", ident), None)
+            } else {
+                (ident.into(), None)
+            };
         }
     }
 
@@ -247,6 +254,7 @@ fn generate_data_class(
     ctxt.type_names.insert(type_name.clone());
     ctxt.created_classes
         .push((containing_shape.clone(), type_name.clone()));
+    ctxt.unfinished_classes.insert(type_name.clone());
 
     let mut field_names = HashSet::new();
     let mut defs = Vec::new();
@@ -279,6 +287,8 @@ fn generate_data_class(
         })
         .collect();
 
+    ctxt.unfinished_classes.remove(&type_name);
+
     let mut code = String::new();
 
     code += &format!(
-- 
2.43.0


From 48116379d930c3d213176c32602956e82769a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:16 +0000
Subject: [PATCH 36/64] fix: Python fields could hide builtins and BaseModel
 attributes

---
 json_typegen_shared/src/generation/python.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index ce2387a..c720d0f 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -173,8 +173,22 @@ fn generate_tuple_type(ctxt: &mut Ctxt, path: &str, shapes: &[Shape]) -> (Ident,
     )
 }
 
+/// Field names that would hide something the class body refers to, or an attribute of `BaseModel`
+#[rustfmt::skip]
+const RESERVED_FIELD_NAMES: &[&str] = &[
+    "bool", "dict", "float", "int", "list", "pydantic", "str", "tuple", "typing",
+    "construct", "copy", "fields", "from_orm", "json", "model_config", "parse_file", "parse_obj",
+    "parse_raw", "schema", "schema_json", "update_forward_refs", "validate",
+];
+
 fn field_name(name: &str, used_names: &HashSet<String>) -> Ident {
-    type_or_field_name(name, used_names, "field", snake_case)
+    type_or_field_name(name, used_names, "field", |name| {
+        let mut field_name = snake_case(name);
+        if RESERVED_FIELD_NAMES.contains(&&*field_name) {
+            field_name.push_str("_field");
+        }
+        field_name
+    })
 }
 
 /// Names the generated code refers to, which generated types can not shadow
-- 
2.43.0


From 3e002f7a6d66e1afda875a7cccc2f72fe3ce1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 37/64] fix: with property_name_format Python aliases were not
 the actual keys

---
 json_typegen_shared/src/generation/python.rs | 23 ++++----------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index c720d0f..4a85196 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -1,10 +1,10 @@
 use linked_hash_map::LinkedHashMap;
 use std::collections::HashSet;
 
-use crate::options::{ImportStyle, Options, StringTransform};
+use crate::options::{ImportStyle, Options};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::{escape_string, kebab_case, lower_camel_case, snake_case, type_case};
+use crate::util::{escape_string, snake_case, type_case};
 
 #[derive(PartialEq, PartialOrd, Ord, Eq, Hash, Clone, Copy)]
 enum Import {
@@ -288,12 +288,11 @@ fn generate_data_class(
             }
 
             let mut field_code = String::new();
-            let transformed = apply_transform(ctxt, &field_name, name);
-            if transformed != field_name {
+            if *name != field_name {
                 field_code += &format!(
                     " = {}(alias=\"{}\")",
                     import(ctxt, Import::Field),
-                    escape_string(&transformed)
+                    escape_string(name)
                 )
             }
 
@@ -328,20 +327,6 @@ fn generate_data_class(
     (type_name, Some(code))
 }
 
-fn apply_transform(ctxt: &Ctxt, field_name: &str, name: &str) -> String {
-    match ctxt.options.property_name_format {
-        Some(StringTransform::LowerCase) => field_name.to_ascii_lowercase(),
-        Some(StringTransform::PascalCase) => type_case(field_name),
-        Some(StringTransform::SnakeCase) => snake_case(field_name),
-        Some(StringTransform::KebabCase) => kebab_case(field_name),
-        Some(StringTransform::UpperCase) => field_name.to_ascii_uppercase(),
-        Some(StringTransform::CamelCase) => lower_camel_case(field_name),
-        Some(StringTransform::ScreamingSnakeCase) => snake_case(field_name).to_ascii_uppercase(),
-        Some(StringTransform::ScreamingKebabCase) => kebab_case(field_name).to_ascii_uppercase(),
-        None => name.to_string(),
-    }
-}
-
 #[cfg(test)]
 mod python_codegen_tests {
     use super::*;
-- 
2.43.0


From 4a4478a044a98a54ce25eb4da32c32760c1747dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:32 +0000
Subject: [PATCH 38/64] fix: a generated type could get the same name as the
 alias with the requested name

---
 json_typegen_shared/src/generation/kotlin.rs     | 2 +-
 json_typegen_shared/src/generation/python.rs     | 2 +-
 json_typegen_shared/src/generation/rust.rs       | 2 +-
 json_typegen_shared/src/generation/typescript.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 1a35435..a2c1c97 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -25,7 +25,7 @@ pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_classes: Vec::new(),
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 4a85196..2cfdf61 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -55,7 +55,7 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         unfinished_classes: HashSet::new(),
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index c994d2e..a1b9b25 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -36,7 +36,7 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
             .join(", ");
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 08b9ff7..a9504ca 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -22,7 +22,7 @@ pub fn typescript_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_interfaces: Vec::new(),
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
-- 
2.43.0


From c26e3fe413117eb021e51e83257b0277e661b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 39/64] fix: optional lists of a fixed length were not
 collapsed to lists in Rust

---
 json_typegen_shared/src/generation/rust.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index a1b9b25..cb529b1 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -191,8 +191,16 @@ fn type_or_field_name(
 fn collapse_option_vec<'a>(ctxt: &mut Ctxt, typ: &'a Shape) -> (bool, &'a Shape) {
     if !(ctxt.options.allow_option_vec || ctxt.options.use_default_for_missing_fields) {
         if let Shape::Optional(inner) = typ {
-            if let Shape::VecT { .. } = **inner {
-                return (true, &**inner);
+            match &**inner {
+                Shape::VecT { .. } => return (true, &**inner),
+                // Short arrays are represented as tuples, but most of them become lists
+                Shape::Tuple(shapes, _)
+                    if shape::fold_shapes(shapes.clone()) != Shape::Any
+                        || shapes.iter().all(|s| s == &Shape::Any) =>
+                {
+                    return (true, &**inner);
+                }
+                _ => {}
             }
         }
     }
-- 
2.43.0


From 56aaa3229e79678c2ceff9914c6a08d51de61664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 40/64] fix: a late file read could replace a newer or cleared
 file in the web worker

---
 json_typegen_web/src/lib/worker.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index 38c20ff..dfdacfe 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -4,6 +4,7 @@ import init, { run } from "json_typegen_wasm";
 import { readFileAsString } from "./file";
 
 let largeFileInput: string | undefined;
+let latestFileChange = 0;
 const postMsg: (data: WorkerMessageType) => void = postMessage;
 
 init().then(() => {
@@ -29,13 +30,18 @@ onmessage = (messageEvent) => {
       options: message.options,
     });
   } else if (message.type === WorkerMessage.LOAD_FILE) {
+    const fileChange = ++latestFileChange;
     readFileAsString(message.file).then((fileContent) => {
-      largeFileInput = fileContent;
+      // The file may have been replaced or cleared while it was being read
+      if (fileChange === latestFileChange) {
+        largeFileInput = fileContent;
+      }
       postMsg({
         type: WorkerMessage.LOAD_FILE_COMPLETE,
       });
     });
   } else if (message.type === WorkerMessage.CLEAR_FILE) {
+    latestFileChange++;
     largeFileInput = undefined;
   } else {
     console.warn("Unknown message to worker", messageEvent);
-- 
2.43.0


From 75aca871f79c6a20ff6059065d87b9b4ba9a6864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 41/64] fix: null was lost when merging nullable values with an
 opaque type

---
 json_typegen_shared/src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 57e9b80..c0cfe87 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -81,8 +81,8 @@ pub fn common_shape(a: Shape, b: Shape) -> Shape {
         (Struct { fields: f1 }, Struct { fields: f2 }) => Struct {
             fields: common_field_shapes(f1, f2),
         },
-        (Opaque(t), _) | (_, Opaque(t)) => Opaque(t),
         (a, Nullable(b)) | (Nullable(b), a) => common_shape(a, *b).into_nullable(),
+        (Opaque(t), _) | (_, Opaque(t)) => Opaque(t),
         _ => Any,
     }
 }
-- 
2.43.0


From a485723245ab71595dd491e76cd8aa2c5b4fc4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 42/64] fix: Python field names that pydantic 2 rejects as
 BaseModel members

---
 json_typegen_shared/src/generation/python.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 2cfdf61..f2e41d5 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -177,8 +177,12 @@ fn generate_tuple_type(ctxt: &mut Ctxt, path: &str, shapes: &[Shape]) -> (Ident,
 #[rustfmt::skip]
 const RESERVED_FIELD_NAMES: &[&str] = &[
     "bool", "dict", "float", "int", "list", "pydantic", "str", "tuple", "typing",
-    "construct", "copy", "fields", "from_orm", "json", "model_config", "parse_file", "parse_obj",
-    "parse_raw", "schema", "schema_json", "update_forward_refs", "validate",
+    "construct", "copy", "fields", "from_orm", "json", "parse_file", "parse_obj", "parse_raw",
+    "schema", "schema_json", "update_forward_refs", "validate",
+    "model_computed_fields", "model_config", "model_construct", "model_copy", "model_dump",
+    "model_dump_json", "model_extra", "model_fields", "model_fields_set", "model_json_schema",
+    "model_parametrized_name", "model_post_init", "model_rebuild", "model_validate",
+    "model_validate_json", "model_validate_strings",
 ];
 
 fn field_name(name: &str, used_names: &HashSet<String>) -> Ident {
-- 
2.43.0


From 03075f41ed5e800de0e3e2f61bc4d8c3d3344d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 43/64] fix: Python type names starting with a digit were
 hidden by field names

---
 json_typegen_shared/src/generation/python.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index f2e41d5..73efbd0 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -199,7 +199,15 @@ fn field_name(name: &str, used_names: &HashSet<String>) -> Ident {
 const RESERVED_TYPE_NAMES: &[&str] = &["Any", "BaseModel", "Field", "Optional"];
 
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
-    type_or_field_name(name, used_names, "GeneratedType", type_case)
+    type_or_field_name(name, used_names, "GeneratedType", |name| {
+        let type_name = type_case(name);
+        if type_name.starts_with(|c: char| c.is_ascii_digit()) {
+            // Upper case, as a field with the same name would hide it in its class
+            format!("N{}", type_name)
+        } else {
+            type_name
+        }
+    })
 }
 
 // https://docs.python.org/3/reference/lexical_analysis.html#keywords
-- 
2.43.0


From 5e5e44345ad94d0f1a183addf79a96835901e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 44/64] fix: Rust derives were imported even if nothing derives
 them

---
 json_typegen_shared/src/generation/rust.rs | 25 +++++++++++-----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index cb529b1..ca9e41a 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -25,17 +25,6 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_structs: Vec::new(),
     };
 
-    if ctxt.options.import_style != ImportStyle::QualifiedPaths {
-        ctxt.options.derives = ctxt
-            .options
-            .derives
-            .clone()
-            .split(',')
-            .map(|s| import(&mut ctxt, s.trim()))
-            .collect::<Vec<_>>()
-            .join(", ");
-    };
-
     if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
@@ -221,6 +210,18 @@ fn import(ctxt: &mut Ctxt, qualified: &str) -> String {
     }
 }
 
+fn derives(ctxt: &mut Ctxt) -> String {
+    let derives = ctxt.options.derives.clone();
+    if ctxt.options.import_style == ImportStyle::QualifiedPaths {
+        return derives;
+    }
+    derives
+        .split(',')
+        .map(|s| import(ctxt, s.trim()))
+        .collect::<Vec<_>>()
+        .join(", ")
+}
+
 fn generate_struct_type(
     ctxt: &mut Ctxt,
     path: &str,
@@ -287,7 +288,7 @@ fn generate_struct_type(
         })
         .collect();
 
-    let mut code = format!("#[derive({})]\n", ctxt.options.derives);
+    let mut code = format!("#[derive({})]\n", derives(ctxt));
 
     if ctxt.options.deny_unknown_fields {
         code += "#[serde(deny_unknown_fields)]\n";
-- 
2.43.0


From 660e7b7768a11e8036ee0348082e28cc3b8457a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 45/64] fix: report an error for anything after options given
 as a string literal

---
 json_typegen_shared/src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/parse.rs b/json_typegen_shared/src/parse.rs
index c7ac428..4ef7ec9 100644
--- a/json_typegen_shared/src/parse.rs
+++ b/json_typegen_shared/src/parse.rs
@@ -90,7 +90,12 @@ pub fn macro_input(input: &str) -> Result<MacroInput, String> {
     )?;
 
     let options = match string(input) {
-        IResult::Done(_, lit) => options_with_defaults(&lit.value, default_options)?,
+        IResult::Done(rem, lit) => {
+            if !rem.trim().is_empty() {
+                fail!("Expected no further tokens after options", rem);
+            }
+            options_with_defaults(&lit.value, default_options)?
+        }
         IResult::Error => options_with_defaults(input, default_options)?,
     };
 
-- 
2.43.0


From 696bcfd41f389a07fe21f1da0e6fe861edfcc383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 46/64] fix: treat CLI input as a macro only if it is one, not
 if a path starts with json_typegen

---
 json_typegen_cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index 3fec8b4..bb5a969 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -72,7 +72,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
         source.to_string()
     };
 
-    let code = if input.trim().starts_with("json_typegen") {
+    let code = if input.trim().starts_with("json_typegen!") {
         codegen_from_macro(&input)
     } else {
         let name = matches.value_of("name").unwrap_or("Root");
-- 
2.43.0


From 9bd572f51b80948a35752549dd61a9623ab044e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 47/64] fix: do not generate code from the text input when an
 empty file is selected

---
 json_typegen_web/src/lib/worker.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index dfdacfe..a116c4a 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -17,7 +17,7 @@ onmessage = (messageEvent) => {
   const message: WorkerMessageType = messageEvent.data;
 
   if (message.type === WorkerMessage.CODEGEN) {
-    const input = largeFileInput || message.input;
+    const input = largeFileInput ?? message.input;
     const result = run(
       message.typename,
       input,
-- 
2.43.0


From e1ffdd6d6dd7e5b2cd1fb93fe8df5aec725f5f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 48/64] fix: accept raw strings as option names and pointers

---
 json_typegen_shared/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/parse.rs b/json_typegen_shared/src/parse.rs
index 4ef7ec9..c256ca9 100644
--- a/json_typegen_shared/src/parse.rs
+++ b/json_typegen_shared/src/parse.rs
@@ -28,9 +28,9 @@ macro_rules! fail {
 
 named!(string_or_ident -> String,
     alt!(
-        ident => { |ident: syn::Ident| ident.to_string() }
-        |
         string => { |lit: syn::StrLit| lit.value }
+        |
+        ident => { |ident: syn::Ident| ident.to_string() }
     )
 );
 
-- 
2.43.0


From 825b34bb8a355457ffd9b5b15dd96c55dc862e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 49/64] fix: report CLI arguments that are not UTF-8 as an
 error instead of panicking

---
 json_typegen_cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index bb5a969..160200e 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -1,4 +1,4 @@
-use clap::{App, Arg};
+use clap::{App, AppSettings, Arg};
 use json_typegen_shared::internal_util::display_error_with_causes;
 use json_typegen_shared::{Options, OutputMode, codegen, codegen_from_macro, parse};
 use std::fs::OpenOptions;
@@ -8,6 +8,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
     let matches = App::new("json_typegen CLI")
         .version(env!("CARGO_PKG_VERSION"))
         .about("Generate Rust types from JSON samples")
+        .setting(AppSettings::StrictUtf8)
         .arg(
             Arg::with_name("input")
                 .help(concat!(
-- 
2.43.0


From 73a9209e106b533cb3e722ece73d1d17efca5701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 50/64] fix: report a failure to write to standard output as an
 error instead of panicking

---
 json_typegen_cli/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index 160200e..d42f834 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -100,7 +100,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
 
         file.write_all(code.as_bytes())?;
     } else {
-        print!("{}", code);
+        let mut stdout = io::stdout();
+        stdout.write_all(code.as_bytes())?;
+        stdout.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From bf1f41d013cf061e1a5cc637db5b28d5c59311dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 51/64] fix: report generated code that is not valid Rust as a
 compile error instead of panicking in the macro

---
 json_typegen/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/json_typegen/src/lib.rs b/json_typegen/src/lib.rs
index b62ff02..d960415 100644
--- a/json_typegen/src/lib.rs
+++ b/json_typegen/src/lib.rs
@@ -68,12 +68,13 @@ use json_typegen_shared::internal_util::display_error_with_causes;
 #[proc_macro]
 pub fn json_typegen(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
     match codegen_from_macro_input(&input.to_string()) {
-        Ok(code) => code,
-        Err(e) => {
-            let message = display_error_with_causes(&e);
-            format!("compile_error!({:?});", message)
-        }
+        Ok(code) => code
+            .parse()
+            .unwrap_or_else(|e| error(&format!("The generated code is not valid Rust: {}", e))),
+        Err(e) => error(&display_error_with_causes(&e)),
     }
-    .parse()
-    .unwrap()
+}
+
+fn error(message: &str) -> proc_macro::TokenStream {
+    format!("compile_error!({:?});", message).parse().unwrap()
 }
-- 
2.43.0


From 83c04c6fbc76894f51a580e325229b14c60d8b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:29 +0000
Subject: [PATCH 52/64] fix: do not name generated Rust types like imported
 derives

---
 json_typegen_shared/src/generation/rust.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index ca9e41a..412b6d2 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -25,6 +25,13 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_structs: Vec::new(),
     };
 
+    // what is derived may be imported by its last segment, and be more than a macro
+    for derive in ctxt.options.derives.split(',') {
+        if let Some((_, imported)) = derive.trim().rsplit_once("::") {
+            ctxt.type_names.insert(imported.to_string());
+        }
+    }
+
     if !matches!(shape, Shape::Struct { .. }) || type_name(name, &HashSet::new()) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
-- 
2.43.0


From ec0b8fdbcb6accdc7718724ac56067d5be6637dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 53/64] fix: do not request code from the web worker before its
 wasm module is loaded

---
 json_typegen_web/src/App.svelte | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index d19b1dd..ea31ad9 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -28,6 +28,7 @@
     const worker = new Worker(new URL("./lib/worker.ts", import.meta.url), {
         type: "module",
     });
+    let wasmReady = false;
     let workerReady = false;
     let queued: WorkerMessageType | undefined = undefined;
     let isLoading = false;
@@ -85,7 +86,7 @@
             isLoadingLargeFile = false;
             render();
         } else if (message.type === WorkerMessage.WASM_READY) {
-            // no action needed
+            wasmReady = true;
             console.log("Worker ready");
         } else {
             console.warn("Unknown worker message ", messageEvent);
@@ -93,8 +94,9 @@
 
         // If we got a message (any message) from the worker, it is ready
         // (we don't have any kind of queue at the worker side)
-        workerReady = true;
-        if (queued) {
+        // unless it is still loading the wasm module
+        workerReady = wasmReady;
+        if (workerReady && queued) {
             requestCodegen(queued);
             queued = undefined;
         }
-- 
2.43.0


From cba9e2464359d525124dcf0708ee00f063e75729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 54/64] fix: do not let a file that is read late replace a
 newer input on the web page

---
 json_typegen_web/src/App.svelte | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index ea31ad9..65fbd7a 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -152,7 +152,10 @@
         render();
     }
 
+    let latestInputChange = 0;
+
     const loadExample = (example: Example) => {
+        latestInputChange++;
         input = example.json;
         typeName = example.typeName;
         propertyNameFormat = example.propertyNameFormat || "";
@@ -164,6 +167,7 @@
         if (!file) {
             return;
         }
+        const inputChange = ++latestInputChange;
         filename = file.name;
         if (file.size > 500_000) {
             input = "";
@@ -177,12 +181,16 @@
             workerReady = false;
         } else {
             readFileAsString(file).then((contents: string) => {
-                input = contents;
+                // Another input may have been chosen while the file was being read
+                if (inputChange === latestInputChange) {
+                    input = contents;
+                }
             });
         }
     };
 
     const clearFile = () => {
+        latestInputChange++;
         input = "";
         largeFileMessage = null;
         isLoadingLargeFile = false;
-- 
2.43.0


From 1c1b77bbd232218a23e52b62292f7299bdd7bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 55/64] fix: generate code anew when the input file is cleared
 on the web page

---
 json_typegen_web/src/App.svelte | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index 65fbd7a..214d8ce 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -197,6 +197,7 @@
         worker.postMessage({
             type: WorkerMessage.CLEAR_FILE,
         });
+        render();
     };
 
     const formatInput = () => {
-- 
2.43.0


From cd3fe09baf74959dbe65b8f793d1d0983e877ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 56/64] fix: let examples and small files replace a large input
 file on the web page

---
 json_typegen_web/src/App.svelte | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index 214d8ce..3fc59bf 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -156,6 +156,7 @@
 
     const loadExample = (example: Example) => {
         latestInputChange++;
+        releaseLargeFile();
         input = example.json;
         typeName = example.typeName;
         propertyNameFormat = example.propertyNameFormat || "";
@@ -180,6 +181,10 @@
             });
             workerReady = false;
         } else {
+            if (largeFileMessage) {
+                releaseLargeFile();
+                render();
+            }
             readFileAsString(file).then((contents: string) => {
                 // Another input may have been chosen while the file was being read
                 if (inputChange === latestInputChange) {
@@ -189,14 +194,18 @@
         }
     };
 
-    const clearFile = () => {
-        latestInputChange++;
-        input = "";
+    const releaseLargeFile = () => {
         largeFileMessage = null;
         isLoadingLargeFile = false;
         worker.postMessage({
             type: WorkerMessage.CLEAR_FILE,
         });
+    };
+
+    const clearFile = () => {
+        latestInputChange++;
+        input = "";
+        releaseLargeFile();
         render();
     };
 
-- 
2.43.0


From 3ffec55f01873d80284c75ded96ce03e2873d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 57/64] fix: do not depend on available and unfilled storage on
 the web page

---
 json_typegen_web/src/lib/localstorage.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json_typegen_web/src/lib/localstorage.ts b/json_typegen_web/src/lib/localstorage.ts
index 99fd342..ff48058 100644
--- a/json_typegen_web/src/lib/localstorage.ts
+++ b/json_typegen_web/src/lib/localstorage.ts
@@ -14,7 +14,11 @@ type StoredParams = {
 };
 
 export function storeParams(params: StoredParams) {
-  localStorage.setItem("json_typegen_params", JSON.stringify(params));
+  try {
+    localStorage.setItem("json_typegen_params", JSON.stringify(params));
+  } catch (e) {
+    console.error(e);
+  }
 }
 
 export function restoreParams(): StoredParams {
-- 
2.43.0


From 190dc3b6964a15cc3fc7db06b0bb4baf7993d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 58/64] fix: give downloaded zod schemas a file extension

---
 json_typegen_web/src/lib/download.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_web/src/lib/download.ts b/json_typegen_web/src/lib/download.ts
index 2f851d8..75d5e66 100644
--- a/json_typegen_web/src/lib/download.ts
+++ b/json_typegen_web/src/lib/download.ts
@@ -6,6 +6,7 @@ function createFilename(typename: string, output_mode: string): string {
     "kotlin/jackson": "kt",
     "kotlin/kotlinx": "kt",
     python: "py",
+    zod: "ts",
     json_schema: "json",
     shape: "json",
   };
-- 
2.43.0


From 27b0ec37a0fda8fcf8bb84e13037ad9c2e081289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 59/64] fix: do not write Jackson annotations for additional
 properties in kotlinx code

---
 json_typegen_shared/src/generation/kotlin.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index a2c1c97..7f483a3 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -220,8 +220,11 @@ fn generate_data_class(
     ctxt.created_classes
         .push((containing_shape.clone(), type_name.clone()));
 
+    // kotlinx.serialization has no counterpart to Jackson's annotations for this
+    let collect_additional =
+        ctxt.options.collect_additional && ctxt.options.output_mode == OutputMode::KotlinJackson;
     let mut field_names = HashSet::new();
-    if ctxt.options.collect_additional {
+    if collect_additional {
         field_names.insert("additionalFields".to_string());
     }
     let mut defs = Vec::new();
@@ -272,7 +275,7 @@ fn generate_data_class(
         code += &fields.join(",\n");
         code += ",\n";
     }
-    if ctxt.options.collect_additional {
+    if collect_additional {
         code += &format!(
             "    @{}\n    @get:{}\n    val additionalFields: Map<String, Any> = mutableMapOf(),\n",
             import(ctxt, "com.fasterxml.jackson.annotation.JsonAnySetter"),
-- 
2.43.0


From a87c59afb55a562c467814d7475a087b4e7bb2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 60/64] fix: let the web page go on when a large file can not
 be read

---
 json_typegen_web/src/lib/worker.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index a116c4a..20959b3 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -31,7 +31,7 @@ onmessage = (messageEvent) => {
     });
   } else if (message.type === WorkerMessage.LOAD_FILE) {
     const fileChange = ++latestFileChange;
-    readFileAsString(message.file).then((fileContent) => {
+    const fileRead = (fileContent: string | undefined) => {
       // The file may have been replaced or cleared while it was being read
       if (fileChange === latestFileChange) {
         largeFileInput = fileContent;
@@ -39,6 +39,10 @@ onmessage = (messageEvent) => {
       postMsg({
         type: WorkerMessage.LOAD_FILE_COMPLETE,
       });
+    };
+    readFileAsString(message.file).then(fileRead, (error) => {
+      console.error(error);
+      fileRead(undefined);
     });
   } else if (message.type === WorkerMessage.CLEAR_FILE) {
     latestFileChange++;
-- 
2.43.0


From 02b05681e19fe6ab53f70d4e27ccd5db906ade9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 61/64] fix: change nothing but white space when formatting
 JSON on the web page

---
 json_typegen_web/src/App.svelte    |  3 ++-
 json_typegen_web/src/lib/format.ts | 31 ++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)
 create mode 100644 json_typegen_web/src/lib/format.ts

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index 3fc59bf..06e30dc 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -14,6 +14,7 @@
     import type { Example } from "./examples/examples";
     import { examples } from "./examples/examples";
     import { readFileAsString } from "./lib/file";
+    import { formatJson } from "./lib/format";
     import Spinner from "./components/Spinner.svelte";
     import FormField from "./components/FormField.svelte";
     import Button from "./components/Button.svelte";
@@ -211,7 +212,7 @@
 
     const formatInput = () => {
         try {
-            input = JSON.stringify(JSON.parse(input), null, 2);
+            input = formatJson(input);
         } catch (e) {
             // ignore
         }
diff --git a/json_typegen_web/src/lib/format.ts b/json_typegen_web/src/lib/format.ts
new file mode 100644
index 0000000..d4ac73f
--- /dev/null
+++ b/json_typegen_web/src/lib/format.ts
@@ -0,0 +1,31 @@
+/**
+ * Indents JSON. Unlike a round trip through JSON.parse and JSON.stringify this keeps all values as
+ * they are, e.g. 1.0, large numbers, repeated keys and the order of keys.
+ *
+ * Throws if the text is not valid JSON
+ */
+export function formatJson(json: string): string {
+  JSON.parse(json);
+
+  const tokens = json.match(/"(?:[^"\\]|\\.)*"|[{}[\],:]|[^\s{}[\],:"]+/g) ?? [];
+  let result = "";
+  let indent = "\n";
+  tokens.forEach((token, i) => {
+    if (token === "{" || token === "[") {
+      indent += "  ";
+      const isEmpty = tokens[i + 1] === "}" || tokens[i + 1] === "]";
+      result += isEmpty ? token : token + indent;
+    } else if (token === "}" || token === "]") {
+      indent = indent.slice(0, -2);
+      const isEmpty = tokens[i - 1] === "{" || tokens[i - 1] === "[";
+      result += isEmpty ? token : indent + token;
+    } else if (token === ",") {
+      result += token + indent;
+    } else if (token === ":") {
+      result += ": ";
+    } else {
+      result += token;
+    }
+  });
+  return result;
+}
-- 
2.43.0


From 7ee85d306dd7513a6e80bd33ee363666446abf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 62/64] fix: do not reuse a type whose lists are less specific
 than the inferred ones

---
 json_typegen_shared/src/shape.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index c0cfe87..054556e 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -143,6 +143,11 @@ impl Shape {
             }
             (MapT { val_type: v1 }, MapT { val_type: v2 }) => v1.is_acceptable_substitution_for(v2),
             (Tuple(a, _), Tuple(b, _)) => {
+                // Unless the elements conflict, tuples are declared as lists of what they have in common
+                let common = fold_shapes(b.clone());
+                if common != Any {
+                    return fold_shapes(a.clone()).is_acceptable_substitution_for(&common);
+                }
                 a.len() == b.len()
                     && a.iter()
                         .zip(b.iter())
-- 
2.43.0


From 88cbb5140496281334d5e86d269d331b960470b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 63/64] fix: declare one type for equal structures whose arrays
 have other lengths or whose nullable parts are in another order

---
 json_typegen_shared/src/shape.rs | 37 +++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 054556e..7ff83d4 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -111,6 +111,16 @@ fn common_field_shapes(
     f1
 }
 
+/// The element type of a tuple that is declared as a list
+fn list_element(shapes: &[Shape]) -> Option<Shape> {
+    let folded = fold_shapes(shapes.to_vec());
+    if folded == Shape::Any && shapes.iter().any(|s| s != &Shape::Any) {
+        None
+    } else {
+        Some(folded)
+    }
+}
+
 impl Shape {
     pub(crate) fn into_optional(self) -> Self {
         use self::Shape::*;
@@ -138,21 +148,28 @@ impl Shape {
         match (self, other) {
             (_, Bottom) => true,
             (Optional(a), Optional(b)) => a.is_acceptable_substitution_for(b),
+            (Nullable(a), Nullable(b)) => a.is_acceptable_substitution_for(b),
             (VecT { elem_type: e1 }, VecT { elem_type: e2 }) => {
                 e1.is_acceptable_substitution_for(e2)
             }
             (MapT { val_type: v1 }, MapT { val_type: v2 }) => v1.is_acceptable_substitution_for(v2),
-            (Tuple(a, _), Tuple(b, _)) => {
-                // Unless the elements conflict, tuples are declared as lists of what they have in common
-                let common = fold_shapes(b.clone());
-                if common != Any {
-                    return fold_shapes(a.clone()).is_acceptable_substitution_for(&common);
-                }
-                a.len() == b.len()
-                    && a.iter()
-                        .zip(b.iter())
-                        .all(|(e1, e2)| e1.is_acceptable_substitution_for(e2))
+            // Unless their elements conflict, tuples are declared as lists
+            (Tuple(a, _), VecT { elem_type: e2 }) => {
+                list_element(a).is_some_and(|e1| e1.is_acceptable_substitution_for(e2))
+            }
+            (VecT { elem_type: e1 }, Tuple(b, _)) => {
+                list_element(b).is_some_and(|e2| e1.is_acceptable_substitution_for(&e2))
             }
+            (Tuple(a, _), Tuple(b, _)) => match (list_element(a), list_element(b)) {
+                (Some(e1), Some(e2)) => e1.is_acceptable_substitution_for(&e2),
+                (None, None) => {
+                    a.len() == b.len()
+                        && a.iter()
+                            .zip(b.iter())
+                            .all(|(e1, e2)| e1.is_acceptable_substitution_for(e2))
+                }
+                _ => false,
+            },
             (Struct { fields: f1 }, Struct { fields: f2 }) => {
                 // Require all fields to be the same (but ignore order)
                 // Could maybe be more lenient, e.g. for missing optional fields
-- 
2.43.0


From ce6a66aade128b1e6b1d0a97ba02a0efa4767504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 64/64] fix: keep the progress display within the width of the
 terminal

---
 json_typegen_shared/src/progress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/progress.rs b/json_typegen_shared/src/progress.rs
index 0b4d2eb..52e97cc 100644
--- a/json_typegen_shared/src/progress.rs
+++ b/json_typegen_shared/src/progress.rs
@@ -15,7 +15,7 @@ impl FileWithProgress {
         Ok(FileWithProgress {
             file,
             progress: ProgressBar::new(len).with_style(ProgressStyle::default_bar().template(
-                "[{elapsed_precise}] {bar:40.cyan/blue} {bytes}/{total_bytes} Processing file...",
+                "[{elapsed_precise}] {wide_bar:.cyan/blue} {bytes}/{total_bytes} Processing file...",
             )),
         })
     }
-- 
2.43.0

