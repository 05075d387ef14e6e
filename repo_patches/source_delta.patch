From 4947f2342f29fa938b286a0b30f2923ca8901e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 01/39] fix: indent list-item blocks by the configured
 indentation

---
 crates/toon/src/encode/encoders.rs |   8 +--
 crates/toon/src/ser/stream.rs      | 103 ++++++++++++++++++++---------
 2 files changed, 74 insertions(+), 37 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index c24d44c..c74c6aa 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -605,7 +605,7 @@ fn encode_list_item_object(
             );
             w.line_list_item(indent, &header);
 
-            // Rows at depth+2 (indent + 4 relative to list item indent)
+            // Rows at depth+2 relative to the list item
             for item in items {
                 let inner_obj = item.as_object().unwrap();
                 let cells: Vec<String> = keys
@@ -616,7 +616,7 @@ fn encode_list_item_object(
                     })
                     .collect();
                 let row = join_with_delim(&cells, dch);
-                w.line(indent + 4, &row);
+                w.line(indent + 2 * opts.indent, &row);
             }
 
             // Other fields at depth+1 (indent + opts.indent)
@@ -681,7 +681,7 @@ fn encode_list_item_object(
                     ),
                 );
                 for inner_item in items {
-                    encode_list_item(inner_item, w, opts, indent + 4)?;
+                    encode_list_item(inner_item, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
@@ -689,7 +689,7 @@ fn encode_list_item_object(
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 4)?;
+                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index a173101..9f7fefb 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -776,7 +776,7 @@ fn encode_list_item_json(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at depth+2
                     for item in items {
                         let inner_obj = item.as_object().unwrap();
                         let cells: Vec<String> = keys
@@ -787,7 +787,7 @@ fn encode_list_item_json(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -821,8 +821,13 @@ fn encode_list_item_json(
                             }
                             Value::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                crate::encode::encoders::encode_value(v, w, opts, indent + 4)
-                                    .map_err(|e| SerError::custom(e.to_string()))?;
+                                crate::encode::encoders::encode_value(
+                                    v,
+                                    w,
+                                    opts,
+                                    indent + 2 * opts.indent,
+                                )
+                                .map_err(|e| SerError::custom(e.to_string()))?;
                             }
                         }
                     }
@@ -884,7 +889,7 @@ fn encode_list_item_json(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_json(inner, w, opts, indent + 4)?;
+                            encode_list_item_json(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -894,25 +899,42 @@ fn encode_list_item_json(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                Value::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                Value::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
+                                Value::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                Value::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
+                                Value::Number(n) => {
+                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
                                 }
-                                Value::Number(n) => w.line_kv(indent + 4, &key_fmt, &n.to_string()),
                                 Value::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 Value::Array(arr) => {
-                                    encode_keyed_array_json(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_json(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 Value::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    crate::encode::encoders::encode_value(v, w, opts, indent + 6)
-                                        .map_err(|e| SerError::custom(e.to_string()))?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    crate::encode::encoders::encode_value(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )
+                                    .map_err(|e| SerError::custom(e.to_string()))?;
                                 }
                             }
                         }
@@ -941,7 +963,7 @@ fn encode_list_item_json(
                     }
                     Value::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        crate::encode::encoders::encode_value(v, w, opts, indent + 4)
+                        crate::encode::encoders::encode_value(v, w, opts, indent + 2 * opts.indent)
                             .map_err(|e| SerError::custom(e.to_string()))?;
                     }
                 }
@@ -1119,7 +1141,7 @@ fn encode_list_item_alloc(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at depth+2
                     for item in items {
                         let obj = match item {
                             IValue::Object(p) => p,
@@ -1133,7 +1155,7 @@ fn encode_list_item_alloc(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -1167,7 +1189,7 @@ fn encode_list_item_alloc(
                             }
                             IValue::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                                encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                             }
                         }
                     }
@@ -1229,7 +1251,7 @@ fn encode_list_item_alloc(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_alloc(inner, w, opts, indent + 4)?;
+                            encode_list_item_alloc(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -1239,26 +1261,41 @@ fn encode_list_item_alloc(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                IValue::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                IValue::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
-                                }
+                                IValue::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                IValue::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
                                 IValue::Number(n) => {
-                                    w.line_kv(indent + 4, &key_fmt, &n.to_string())
+                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
                                 }
                                 IValue::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 IValue::Array(arr) => {
-                                    encode_keyed_array_alloc(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_alloc(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 IValue::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    encode_internal_value_alloc(v, w, opts, indent + 6)?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    encode_internal_value_alloc(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )?;
                                 }
                             }
                         }
@@ -1287,7 +1324,7 @@ fn encode_list_item_alloc(
                     }
                     IValue::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                        encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                     }
                 }
             }
-- 
2.43.0


From e8bdd2da43af25f91c76b1462d0fbc074febb651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 02/39] fix: write floats in canonical form on the value-based
 paths

---
 crates/toon/src/encode/encoders.rs   | 15 ++++++++------
 crates/toon/src/encode/primitives.rs |  9 ++++++++
 crates/toon/src/ser/stream.rs        | 31 +++++++++++++++++++---------
 crates/toon/src/ser/value_builder.rs |  2 +-
 4 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index c74c6aa..508f43b 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -29,7 +29,7 @@ pub fn encode_value(
     match value {
         Value::Null => w.line(indent, primitives::format_null()),
         Value::Bool(b) => w.line(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line(indent, &n.to_string()),
+        Value::Number(n) => w.line(indent, &primitives::format_number(n)),
         Value::String(s) => {
             let fs = primitives::format_string(s, opts.delimiter);
             w.line(indent, &fs)
@@ -137,7 +137,7 @@ fn encode_object_field_with_context(
     match value {
         Value::Null => w.line_kv(indent, &key_fmt, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, &key_fmt, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, &key_fmt, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, &key_fmt, &primitives::format_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             &key_fmt,
@@ -327,7 +327,7 @@ fn encode_folded_value(
     match value {
         Value::Null => w.line_kv(indent, folded_key, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, folded_key, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, folded_key, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, folded_key, &primitives::format_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             folded_key,
@@ -513,7 +513,7 @@ fn encode_list_item(item: &Value, w: &mut LineWriter, opts: &Options, indent: us
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(inner) => {
             // Array of arrays: - [M]: v1,v2 or - [M]: with nested
@@ -637,7 +637,10 @@ fn encode_list_item_object(
             indent,
             &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
         ),
-        Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+        Value::Number(n) => w.line(
+            indent,
+            &format!("- {}: {}", first_key_fmt, primitives::format_number(n)),
+        ),
         Value::String(s) => {
             let v = primitives::format_string(s, opts.delimiter);
             w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -707,7 +710,7 @@ fn format_primitive_value(v: &Value, delim: crate::options::Delimiter) -> String
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
diff --git a/crates/toon/src/encode/primitives.rs b/crates/toon/src/encode/primitives.rs
index f613b46..4ecda0c 100644
--- a/crates/toon/src/encode/primitives.rs
+++ b/crates/toon/src/encode/primitives.rs
@@ -201,3 +201,12 @@ pub fn format_null() -> &'static str {
 pub fn format_f64(f: f64) -> String {
     format_canonical_f64(f)
 }
+
+/// Format a JSON number in canonical TOON form
+#[cfg(feature = "json")]
+pub fn format_number(n: &serde_json::Number) -> String {
+    match n.as_f64() {
+        Some(f) if n.is_f64() => format_f64(f),
+        _ => n.to_string(),
+    }
+}
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 9f7fefb..e632d84 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -702,7 +702,7 @@ fn format_primitive_value_json(v: &Value, delim: crate::options::Delimiter) -> S
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
@@ -718,7 +718,7 @@ fn encode_list_item_json(
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(items) => {
             let len = items.len();
@@ -802,9 +802,11 @@ fn encode_list_item_json(
                                 &key_fmt,
                                 primitives::format_bool(*b),
                             ),
-                            Value::Number(n) => {
-                                w.line_kv(indent + opts.indent, &key_fmt, &n.to_string())
-                            }
+                            Value::Number(n) => w.line_kv(
+                                indent + opts.indent,
+                                &key_fmt,
+                                &primitives::format_number(n),
+                            ),
                             Value::String(s) => w.line_kv(
                                 indent + opts.indent,
                                 &key_fmt,
@@ -845,7 +847,10 @@ fn encode_list_item_json(
                     indent,
                     &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
                 ),
-                Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+                Value::Number(n) => w.line(
+                    indent,
+                    &format!("- {}: {}", first_key_fmt, primitives::format_number(n)),
+                ),
                 Value::String(s) => {
                     let v = primitives::format_string(s, opts.delimiter);
                     w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -909,9 +914,11 @@ fn encode_list_item_json(
                                     &key_fmt,
                                     primitives::format_bool(*b),
                                 ),
-                                Value::Number(n) => {
-                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
-                                }
+                                Value::Number(n) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    &primitives::format_number(n),
+                                ),
                                 Value::String(s) => w.line_kv(
                                     indent + 2 * opts.indent,
                                     &key_fmt,
@@ -952,7 +959,11 @@ fn encode_list_item_json(
                     Value::Bool(b) => {
                         w.line_kv(indent + opts.indent, &key_fmt, primitives::format_bool(*b))
                     }
-                    Value::Number(n) => w.line_kv(indent + opts.indent, &key_fmt, &n.to_string()),
+                    Value::Number(n) => w.line_kv(
+                        indent + opts.indent,
+                        &key_fmt,
+                        &primitives::format_number(n),
+                    ),
                     Value::String(s) => w.line_kv(
                         indent + opts.indent,
                         &key_fmt,
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 32e4475..afc77fa 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -264,7 +264,7 @@ impl SerializeMap for MapSerializer {
         let v = key.serialize(&mut ser)?;
         let s = match v {
             Value::String(s) => s,
-            Value::Number(n) => n.to_string(),
+            Value::Number(n) => crate::encode::primitives::format_number(&n),
             Value::Bool(b) => {
                 if b {
                     "true".into()
-- 
2.43.0


From 355affc21da57ef5ca2be2039f6fb0d848df7be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 03/39] fix: write non-finite floats as null in map values and
 keys

---
 crates/toon/src/ser/stream.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index e632d84..b1a4631 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1587,12 +1587,8 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
         if v.is_finite() {
             self.out = Some(primitives::format_f64(v));
-        } else if v.is_nan() {
-            self.out = Some(primitives::escape_and_quote("NaN"));
-        } else if v.is_sign_positive() {
-            self.out = Some(primitives::escape_and_quote("Infinity"));
         } else {
-            self.out = Some(primitives::escape_and_quote("-Infinity"));
+            self.out = Some(primitives::format_null().to_string());
         }
         Ok(())
     }
@@ -1749,11 +1745,14 @@ impl Serializer for &mut KeySerializer {
         Ok(())
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v as f64));
-        Ok(())
+        self.serialize_f64(v as f64)
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v));
+        self.out = Some(if v.is_finite() {
+            primitives::format_f64(v)
+        } else {
+            primitives::format_null().to_string()
+        });
         Ok(())
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From db7ab042e51fb809d295b89c57bb45d5dbc08aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 04/39] fix: encode arrays of empty objects as lists, not as
 column-less tables

---
 crates/toon/src/encode/encoders.rs | 2 +-
 crates/toon/src/ser/stream.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 508f43b..c874a50 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -724,7 +724,7 @@ pub fn is_tabular_array(arr: &[Value]) -> Option<Vec<String>> {
     let mut keys: Option<Vec<String>> = None;
     for v in arr {
         let obj = match v {
-            Value::Object(m) => m,
+            Value::Object(m) if !m.is_empty() => m,
             _ => return None,
         };
         let kset: Vec<String> = obj.keys().cloned().collect();
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index b1a4631..bcfa9ba 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1436,7 +1436,7 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
     let mut keys: Option<Vec<String>> = None;
     for v in arr {
         let obj = match v {
-            IValue::Object(pairs) => pairs,
+            IValue::Object(pairs) if !pairs.is_empty() => pairs,
             _ => return None,
         };
         let mut kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
-- 
2.43.0


From 1f72b035709512bd9dc232e5aba5873341d32c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 05/39] fix: report errors raised while serializing a value
 instead of writing null

---
 crates/toon/src/ser/mod.rs                 |  3 +-
 crates/toon/src/ser/stream.rs              | 63 ++++++++++++++--------
 crates/toon/src/ser/value_builder.rs       |  9 ++--
 crates/toon/src/ser/value_builder_alloc.rs | 24 ++++-----
 4 files changed, 61 insertions(+), 38 deletions(-)

diff --git a/crates/toon/src/ser/mod.rs b/crates/toon/src/ser/mod.rs
index a8f1be0..ada284e 100644
--- a/crates/toon/src/ser/mod.rs
+++ b/crates/toon/src/ser/mod.rs
@@ -18,7 +18,8 @@ mod value_builder_alloc;
 // Non-streaming encoding via serde_json::Value is only available with "json"
 #[cfg(all(feature = "serde", feature = "json"))]
 pub fn to_string<T: Serialize>(value: &T, options: &Options) -> Result<String> {
-    let v = value_builder::to_value(value, options);
+    let v = value_builder::to_value(value, options)
+        .map_err(|e| crate::error::Error::Message(e.to_string()))?;
     crate::encode::encode_value_to_string(&v, options)
 }
 
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index bcfa9ba..b3f169a 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -35,6 +35,17 @@ pub fn to_string_streaming<T: Serialize>(value: &T, options: &Options) -> crate:
 #[derive(Debug)]
 struct SerError {
     msg: String,
+    // Raised by ScalarSerializer itself, as opposed to an error of the value being serialized
+    non_scalar: bool,
+}
+
+impl SerError {
+    fn non_scalar() -> Self {
+        SerError {
+            msg: String::from("non-scalar"),
+            non_scalar: true,
+        }
+    }
 }
 
 impl core::fmt::Display for SerError {
@@ -46,6 +57,7 @@ impl serde::ser::Error for SerError {
     fn custom<T: core::fmt::Display>(t: T) -> Self {
         SerError {
             msg: format!("{}", t),
+            non_scalar: false,
         }
     }
 }
@@ -285,7 +297,8 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+        let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+            .map_err(|e| SerError::custom(e.to_string()))?;
         self.items.push(val);
         Ok(())
     }
@@ -411,7 +424,8 @@ impl<'a, 'de> SerializeSeq for SeqSerAlloc<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+            .map_err(|e| SerError::custom(e.to_string()))?;
         self.items.push(v);
         Ok(())
     }
@@ -550,7 +564,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // When key folding is enabled, buffer entries for collision detection
         #[cfg(feature = "json")]
         if self.parent.opts.key_folding == crate::options::KeyFolding::Safe {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(|e| SerError::custom(e.to_string()))?;
             if self.buffered.is_none() {
                 self.buffered = Some(Vec::new());
             }
@@ -562,16 +577,21 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         let key_fmt = primitives::format_key(&key);
 
         // Try scalar first
-        if let Ok(sv) = try_scalar_to_string(value, self.parent.opts) {
-            self.parent.w.line_kv(self.parent.indent, &key_fmt, &sv);
-            self.entry_count += 1;
-            return Ok(());
+        match try_scalar_to_string(value, self.parent.opts) {
+            Ok(sv) => {
+                self.parent.w.line_kv(self.parent.indent, &key_fmt, &sv);
+                self.entry_count += 1;
+                return Ok(());
+            }
+            Err(e) if e.non_scalar => {}
+            Err(e) => return Err(e),
         }
 
         // Try to serialize to Value to detect arrays
         #[cfg(feature = "json")]
         {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(|e| SerError::custom(e.to_string()))?;
             if let Value::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_json(
@@ -599,7 +619,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
 
         #[cfg(not(feature = "json"))]
         {
-            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+                .map_err(|e| SerError::custom(e.to_string()))?;
             if let IValue::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_alloc(
@@ -1524,7 +1545,7 @@ fn try_scalar_to_string<T: ?Sized + Serialize>(
 ) -> Result<String, SerError> {
     let mut s = ScalarSerializer { out: None, opts };
     match value.serialize(&mut s) {
-        Ok(()) => s.out.ok_or_else(|| SerError::custom("no scalar")),
+        Ok(()) => s.out.ok_or_else(SerError::non_scalar),
         Err(e) => Err(e),
     }
 }
@@ -1604,14 +1625,14 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
         Ok(())
     }
     fn serialize_bytes(self, _v: &[u8]) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        Err(SerError::non_scalar())
     }
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
         self.out = Some(primitives::format_null().to_string());
         Ok(())
     }
     fn serialize_some<T: ?Sized + Serialize>(self, _value: &T) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        Err(SerError::non_scalar())
     }
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
         self.out = Some(primitives::format_null().to_string());
@@ -1633,7 +1654,7 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
         _name: &'static str,
         _value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        Err(SerError::non_scalar())
     }
     fn serialize_newtype_variant<T: ?Sized + Serialize>(
         self,
@@ -1642,20 +1663,20 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
         _variant: &'static str,
         _value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        Err(SerError::non_scalar())
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        Err(SerError::non_scalar())
     }
     fn serialize_tuple(self, _len: usize) -> Result<Self::SerializeTuple, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        Err(SerError::non_scalar())
     }
     fn serialize_tuple_struct(
         self,
         _name: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleStruct, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        Err(SerError::non_scalar())
     }
     fn serialize_tuple_variant(
         self,
@@ -1664,17 +1685,17 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
         _variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        Err(SerError::non_scalar())
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        Err(SerError::non_scalar())
     }
     fn serialize_struct(
         self,
         _name: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStruct, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        Err(SerError::non_scalar())
     }
     fn serialize_struct_variant(
         self,
@@ -1683,7 +1704,7 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
         _variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        Err(SerError::non_scalar())
     }
 }
 
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index afc77fa..eb24642 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -30,9 +30,12 @@ use serde_json::{Map, Number, Value};
 
 use crate::options::Options;
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(
+    value: &T,
+    _options: &Options,
+) -> Result<Value, serde_json::Error> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
@@ -273,7 +276,7 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => other.to_string(),
+            _ => return Err(Error::custom("invalid key")),
         };
         self.next_key = Some(s);
         Ok(())
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 443942a..698f396 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -11,23 +11,27 @@ use serde::ser::*;
 use crate::options::Options;
 use crate::value::{Number, Value};
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Result<Value, BuildError> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
 
 #[derive(Debug)]
-pub struct BuildError;
+pub struct BuildError {
+    msg: String,
+}
 impl core::fmt::Display for BuildError {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        f.write_str("ser error")
+        f.write_str(&self.msg)
     }
 }
 impl serde::ser::Error for BuildError {
-    fn custom<T: core::fmt::Display>(_t: T) -> Self {
-        BuildError
+    fn custom<T: core::fmt::Display>(t: T) -> Self {
+        BuildError {
+            msg: format!("{}", t),
+        }
     }
 }
 impl core::error::Error for BuildError {}
@@ -264,13 +268,7 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => format!(
-                "{}",
-                match other {
-                    Value::String(s) => s,
-                    _ => String::new(),
-                }
-            ),
+            _ => return Err(Error::custom("invalid key")),
         };
         self.next_key = Some(s);
         Ok(())
-- 
2.43.0


From 2a47ea6f8d25e9a3f5c952e9676856e48c999378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 06/39] fix: emit struct fields when key folding is on

---
 crates/toon/src/ser/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index b3f169a..55e7896 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -683,7 +683,7 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeMap::end(self)
     }
 }
 
-- 
2.43.0


From 26fdd4dd56835da262b948818604818820508a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 07/39] fix: accept newtype and optional map keys when
 streaming

---
 crates/toon/src/ser/stream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 55e7896..500f713 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1791,8 +1791,8 @@ impl Serializer for &mut KeySerializer {
         self.out = Some("null".into());
         Ok(())
     }
-    fn serialize_some<T: ?Sized + Serialize>(self, _value: &T) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
+        value.serialize(self)
     }
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
         self.out = Some("null".into());
@@ -1812,9 +1812,9 @@ impl Serializer for &mut KeySerializer {
     fn serialize_newtype_struct<T: ?Sized + Serialize>(
         self,
         _name: &'static str,
-        _value: &T,
+        value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+        value.serialize(self)
     }
     fn serialize_newtype_variant<T: ?Sized + Serialize>(
         self,
-- 
2.43.0


From af00691bc17a6f2e86985b559d0c3d20b765fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 08/39] fix: encode enum variants as objects keyed by the
 variant name

---
 crates/toon/src/ser/stream.rs              | 123 +++++++++++----------
 crates/toon/src/ser/value_builder.rs       |  46 ++++++--
 crates/toon/src/ser/value_builder_alloc.rs |  45 ++++++--
 3 files changed, 133 insertions(+), 81 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 500f713..df4d800 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -6,9 +6,18 @@ use serde_json::Value;
 
 use crate::encode::{primitives, writer::LineWriter};
 use crate::options::Options;
+#[cfg(feature = "json")]
+use crate::ser::value_builder;
+#[cfg(not(feature = "json"))]
+use crate::ser::value_builder_alloc as value_builder;
 #[cfg(not(feature = "json"))]
 use crate::value::Value as IValue;
 
+#[cfg(not(feature = "json"))]
+type AnyValue = IValue;
+#[cfg(feature = "json")]
+type AnyValue = Value;
+
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
@@ -70,16 +79,6 @@ struct StreamingSerializer<'a> {
     indent: usize,
 }
 
-impl<'a> StreamingSerializer<'a> {
-    fn with_indent<'b>(&'b mut self, indent: usize) -> StreamingSerializer<'b> {
-        StreamingSerializer {
-            w: self.w,
-            opts: self.opts,
-            indent,
-        }
-    }
-}
-
 impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     type Ok = ();
     type Error = SerError;
@@ -99,14 +98,11 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     #[cfg(not(feature = "json"))]
     type SerializeTupleStruct = SeqSerAlloc<'a, 'de>;
 
-    #[cfg(feature = "json")]
-    type SerializeTupleVariant = SeqSer<'a, 'de>;
-    #[cfg(not(feature = "json"))]
-    type SerializeTupleVariant = SeqSerAlloc<'a, 'de>;
+    type SerializeTupleVariant = VariantSer<'a, 'de, value_builder::TupleVariantSerializer>;
 
     type SerializeMap = MapSer<'a, 'de>;
     type SerializeStruct = MapSer<'a, 'de>;
-    type SerializeStructVariant = MapSer<'a, 'de>;
+    type SerializeStructVariant = VariantSer<'a, 'de, value_builder::StructVariantSerializer>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
         self.w.line(self.indent, primitives::format_bool(v));
@@ -206,12 +202,9 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        let mut child = self.with_indent(self.indent + self.opts.indent);
-        value.serialize(&mut child)
+        let mut map = self.serialize_map(Some(1))?;
+        SerializeMap::serialize_entry(&mut map, variant, value)?;
+        SerializeMap::end(map)
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         #[cfg(feature = "json")]
@@ -246,7 +239,10 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        self.serialize_tuple_struct(variant, len)
+        Ok(VariantSer {
+            parent: self,
+            builder: value_builder::TupleVariantSerializer::new(variant, len),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSer {
@@ -271,16 +267,9 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        Ok(MapSer {
+        Ok(VariantSer {
             parent: self,
-            next_key: None,
-            entry_count: 0,
-            #[cfg(feature = "json")]
-            buffered: None,
+            builder: value_builder::StructVariantSerializer::new(variant),
         })
     }
 }
@@ -399,19 +388,6 @@ impl<'a, 'de> SerializeTupleStruct for SeqSer<'a, 'de> {
     }
 }
 
-#[cfg(feature = "json")]
-impl<'a, 'de> SerializeTupleVariant for SeqSer<'a, 'de> {
-    type Ok = ();
-    type Error = SerError;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
-    }
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeSeq::end(self)
-    }
-}
-
 #[cfg(not(feature = "json"))]
 struct SeqSerAlloc<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
@@ -527,18 +503,6 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
     }
 }
 
-#[cfg(not(feature = "json"))]
-impl<'a, 'de> SerializeTupleVariant for SeqSerAlloc<'a, 'de> {
-    type Ok = ();
-    type Error = SerError;
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
-    }
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
-    }
-}
-
 struct MapSer<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
     next_key: Option<String>,
@@ -687,7 +651,29 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 }
 
-impl<'a, 'de> SerializeStructVariant for MapSer<'a, 'de> {
+/// A struct or tuple variant: an object whose only key is the variant name
+struct VariantSer<'a, 'de, B> {
+    parent: &'a mut StreamingSerializer<'de>,
+    builder: B,
+}
+
+impl<'a, 'de, B> VariantSer<'a, 'de, B> {
+    fn write(parent: &mut StreamingSerializer<'_>, value: AnyValue) -> Result<(), SerError> {
+        #[cfg(feature = "json")]
+        {
+            crate::encode::encoders::encode_value(&value, parent.w, parent.opts, parent.indent)
+                .map_err(|e| SerError::custom(e.to_string()))
+        }
+        #[cfg(not(feature = "json"))]
+        {
+            encode_internal_value_alloc(&value, parent.w, parent.opts, parent.indent)
+        }
+    }
+}
+
+impl<'a, 'de> SerializeStructVariant
+    for VariantSer<'a, 'de, value_builder::StructVariantSerializer>
+{
     type Ok = ();
     type Error = SerError;
 
@@ -696,11 +682,30 @@ impl<'a, 'de> SerializeStructVariant for MapSer<'a, 'de> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        SerializeStruct::serialize_field(self, key, value)
+        SerializeStructVariant::serialize_field(&mut self.builder, key, value)
+            .map_err(|e| SerError::custom(e.to_string()))
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeStruct::end(self)
+        let value = SerializeStructVariant::end(self.builder)
+            .map_err(|e| SerError::custom(e.to_string()))?;
+        Self::write(self.parent, value)
+    }
+}
+
+impl<'a, 'de> SerializeTupleVariant for VariantSer<'a, 'de, value_builder::TupleVariantSerializer> {
+    type Ok = ();
+    type Error = SerError;
+
+    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
+        SerializeTupleVariant::serialize_field(&mut self.builder, value)
+            .map_err(|e| SerError::custom(e.to_string()))
+    }
+
+    fn end(self) -> Result<Self::Ok, Self::Error> {
+        let value = SerializeTupleVariant::end(self.builder)
+            .map_err(|e| SerError::custom(e.to_string()))?;
+        Self::write(self.parent, value)
     }
 }
 
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index eb24642..df9a33d 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -3,6 +3,15 @@ pub struct StructVariantSerializer {
     name: String,
 }
 
+impl StructVariantSerializer {
+    pub fn new(variant: &'static str) -> Self {
+        Self {
+            map: Map::new(),
+            name: variant.to_string(),
+        }
+    }
+}
+
 impl SerializeStructVariant for StructVariantSerializer {
     type Ok = Value;
     type Error = serde_json::Error;
@@ -46,7 +55,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -163,10 +172,10 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
-        _len: usize,
+        variant: &'static str,
+        len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer::new(variant, len))
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -191,10 +200,7 @@ impl Serializer for &mut ValueSerializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Ok(StructVariantSerializer {
-            map: Map::new(),
-            name: variant.to_string(),
-        })
+        Ok(StructVariantSerializer::new(variant))
     }
 }
 
@@ -241,15 +247,33 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    elems: Vec<Value>,
+    name: String,
+}
+
+impl TupleVariantSerializer {
+    pub fn new(variant: &'static str, len: usize) -> Self {
+        Self {
+            elems: Vec::with_capacity(len),
+            name: variant.to_string(),
+        }
+    }
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = serde_json::Error;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        let mut ser = ValueSerializer;
+        self.elems.push(value.serialize(&mut ser)?);
+        Ok(())
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let mut m = Map::new();
+        m.insert(self.name, Value::Array(self.elems));
+        Ok(Value::Object(m))
     }
 }
 
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 698f396..22cfcef 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -2,6 +2,7 @@
 use alloc::{
     format,
     string::{String, ToString},
+    vec,
     vec::Vec,
 };
 
@@ -42,7 +43,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -155,10 +156,10 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
-        _len: usize,
+        variant: &'static str,
+        len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer::new(variant, len))
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -183,10 +184,7 @@ impl Serializer for &mut ValueSerializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Ok(StructVariantSerializer {
-            map: Vec::new(),
-            name: variant.to_string(),
-        })
+        Ok(StructVariantSerializer::new(variant))
     }
 }
 
@@ -233,15 +231,31 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    elems: Vec<Value>,
+    name: String,
+}
+
+impl TupleVariantSerializer {
+    pub fn new(variant: &'static str, len: usize) -> Self {
+        Self {
+            elems: Vec::with_capacity(len),
+            name: variant.to_string(),
+        }
+    }
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = BuildError;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        let mut ser = ValueSerializer;
+        self.elems.push(value.serialize(&mut ser)?);
+        Ok(())
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        Ok(Value::Object(vec![(self.name, Value::Array(self.elems))]))
     }
 }
 
@@ -310,6 +324,15 @@ pub struct StructVariantSerializer {
     name: String,
 }
 
+impl StructVariantSerializer {
+    pub fn new(variant: &'static str) -> Self {
+        Self {
+            map: Vec::new(),
+            name: variant.to_string(),
+        }
+    }
+}
+
 impl SerializeStructVariant for StructVariantSerializer {
     type Ok = Value;
     type Error = BuildError;
-- 
2.43.0


From a880e4fc1fe4f2be1ac2016feff3ec550fc9f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 09/39] fix: emit tuples when serde_json is not available

---
 crates/toon/src/ser/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index df4d800..6998a81 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -487,7 +487,7 @@ impl<'a, 'de> SerializeTuple for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -499,7 +499,7 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
-- 
2.43.0


From 0f41e828a4e71beee10e44d1194603b89ee9a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:52 +0000
Subject: [PATCH 10/39] fix: write array headers and keys the same way without
 serde_json

---
 crates/toon/src/ser/stream.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 6998a81..d8c29cb 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1465,13 +1465,18 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
             IValue::Object(pairs) if !pairs.is_empty() => pairs,
             _ => return None,
         };
-        let mut kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
-        kset.sort();
+        let kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
         if let Some(ref ks) = keys {
-            if *ks != kset {
+            // Check if keys match (order-insensitive comparison)
+            let mut kset_sorted = kset.clone();
+            kset_sorted.sort();
+            let mut ks_sorted = ks.clone();
+            ks_sorted.sort();
+            if ks_sorted != kset_sorted {
                 return None;
             }
         } else {
+            // Use the key order from the first object
             keys = Some(kset);
         }
         for (_, vv) in obj.iter() {
@@ -1504,27 +1509,14 @@ fn encode_internal_value_alloc(
             w.line(indent, &primitives::format_string(s, opts.delimiter));
         }
         IValue::Array(items) => {
-            for item in items {
-                if item.is_primitive() {
-                    match item {
-                        IValue::Null => w.line_list_item(indent, primitives::format_null()),
-                        IValue::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_list_item(indent, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_list_item(indent, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
-                    }
-                } else {
-                    w.line(indent, "-");
-                    encode_internal_value_alloc(item, w, opts, indent + opts.indent)?;
-                }
-            }
+            encode_keyed_array_alloc("", items, w, opts, indent)?;
         }
         IValue::Object(pairs) => {
             for (k, val) in pairs {
-                let key = primitives::format_string(k, opts.delimiter);
-                if val.is_primitive() {
+                let key = primitives::format_key(k);
+                if let IValue::Array(items) = val {
+                    encode_keyed_array_alloc(&key, items, w, opts, indent)?;
+                } else if val.is_primitive() {
                     match val {
                         IValue::Null => w.line_kv(indent, &key, primitives::format_null()),
                         IValue::Bool(b) => w.line_kv(indent, &key, primitives::format_bool(*b)),
-- 
2.43.0


From ec341e3fb595af6e41930c509ebeb6f3c9455ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 11/39] fix: fold keys in list items consistently and never
 onto a sibling key

---
 crates/toon/src/encode/encoders.rs | 43 +++++++++++++++++++-----------
 crates/toon/src/ser/stream.rs      |  5 ++--
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index c874a50..999b4ad 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -42,8 +42,9 @@ pub fn encode_value(
                 // Empty object: just key: with nothing following
                 // (when nested, the parent emits "key:" and this produces no additional lines)
             } else {
+                let sibling_keys: Vec<String> = obj.keys().cloned().collect();
                 for (k, v) in obj {
-                    encode_object_field_internal(k, v, w, opts, indent)?;
+                    encode_object_field_with_siblings(k, v, w, opts, indent, &sibling_keys)?;
                 }
             }
         }
@@ -51,17 +52,6 @@ pub fn encode_value(
     Ok(())
 }
 
-/// Encode an object field (key-value pair) - internal version without sibling context
-fn encode_object_field_internal(
-    key: &str,
-    value: &Value,
-    w: &mut LineWriter,
-    opts: &Options,
-    indent: usize,
-) -> Result<()> {
-    encode_object_field_with_context(key, value, w, opts, indent, None)
-}
-
 /// Encode an object field (key-value pair) - public API for streaming serializer
 pub fn encode_object_field(
     key: &str,
@@ -509,7 +499,12 @@ fn encode_array(items: &[Value], w: &mut LineWriter, opts: &Options, indent: usi
 }
 
 /// Encode a list item (- prefix)
-fn encode_list_item(item: &Value, w: &mut LineWriter, opts: &Options, indent: usize) -> Result<()> {
+pub(crate) fn encode_list_item(
+    item: &Value,
+    w: &mut LineWriter,
+    opts: &Options,
+    indent: usize,
+) -> Result<()> {
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
@@ -587,6 +582,7 @@ fn encode_list_item_object(
         return Ok(());
     }
 
+    let sibling_keys: Vec<String> = obj.keys().cloned().collect();
     let mut iter = obj.iter();
     let (first_key, first_value) = iter.next().unwrap();
     let first_key_fmt = primitives::format_key(first_key);
@@ -621,7 +617,14 @@ fn encode_list_item_object(
 
             // Other fields at depth+1 (indent + opts.indent)
             for (k, v) in iter {
-                encode_object_field(k, v, w, opts, indent + opts.indent)?;
+                encode_object_field_with_siblings(
+                    k,
+                    v,
+                    w,
+                    opts,
+                    indent + opts.indent,
+                    &sibling_keys,
+                )?;
             }
             return Ok(());
         }
@@ -691,8 +694,16 @@ fn encode_list_item_object(
         Value::Object(inner_obj) => {
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
+                let inner_keys: Vec<String> = inner_obj.keys().cloned().collect();
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
+                    encode_object_field_with_siblings(
+                        k,
+                        v,
+                        w,
+                        opts,
+                        indent + 2 * opts.indent,
+                        &inner_keys,
+                    )?;
                 }
             }
         }
@@ -700,7 +711,7 @@ fn encode_list_item_object(
 
     // Remaining fields at depth+1 (indent + opts.indent)
     for (k, v) in iter {
-        encode_object_field(k, v, w, opts, indent + opts.indent)?;
+        encode_object_field_with_siblings(k, v, w, opts, indent + opts.indent, &sibling_keys)?;
     }
     Ok(())
 }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index d8c29cb..94aac9d 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -350,12 +350,13 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
                 &primitives::format_expanded_array_header(len, delim),
             );
             for item in &self.items {
-                encode_list_item_json(
+                crate::encode::encoders::encode_list_item(
                     item,
                     self.parent.w,
                     self.parent.opts,
                     self.parent.indent + self.parent.opts.indent,
-                )?;
+                )
+                .map_err(|e| SerError::custom(e.to_string()))?;
             }
             Ok(())
         }
-- 
2.43.0


From d8f70dde7d6db0a10c8ba5f18cbc118e42796b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 12/39] fix: do not clamp decoded floats to the integer range

---
 crates/toon/src/decode/parser.rs | 40 ++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index abd9ee3..d7ade44 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -119,33 +119,24 @@ impl<'a> Parser<'a> {
         }
         match classify_numeric_hint(s) {
             Some(NumHint::Float) => {
-                if let Ok(f) = s.parse::<f64>() {
-                    // Normalize integer-valued floats to integers
-                    // Use f % 1.0 instead of f.fract() for no_std compatibility
-                    if f.is_finite() && f % 1.0 == 0.0 {
-                        if f >= 0.0 {
-                            return Value::Number(Number::U64(f as u64));
-                        } else {
-                            return Value::Number(Number::I64(f as i64));
-                        }
-                    }
-                    return Value::Number(Number::F64(f));
+                if let Some(n) = s.parse::<f64>().ok().and_then(number_from_f64) {
+                    return Value::Number(n);
                 }
             }
             Some(NumHint::IntSigned) => {
                 if let Ok(i) = s.parse::<i64>() {
                     return Value::Number(Number::I64(i));
                 }
-                if let Ok(f) = s.parse::<f64>() {
-                    return Value::Number(Number::F64(f));
+                if let Some(n) = s.parse::<f64>().ok().and_then(number_from_f64) {
+                    return Value::Number(n);
                 }
             }
             Some(NumHint::IntUnsigned) => {
                 if let Ok(u) = s.parse::<u64>() {
                     return Value::Number(Number::U64(u));
                 }
-                if let Ok(f) = s.parse::<f64>() {
-                    return Value::Number(Number::F64(f));
+                if let Some(n) = s.parse::<f64>().ok().and_then(number_from_f64) {
+                    return Value::Number(n);
                 }
             }
             None => {}
@@ -1840,6 +1831,25 @@ fn try_unescape_json_string(s: &str) -> Result<String, StringParseError> {
     Ok(out)
 }
 
+/// Convert a parsed float to a number, keeping integral values that fit an integer as integers.
+/// Returns None for values beyond the range of f64.
+fn number_from_f64(f: f64) -> Option<Number> {
+    const TWO_POW_63: f64 = 9_223_372_036_854_775_808.0;
+    if !f.is_finite() {
+        return None;
+    }
+    // Use f % 1.0 instead of f.fract() for no_std compatibility
+    if f % 1.0 == 0.0 {
+        if (0.0..2.0 * TWO_POW_63).contains(&f) {
+            return Some(Number::U64(f as u64));
+        }
+        if (-TWO_POW_63..0.0).contains(&f) {
+            return Some(Number::I64(f as i64));
+        }
+    }
+    Some(Number::F64(f))
+}
+
 #[derive(Copy, Clone)]
 enum NumHint {
     IntSigned,
-- 
2.43.0


From 65736b217ec347c1a0b2036c38f2e06c8baf3881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 13/39] fix: keep quoted dotted keys verbatim when path
 expansion is off

---
 crates/toon/src/de/mod.rs        |  2 +-
 crates/toon/src/decode/parser.rs | 47 +++++++++++++++++++++++++-------
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 587d738..97dbbcb 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -174,7 +174,7 @@ fn from_str_via_internal_value<T: DeserializeOwned>(s: &str, options: &Options)
             });
         }
     }
-    let mut v = crate::decode::parser::parse_to_internal_value_from_lines(lines, options.strict)?;
+    let mut v = crate::decode::parser::parse_lines_with_options(lines, options)?;
 
     // Apply path expansion if enabled
     if options.expand_paths == crate::options::ExpandPaths::Safe {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index d7ade44..9d956fa 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -14,6 +14,8 @@ pub struct Parser<'a> {
     lines: Vec<ParsedLine<'a>>,
     idx: usize,
     strict: bool,
+    // Mark quoted keys for path expansion, which must keep them verbatim
+    mark_quoted_keys: bool,
     error: Option<crate::error::Error>,
 }
 
@@ -23,6 +25,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict: false,
+            mark_quoted_keys: false,
             error: None,
         }
     }
@@ -32,6 +35,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict,
+            mark_quoted_keys: false,
             error: None,
         }
     }
@@ -41,6 +45,7 @@ impl<'a> Parser<'a> {
             lines,
             idx: 0,
             strict,
+            mark_quoted_keys: false,
             error: None,
         }
     }
@@ -152,15 +157,7 @@ impl<'a> Parser<'a> {
         if k.starts_with('"') {
             match try_unescape_json_string(k) {
                 Ok(st) => {
-                    // If this quoted key contains a dot, mark it to prevent path expansion
-                    // by prefixing with a zero-width space (U+200B)
-                    if st.contains('.') {
-                        let mut marked = String::with_capacity(st.len() + 3);
-                        marked.push('\u{200B}');
-                        marked.push_str(&st);
-                        return marked;
-                    }
-                    return st;
+                    return self.mark_key(st, true);
                 }
                 Err(e) if self.error.is_none() => {
                     self.error = Some(crate::error::Error::Syntax {
@@ -177,7 +174,21 @@ impl<'a> Parser<'a> {
                 Err(_) => return String::new(),
             }
         }
-        k.to_string()
+        self.mark_key(k.to_string(), false)
+    }
+
+    /// If a quoted key contains a dot, mark it to prevent path expansion by prefixing it with a
+    /// zero-width space (U+200B). Keys that start with one themselves are marked as well, so
+    /// that exactly the mark is stripped afterwards.
+    fn mark_key(&self, key: String, quoted: bool) -> String {
+        let needs_mark = key.starts_with('\u{200B}') || (quoted && key.contains('.'));
+        if !self.mark_quoted_keys || !needs_mark {
+            return key;
+        }
+        let mut marked = String::with_capacity(key.len() + 3);
+        marked.push('\u{200B}');
+        marked.push_str(&key);
+        marked
     }
 
     fn parse_array(&mut self, indent: usize) -> Value {
@@ -1741,6 +1752,22 @@ pub fn parse_to_internal_value_from_lines<'a>(
     }
 }
 
+/// Parse scanned lines as configured by the decoding options. With path expansion on, the
+/// keys still carry their quoting marks and the result must go through `expand_paths`.
+pub(crate) fn parse_lines_with_options(
+    lines: Vec<ParsedLine<'_>>,
+    options: &crate::options::Options,
+) -> Result<Value, crate::error::Error> {
+    let mut p = Parser::from_lines(lines, options.strict);
+    p.mark_quoted_keys = options.expand_paths == crate::options::ExpandPaths::Safe;
+    let v = p.parse_document();
+    if let Some(err) = p.error {
+        Err(err)
+    } else {
+        Ok(v)
+    }
+}
+
 pub fn parse_to_value_with_strict(input: &str, strict: bool) -> Result<Value, crate::error::Error> {
     let mut p = Parser::from_input_with_strict(input, strict);
     let v = p.parse_document();
-- 
2.43.0


From dde7c1483cff400bc851ddac5e1ab91abfe8e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 14/39] fix: place nested blocks by the configured indentation
 and the parent line

---
 crates/toon/src/decode/parser.rs | 96 ++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 43 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 9d956fa..2624daf 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -14,6 +14,8 @@ pub struct Parser<'a> {
     lines: Vec<ParsedLine<'a>>,
     idx: usize,
     strict: bool,
+    // Number of spaces per nesting level
+    indent_size: usize,
     // Mark quoted keys for path expansion, which must keep them verbatim
     mark_quoted_keys: bool,
     error: Option<crate::error::Error>,
@@ -25,6 +27,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict: false,
+            indent_size: 2,
             mark_quoted_keys: false,
             error: None,
         }
@@ -35,6 +38,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict,
+            indent_size: 2,
             mark_quoted_keys: false,
             error: None,
         }
@@ -45,6 +49,7 @@ impl<'a> Parser<'a> {
             lines,
             idx: 0,
             strict,
+            indent_size: 2,
             mark_quoted_keys: false,
             error: None,
         }
@@ -68,6 +73,26 @@ impl<'a> Parser<'a> {
         self.lines.get(self.idx)
     }
 
+    /// Indentation of the block below a line at `parent`: that of the next non-blank line if it
+    /// is deeper (supports non-multiple indentation in non-strict mode), else one level.
+    fn child_indent(&self, parent: usize) -> usize {
+        self.lines[self.idx.min(self.lines.len())..]
+            .iter()
+            .find(|l| !matches!(l.kind, LineKind::Blank))
+            .map(|l| l.indent)
+            .filter(|&indent| indent > parent)
+            .unwrap_or(parent + self.indent_size)
+    }
+
+    /// Like `child_indent`, but exactly one level in strict mode
+    fn body_indent(&self, parent: usize) -> usize {
+        if self.strict {
+            parent + self.indent_size
+        } else {
+            self.child_indent(parent)
+        }
+    }
+
     fn next(&mut self) -> Option<&ParsedLine<'a>> {
         let i = self.idx;
         self.idx += 1;
@@ -242,11 +267,11 @@ impl<'a> Parser<'a> {
                         // If header has a key, this is a keyed array as first field of list-item object
                         if let Some(ref key) = header.key {
                             let key_parsed = self.parse_key_token(key);
-                            let child_indent = indent + 2;
                             let mut map: Vec<(String, Value)> = Vec::new();
-                            let v = self.parse_keyed_array_value(&header);
+                            let v = self.parse_keyed_array_value(&header, indent);
                             map.push((key_parsed, v));
                             // Parse any additional fields at child indent
+                            let child_indent = self.body_indent(indent);
                             if let Value::Object(mut rest) = self.parse_object(child_indent) {
                                 map.append(&mut rest);
                             }
@@ -256,7 +281,7 @@ impl<'a> Parser<'a> {
                         // No key - this is an inline array like "- [N]{fields}:"
                         if let Some(ref fields) = header.fields {
                             let header_line_no = self.idx; // Already consumed the header
-                            let row_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                            let row_indent = self.child_indent(indent);
                             let fields_refs: Vec<&str> =
                                 fields.iter().map(|s| s.as_str()).collect();
                             arr.push(self.parse_tabular_rows(
@@ -268,42 +293,27 @@ impl<'a> Parser<'a> {
                             ));
                             continue;
                         }
-                        if let Some(ref inline) = header.inline_values {
-                            if !inline.is_empty() {
-                                let values = split_delim_aware(inline, header.delimiter);
-                                arr.push(Value::Array(
-                                    values
-                                        .into_iter()
-                                        .map(|v| self.parse_scalar_token(v))
-                                        .collect(),
-                                ));
-                                continue;
-                            }
-                        }
-                        // Empty array: [0]: produces []
-                        if header.length == 0 {
-                            arr.push(Value::Array(Vec::new()));
-                            continue;
-                        }
-                        // Expanded array header: parse nested list items at child indent
-                        let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
-                        arr.push(self.parse_array(child_indent));
+                        // Inline values, or nested list items at child indent
+                        arr.push(self.parse_keyed_array_value(&header, indent));
                         continue;
                     }
                 }
                 // 2) Support object-as-list-item with first field on the hyphen line: "- key: value"
                 if let Some((kraw, vraw)) = split_kv_quote_aware(vs) {
                     let key = self.parse_key_token(kraw);
-                    let child_indent = indent + 2;
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
-                        // Value on following indented lines
-                        let v = self.parse_node(child_indent);
+                        // Value on following lines, indented deeper than the sibling fields
+                        let v = match self.parse_node(indent + self.indent_size + 1) {
+                            Value::Null => Value::Object(Vec::new()),
+                            v => v,
+                        };
                         map.push((key, v));
                     } else {
                         map.push((key, self.parse_scalar_token(vraw)));
                     }
                     // Parse any additional fields at child indent and merge
+                    let child_indent = self.body_indent(indent);
                     if let Value::Object(mut rest) = self.parse_object(child_indent) {
                         map.append(&mut rest);
                     }
@@ -314,8 +324,7 @@ impl<'a> Parser<'a> {
                 arr.push(self.parse_scalar_token(vs));
             } else {
                 // Bare "-" list item - check if there are children
-                let child_indent = indent + 2;
-                let child_val = self.parse_node(child_indent);
+                let child_val = self.parse_node(indent + 1);
                 // If parse_node returns Null (no children), this is an empty object
                 if matches!(child_val, Value::Null) {
                     arr.push(Value::Object(Vec::new()));
@@ -344,7 +353,7 @@ impl<'a> Parser<'a> {
                                         .as_ref()
                                         .map(|k| self.parse_key_token(k))
                                         .unwrap_or_default();
-                                    let v = self.parse_keyed_array_value(&header);
+                                    let v = self.parse_keyed_array_value(&header, indent);
                                     map.push((k, v));
                                     continue;
                                 }
@@ -380,7 +389,7 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent);
                         map.push((k, v));
                         continue;
                     }
@@ -399,14 +408,13 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent);
                         map.push((k, v));
                         continue;
                     }
                     self.next();
                     let k = self.parse_key_token(kref);
-                    // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
-                    let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                    let child_indent = self.child_indent(indent);
                     let mut handled = false;
                     if let Some(nl) = self.peek() {
                         if nl.indent == child_indent && nl.indent > indent {
@@ -799,7 +807,7 @@ impl<'a> Parser<'a> {
                                         header.length,
                                         header.delimiter,
                                         &fields_refs,
-                                        indent + 2,
+                                        indent + self.indent_size,
                                         header_line_no,
                                     );
                                 }
@@ -929,13 +937,13 @@ impl<'a> Parser<'a> {
         self.next(); // Consume header line
 
         if let Some(ref fields) = header.fields {
-            // Tabular array - rows at indent 2
+            // Tabular array - rows one level deep
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
                 header.delimiter,
                 &fields_refs,
-                2,
+                self.body_indent(0),
                 line_no,
             );
         }
@@ -964,12 +972,12 @@ impl<'a> Parser<'a> {
             }
         }
 
-        // Expanded array with list items at indent 2
-        self.parse_array_with_length_check(2, header.length, line_no)
+        // Expanded array with list items one level deep
+        self.parse_array_with_length_check(self.body_indent(0), header.length, line_no)
     }
 
-    /// Parse the value for a keyed array header
-    fn parse_keyed_array_value(&mut self, header: &ArrayHeader) -> Value {
+    /// Parse the value for a keyed array header on a line at `indent`
+    fn parse_keyed_array_value(&mut self, header: &ArrayHeader, indent: usize) -> Value {
         let header_line_no = self.idx; // Header was already consumed
 
         // In strict mode, check for delimiter mismatch between bracket and brace
@@ -982,8 +990,7 @@ impl<'a> Parser<'a> {
 
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
-            // Get current indent to determine row indent
-            let row_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+            let row_indent = self.child_indent(indent);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
@@ -1019,7 +1026,7 @@ impl<'a> Parser<'a> {
         }
 
         // Otherwise, parse list items at child indent
-        let child_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+        let child_indent = self.child_indent(indent);
         self.parse_array_with_length_check(child_indent, header.length, header_line_no)
     }
 
@@ -1759,6 +1766,9 @@ pub(crate) fn parse_lines_with_options(
     options: &crate::options::Options,
 ) -> Result<Value, crate::error::Error> {
     let mut p = Parser::from_lines(lines, options.strict);
+    if options.indent > 0 {
+        p.indent_size = options.indent;
+    }
     p.mark_quoted_keys = options.expand_paths == crate::options::ExpandPaths::Safe;
     let v = p.parse_document();
     if let Some(err) = p.error {
-- 
2.43.0


From 51af970904c39f80877db23ff230f49af3774d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 15/39] fix: do not panic on a non-ASCII table delimiter

---
 crates/toon/src/decode/parser.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 2624daf..eedd231 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -580,10 +580,7 @@ impl<'a> Parser<'a> {
                             if nl.indent > indent {
                                 if let LineKind::Scalar(s) = &nl.kind {
                                     // Only error if it's a plain scalar, not a header line
-                                    if !s.starts_with('@')
-                                        && !s.starts_with('[')
-                                        && self.error.is_none()
-                                    {
+                                    if !s.starts_with('[') && self.error.is_none() {
                                         self.error = Some(crate::error::Error::Syntax {
                                             line: self.idx + 1,
                                             message: "missing colon in key-value context"
@@ -1181,8 +1178,10 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
-    let rest = &s[2..];
-    Some((dch, trim_ascii_start(rest)))
+    if !dch.is_ascii() {
+        return None;
+    }
+    Some((dch, trim_ascii_start(it.as_str())))
 }
 
 /// Parsed array header per spec v3.0
-- 
2.43.0


From 21069441890a828a7dd158b164a3df368a8cc6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 16/39] fix: decode a document that is a single string starting
 with '@'

---
 crates/toon/src/decode/parser.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index eedd231..9f0d35c 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -93,6 +93,14 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Whether only blank lines follow the current line
+    fn is_last_line(&self) -> bool {
+        self.lines
+            .iter()
+            .skip(self.idx + 1)
+            .all(|l| matches!(l.kind, LineKind::Blank))
+    }
+
     fn next(&mut self) -> Option<&ParsedLine<'a>> {
         let i = self.idx;
         self.idx += 1;
@@ -908,6 +916,17 @@ impl<'a> Parser<'a> {
         }
 
         let indent = self.peek().unwrap().indent;
+
+        // A lone line is never a table header, even when it starts with '@'
+        let lone_scalar = match &self.peek().unwrap().kind {
+            LineKind::Scalar(s) if self.is_last_line() => Some(*s),
+            _ => None,
+        };
+        if let Some(s) = lone_scalar {
+            self.next();
+            return self.parse_scalar_token(s);
+        }
+
         let result = self.parse_node(indent);
 
         // In strict mode, check for multiple root-level scalars
-- 
2.43.0


From 19ba4c09542687f8ec7fc6357dcfe2e7377a6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 17/39] fix: reject strict documents with lines that belong to
 nothing

---
 crates/toon/src/decode/parser.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 9f0d35c..70af380 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -866,6 +866,23 @@ impl<'a> Parser<'a> {
     }
 
     pub fn parse_document(&mut self) -> Value {
+        let result = self.parse_root();
+
+        // In strict mode, every line must belong to the document
+        if self.strict && self.error.is_none() {
+            self.skip_blanks();
+            if self.peek().is_some() {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: self.idx + 1,
+                    message: "line does not belong to the preceding structure".to_string(),
+                });
+            }
+        }
+
+        result
+    }
+
+    fn parse_root(&mut self) -> Value {
         self.skip_blanks();
         if self.peek().is_none() {
             // Empty document represents an empty object (root documents are implicitly objects)
-- 
2.43.0


From a385a8f5d63a09ea81455b8596708cfb5bf0403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 18/39] fix: reject blank lines anywhere inside a list in
 strict mode

---
 crates/toon/src/decode/parser.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 70af380..624a259 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -227,6 +227,7 @@ impl<'a> Parser<'a> {
     fn parse_array(&mut self, indent: usize) -> Value {
         let mut arr = Vec::new();
         let mut inside_array = false;
+        let first_line = self.idx;
         loop {
             // In strict mode, error on blank lines inside arrays (only if next non-blank is still part of this array)
             if self.strict && inside_array {
@@ -341,6 +342,19 @@ impl<'a> Parser<'a> {
                 }
             }
         }
+        // Items may span several lines; no blank may hide among those either
+        if self.strict && self.error.is_none() {
+            let consumed = &self.lines[first_line..self.idx.min(self.lines.len())];
+            let is_blank = |l: &ParsedLine| matches!(l.kind, LineKind::Blank);
+            let start = consumed.iter().position(|l| !is_blank(l)).unwrap_or(0);
+            let end = consumed.iter().rposition(|l| !is_blank(l)).unwrap_or(0);
+            if let Some(pos) = (start..end).find(|&i| is_blank(&consumed[i])) {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: first_line + pos + 1,
+                    message: "blank line inside array".to_string(),
+                });
+            }
+        }
         Value::Array(arr)
     }
 
-- 
2.43.0


From a6a159d852161388ff9bbdf0556f8227210eef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 19/39] fix: reject text after the closing quote of a string

---
 crates/toon/src/decode/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 624a259..fe5e1b2 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1910,6 +1910,9 @@ fn try_unescape_json_string(s: &str) -> Result<String, StringParseError> {
                 }
                 Some(_) => return Err(StringParseError::InvalidEscape),
             }
+        } else if ch == '"' {
+            // The string ended before the token did
+            return Err(StringParseError::Unterminated);
         } else {
             out.push(ch);
         }
-- 
2.43.0


From e2660badce7fc4d6b66b70967038868030521a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 20/39] fix: accept foreign delimiters inside a cell when the
 row width matches

---
 crates/toon/src/decode/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index fe5e1b2..47bd75c 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1148,8 +1148,13 @@ impl<'a> Parser<'a> {
             let row_line_no = self.idx + 1;
             self.next();
 
+            let cells = split_delim_aware(row_text, delimiter);
+
             // In strict mode, check if row uses a different delimiter than declared
-            if self.strict && self.error.is_none() && check_delimiter_mismatch(row_text, delimiter)
+            if self.strict
+                && self.error.is_none()
+                && cells.len() != expected_cells
+                && check_delimiter_mismatch(row_text, delimiter)
             {
                 self.error = Some(crate::error::Error::Syntax {
                     line: row_line_no,
@@ -1159,8 +1164,6 @@ impl<'a> Parser<'a> {
                 });
             }
 
-            let cells = split_delim_aware(row_text, delimiter);
-
             // Validate cell count matches header field count
             if cells.len() != expected_cells && self.error.is_none() {
                 self.error = Some(crate::error::Error::Syntax {
-- 
2.43.0


From 392d62303268a4ede433b9e7a1a2abe65fa8c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 21/39] fix: do not take brackets inside a value for an array
 header

---
 crates/toon/src/decode/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 47bd75c..158dada 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1257,6 +1257,10 @@ fn parse_array_header(s: &str) -> Option<ArrayHeader> {
 
     // Key is everything before the bracket (may be empty for root arrays)
     let key_part = trim_ascii(&s[..bracket_start]);
+    // A colon before the bracket ends the key: the bracket belongs to the value
+    if split_kv_quote_aware(key_part).is_some() {
+        return None;
+    }
     let key = if key_part.is_empty() {
         None
     } else {
-- 
2.43.0


From b1dc2456473cf9548ebd6511ab77617d2ccdd461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 22/39] fix: limit nesting depth so that hostile input cannot
 exhaust the stack

---
 crates/toon/src/decode/mod.rs         |  4 ++++
 crates/toon/src/decode/parser.rs      | 30 +++++++++++++++++++++++++++
 crates/toon/src/decode/path_expand.rs | 16 +++++++++++---
 3 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/decode/mod.rs b/crates/toon/src/decode/mod.rs
index 677de7d..974e09f 100644
--- a/crates/toon/src/decode/mod.rs
+++ b/crates/toon/src/decode/mod.rs
@@ -4,3 +4,7 @@ pub mod parser;
 pub mod path_expand;
 pub mod scanner;
 pub mod validation;
+
+/// Maximum number of nested arrays and objects in a document, so that hostile input cannot
+/// exhaust the stack
+pub(crate) const MAX_DEPTH: usize = 256;
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 158dada..79f8483 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -18,6 +18,8 @@ pub struct Parser<'a> {
     indent_size: usize,
     // Mark quoted keys for path expansion, which must keep them verbatim
     mark_quoted_keys: bool,
+    // Number of arrays and objects currently open
+    depth: usize,
     error: Option<crate::error::Error>,
 }
 
@@ -29,6 +31,7 @@ impl<'a> Parser<'a> {
             strict: false,
             indent_size: 2,
             mark_quoted_keys: false,
+            depth: 0,
             error: None,
         }
     }
@@ -40,6 +43,7 @@ impl<'a> Parser<'a> {
             strict,
             indent_size: 2,
             mark_quoted_keys: false,
+            depth: 0,
             error: None,
         }
     }
@@ -51,6 +55,7 @@ impl<'a> Parser<'a> {
             strict,
             indent_size: 2,
             mark_quoted_keys: false,
+            depth: 0,
             error: None,
         }
     }
@@ -224,7 +229,28 @@ impl<'a> Parser<'a> {
         marked
     }
 
+    /// Parse one more nesting level, unless that would exceed the limit
+    fn nested(&mut self, parse: impl FnOnce(&mut Self) -> Value) -> Value {
+        if self.depth >= super::MAX_DEPTH {
+            if self.error.is_none() {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: self.idx.clamp(1, self.lines.len()),
+                    message: "nesting too deep".to_string(),
+                });
+            }
+            return Value::Null;
+        }
+        self.depth += 1;
+        let v = parse(self);
+        self.depth -= 1;
+        v
+    }
+
     fn parse_array(&mut self, indent: usize) -> Value {
+        self.nested(|p| p.parse_array_items(indent))
+    }
+
+    fn parse_array_items(&mut self, indent: usize) -> Value {
         let mut arr = Vec::new();
         let mut inside_array = false;
         let first_line = self.idx;
@@ -359,6 +385,10 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_object(&mut self, indent: usize) -> Value {
+        self.nested(|p| p.parse_object_fields(indent))
+    }
+
+    fn parse_object_fields(&mut self, indent: usize) -> Value {
         let mut map: Vec<(String, Value)> = Vec::new();
         loop {
             self.skip_blanks();
diff --git a/crates/toon/src/decode/path_expand.rs b/crates/toon/src/decode/path_expand.rs
index 8e59d94..5ccf65e 100644
--- a/crates/toon/src/decode/path_expand.rs
+++ b/crates/toon/src/decode/path_expand.rs
@@ -108,15 +108,25 @@ fn deep_merge(
 /// Apply path expansion to a Value, returning the expanded value.
 /// If `strict` is true, conflicts will cause an error.
 pub fn expand_paths(value: Value, strict: bool) -> Result<Value, String> {
+    expand_at_depth(value, strict, 0)
+}
+
+fn expand_at_depth(value: Value, strict: bool, depth: usize) -> Result<Value, String> {
     match value {
         Value::Object(entries) => {
             let mut result: Vec<(String, Value)> = Vec::new();
 
             for (key, val) in entries {
+                let expand = should_expand_key(&key);
+                let levels = if expand { split_key(&key).len() } else { 1 };
+                if levels > 1 && depth + levels > super::MAX_DEPTH {
+                    return Err("path expansion nests too deep".to_string());
+                }
+
                 // Recursively expand nested values first
-                let expanded_val = expand_paths(val, strict)?;
+                let expanded_val = expand_at_depth(val, strict, depth + levels)?;
 
-                if should_expand_key(&key) {
+                if expand {
                     // Expand the dotted key
                     let segments = split_key(&key);
                     let nested = build_nested_from_segments(&segments, expanded_val);
@@ -143,7 +153,7 @@ pub fn expand_paths(value: Value, strict: bool) -> Result<Value, String> {
         Value::Array(arr) => {
             let mut result = Vec::with_capacity(arr.len());
             for item in arr {
-                result.push(expand_paths(item, strict)?);
+                result.push(expand_at_depth(item, strict, depth + 1)?);
             }
             Ok(Value::Array(result))
         }
-- 
2.43.0


From 1284a7413a163e76190d85dbdd77882cdaf72d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 23/39] fix: merge expanded paths in place instead of cloning
 the whole subtree

---
 crates/toon/src/decode/path_expand.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/toon/src/decode/path_expand.rs b/crates/toon/src/decode/path_expand.rs
index 5ccf65e..adf1787 100644
--- a/crates/toon/src/decode/path_expand.rs
+++ b/crates/toon/src/decode/path_expand.rs
@@ -77,16 +77,14 @@ fn deep_merge(
         let existing = &mut target[idx].1;
 
         // Check for conflicts
-        match (&existing, &value) {
+        match (existing, value) {
             (Value::Object(existing_obj), Value::Object(new_obj)) => {
                 // Both are objects - deep merge
-                let mut merged = existing_obj.clone();
-                for (k, v) in new_obj.clone() {
-                    deep_merge(&mut merged, k, v, strict)?;
+                for (k, v) in new_obj {
+                    deep_merge(existing_obj, k, v, strict)?;
                 }
-                *existing = Value::Object(merged);
             }
-            _ => {
+            (existing, value) => {
                 // Conflict: different types or primitive/array
                 if strict {
                     return Err(format!(
-- 
2.43.0


From fcea90a61ca2a5876d6892d4017c0c4d575f9017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 24/39] fix: reject a bare scalar below a key after blank lines
 and in list items

---
 crates/toon/src/decode/parser.rs | 37 ++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 79f8483..631069b 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -229,6 +229,25 @@ impl<'a> Parser<'a> {
         marked
     }
 
+    /// A bare scalar below a key is an error: in object context it must have a key of its own
+    fn check_key_value_context(&mut self, min_indent: usize) {
+        self.skip_blanks();
+        let bare_scalar = match self.peek() {
+            Some(line) if line.indent >= min_indent => match line.kind {
+                // Header lines are not plain scalars
+                LineKind::Scalar(s) => !s.starts_with('[') && parse_header(s).is_none(),
+                _ => false,
+            },
+            _ => false,
+        };
+        if bare_scalar && self.error.is_none() {
+            self.error = Some(crate::error::Error::Syntax {
+                line: self.idx + 1,
+                message: "missing colon in key-value context".to_string(),
+            });
+        }
+    }
+
     /// Parse one more nesting level, unless that would exceed the limit
     fn nested(&mut self, parse: impl FnOnce(&mut Self) -> Value) -> Value {
         if self.depth >= super::MAX_DEPTH {
@@ -339,6 +358,7 @@ impl<'a> Parser<'a> {
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
                         // Value on following lines, indented deeper than the sibling fields
+                        self.check_key_value_context(indent + self.indent_size + 1);
                         let v = match self.parse_node(indent + self.indent_size + 1) {
                             Value::Null => Value::Object(Vec::new()),
                             v => v,
@@ -626,22 +646,7 @@ impl<'a> Parser<'a> {
                         }
                     }
                     if !handled {
-                        // Check for bare scalar after key: - this is an error
-                        // (scalars in object context must have a key)
-                        if let Some(nl) = self.peek() {
-                            if nl.indent > indent {
-                                if let LineKind::Scalar(s) = &nl.kind {
-                                    // Only error if it's a plain scalar, not a header line
-                                    if !s.starts_with('[') && self.error.is_none() {
-                                        self.error = Some(crate::error::Error::Syntax {
-                                            line: self.idx + 1,
-                                            message: "missing colon in key-value context"
-                                                .to_string(),
-                                        });
-                                    }
-                                }
-                            }
-                        }
+                        self.check_key_value_context(indent + 1);
                         let v = self.parse_node(child_indent);
                         // If key: has no children, produce empty object instead of null
                         if matches!(v, Value::Null) {
-- 
2.43.0


From f564b0b5df49db14779d814be7da4778a5dc8def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 25/39] fix: do not overflow on an extreme indentation option

---
 crates/toon/src/decode/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 631069b..d3583ce 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1858,7 +1858,8 @@ pub(crate) fn parse_lines_with_options(
 ) -> Result<Value, crate::error::Error> {
     let mut p = Parser::from_lines(lines, options.strict);
     if options.indent > 0 {
-        p.indent_size = options.indent;
+        // No line is indented further than isize::MAX, so the sum of both cannot overflow
+        p.indent_size = options.indent.min(usize::MAX / 2 - 1);
     }
     p.mark_quoted_keys = options.expand_paths == crate::options::ExpandPaths::Safe;
     let v = p.parse_document();
-- 
2.43.0


From cf19a676aae2083ab61b43f47724044e9138bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 26/39] fix: deserialize options, newtypes, enums and
 non-string map keys

---
 crates/toon/src/de/mod.rs | 329 ++++++++++++++++++++++++++++++--------
 1 file changed, 263 insertions(+), 66 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 97dbbcb..17779ad 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -6,7 +6,7 @@ use alloc::{format, string::String, vec::Vec};
 #[cfg(all(feature = "de_direct", feature = "json"))]
 use core::any::TypeId;
 
-use serde::de::{self, DeserializeOwned, IntoDeserializer, MapAccess, SeqAccess};
+use serde::de::{self, DeserializeOwned, IntoDeserializer};
 
 use crate::value::{Number, Value};
 use crate::{Result, options::Options};
@@ -63,79 +63,276 @@ impl<'de> de::Deserializer<'de> for Deserializer {
             },
             Value::String(s) => visitor.visit_string(s),
             Value::Array(arr) => {
-                struct SA {
-                    elems: Vec<Value>,
-                    idx: usize,
-                }
-                impl<'de> SeqAccess<'de> for SA {
-                    type Error = DeError;
-                    fn next_element_seed<T>(
-                        &mut self,
-                        seed: T,
-                    ) -> core::result::Result<Option<T::Value>, Self::Error>
-                    where
-                        T: de::DeserializeSeed<'de>,
-                    {
-                        if self.idx >= self.elems.len() {
-                            return Ok(None);
-                        }
-                        let v = core::mem::replace(&mut self.elems[self.idx], Value::Null);
-                        self.idx += 1;
-                        let de = Deserializer { value: v };
-                        seed.deserialize(de).map(Some)
-                    }
-                }
-                visitor.visit_seq(SA { elems: arr, idx: 0 })
+                let mut seq = de::value::SeqDeserializer::new(arr.into_iter());
+                let out = visitor.visit_seq(&mut seq)?;
+                seq.end()?;
+                Ok(out)
             }
             Value::Object(obj) => {
-                struct MA {
-                    entries: Vec<(String, Value)>,
-                    idx: usize,
-                    next_val: Option<Value>,
-                }
-                impl<'de> MapAccess<'de> for MA {
-                    type Error = DeError;
-                    fn next_key_seed<K>(
-                        &mut self,
-                        seed: K,
-                    ) -> core::result::Result<Option<K::Value>, Self::Error>
-                    where
-                        K: de::DeserializeSeed<'de>,
-                    {
-                        if self.idx >= self.entries.len() {
-                            return Ok(None);
-                        }
-                        let (ref key, ref val) = self.entries[self.idx];
-                        let de_key = key.clone().into_deserializer();
-                        self.next_val = Some(val.clone());
-                        seed.deserialize(de_key).map(Some)
-                    }
-                    fn next_value_seed<VV>(
-                        &mut self,
-                        seed: VV,
-                    ) -> core::result::Result<VV::Value, Self::Error>
-                    where
-                        VV: de::DeserializeSeed<'de>,
-                    {
-                        let v = self.next_val.take().unwrap_or(Value::Null);
-                        self.idx += 1;
-                        let de = Deserializer { value: v };
-                        seed.deserialize(de)
-                    }
-                }
-                visitor.visit_map(MA {
-                    entries: obj,
-                    idx: 0,
-                    next_val: None,
-                })
+                let entries = obj.into_iter().map(|(k, v)| (MapKey(k), v));
+                let mut map = de::value::MapDeserializer::new(entries);
+                let out = visitor.visit_map(&mut map)?;
+                map.end()?;
+                Ok(out)
             }
         }
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            Value::Null => visitor.visit_none(),
+            _ => visitor.visit_some(self),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        let (variant, value) = match self.value {
+            Value::String(variant) => (variant, None),
+            Value::Object(mut obj) if obj.len() == 1 => {
+                let (variant, value) = obj.remove(0);
+                (variant, Some(value))
+            }
+            _ => {
+                return Err(de::Error::custom(
+                    "invalid type for an enum, expected a string or an object with one key",
+                ));
+            }
+        };
+        visitor.visit_enum(EnumAccess { variant, value })
+    }
+
+    fn deserialize_identifier<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            Value::String(s) => visitor.visit_string(s),
+            _ => Err(de::Error::custom(
+                "invalid type for an identifier, expected a string",
+            )),
+        }
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
-        option unit unit_struct newtype_struct seq tuple tuple_struct map struct
-        enum identifier ignored_any
+        unit unit_struct seq tuple tuple_struct map struct ignored_any
+    }
+}
+
+impl<'de> IntoDeserializer<'de, DeError> for Value {
+    type Deserializer = Deserializer;
+
+    fn into_deserializer(self) -> Deserializer {
+        Deserializer { value: self }
+    }
+}
+
+/// An object key: text that may stand for a number, a boolean or a unit variant.
+struct MapKey(String);
+
+impl<'de> IntoDeserializer<'de, DeError> for MapKey {
+    type Deserializer = Self;
+
+    fn into_deserializer(self) -> Self {
+        self
+    }
+}
+
+impl MapKey {
+    /// Same spellings as for a number in a document: no plus sign, no leading zeros.
+    fn number<T: core::str::FromStr>(&self) -> Option<T> {
+        let digits = self.0.strip_prefix('-').unwrap_or(&self.0);
+        if !digits.starts_with(|c: char| c.is_ascii_digit())
+            || crate::number::has_forbidden_leading_zeros(&self.0)
+        {
+            return None;
+        }
+        self.0.parse().ok()
+    }
+}
+
+macro_rules! deserialize_number_key {
+    ($($method:ident => $visit:ident),* $(,)?) => {$(
+        fn $method<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+        where
+            V: de::Visitor<'de>,
+        {
+            match self.number() {
+                Some(n) => visitor.$visit(n),
+                None => visitor.visit_string(self.0),
+            }
+        }
+    )*};
+}
+
+impl<'de> de::Deserializer<'de> for MapKey {
+    type Error = DeError;
+
+    fn deserialize_any<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_string(self.0)
+    }
+
+    fn deserialize_bool<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.0.parse() {
+            Ok(b) => visitor.visit_bool(b),
+            Err(_) => visitor.visit_string(self.0),
+        }
+    }
+
+    deserialize_number_key! {
+        deserialize_i8 => visit_i8,
+        deserialize_i16 => visit_i16,
+        deserialize_i32 => visit_i32,
+        deserialize_i64 => visit_i64,
+        deserialize_u8 => visit_u8,
+        deserialize_u16 => visit_u16,
+        deserialize_u32 => visit_u32,
+        deserialize_u64 => visit_u64,
+        deserialize_f32 => visit_f32,
+        deserialize_f64 => visit_f64,
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_enum(EnumAccess {
+            variant: self.0,
+            value: None,
+        })
+    }
+
+    serde::forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map
+        struct identifier ignored_any
+    }
+}
+
+/// An enum variant name with the content that goes with it, if any.
+struct EnumAccess {
+    variant: String,
+    value: Option<Value>,
+}
+
+impl<'de> de::EnumAccess<'de> for EnumAccess {
+    type Error = DeError;
+    type Variant = VariantAccess;
+
+    fn variant_seed<V>(
+        self,
+        seed: V,
+    ) -> core::result::Result<(V::Value, Self::Variant), Self::Error>
+    where
+        V: de::DeserializeSeed<'de>,
+    {
+        let name: de::value::StringDeserializer<DeError> = self.variant.into_deserializer();
+        let variant = seed.deserialize(name)?;
+        Ok((variant, VariantAccess { value: self.value }))
+    }
+}
+
+struct VariantAccess {
+    value: Option<Value>,
+}
+
+impl VariantAccess {
+    fn content(self, expected: &str) -> core::result::Result<Deserializer, DeError> {
+        self.value.map(Deserializer::from_value).ok_or_else(|| {
+            de::Error::custom(format!("invalid type: unit variant, expected {expected}"))
+        })
+    }
+}
+
+impl<'de> de::VariantAccess<'de> for VariantAccess {
+    type Error = DeError;
+
+    fn unit_variant(self) -> core::result::Result<(), Self::Error> {
+        match self.value {
+            Some(value) => de::Deserialize::deserialize(Deserializer { value }),
+            None => Ok(()),
+        }
+    }
+
+    fn newtype_variant_seed<T>(self, seed: T) -> core::result::Result<T::Value, Self::Error>
+    where
+        T: de::DeserializeSeed<'de>,
+    {
+        seed.deserialize(self.content("newtype variant")?)
+    }
+
+    fn tuple_variant<V>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        let content = self.content("tuple variant")?;
+        de::Deserializer::deserialize_seq(content, visitor)
+    }
+
+    fn struct_variant<V>(
+        self,
+        _fields: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        let content = self.content("struct variant")?;
+        de::Deserializer::deserialize_map(content, visitor)
     }
 }
 
-- 
2.43.0


From dec9f9376fcd87bcd16e2100dde5886de0fa63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 27/39] fix: keep newtype and optional scalars on the key's
 line without serde_json

---
 crates/toon/src/ser/stream.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 94aac9d..6c4dadd 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -598,6 +598,13 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
                 self.entry_count += 1;
                 return Ok(());
             }
+            // A scalar behind a newtype or an option
+            if val.is_primitive() {
+                let sv = format_primitive_value_alloc(&val, self.parent.opts.delimiter);
+                self.parent.w.line_kv(self.parent.indent, &key_fmt, &sv);
+                self.entry_count += 1;
+                return Ok(());
+            }
             // For objects, use the standard key: then nested fields
             self.parent.w.line_key_only(self.parent.indent, &key_fmt);
             encode_internal_value_alloc(
-- 
2.43.0


From 4bcae63297c6f70c79496b77279869e45ee3cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 28/39] fix: fold keys without serde_json as well

---
 crates/toon/src/ser/stream.rs | 246 ++++++++++++++++------------------
 1 file changed, 114 insertions(+), 132 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 6c4dadd..eeeae1f 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -249,7 +249,6 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
             parent: self,
             next_key: None,
             entry_count: 0,
-            #[cfg(feature = "json")]
             buffered: None,
         })
     }
@@ -509,8 +508,7 @@ struct MapSer<'a, 'de> {
     next_key: Option<String>,
     entry_count: usize,
     /// Buffered entries for key folding collision detection
-    #[cfg(feature = "json")]
-    buffered: Option<Vec<(String, Value)>>,
+    buffered: Option<Vec<(String, AnyValue)>>,
 }
 
 impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
@@ -527,9 +525,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         let key = self.next_key.take().unwrap_or_default();
 
         // When key folding is enabled, buffer entries for collision detection
-        #[cfg(feature = "json")]
         if self.parent.opts.key_folding == crate::options::KeyFolding::Safe {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+            let val = value_builder::to_value(value, self.parent.opts)
                 .map_err(|e| SerError::custom(e.to_string()))?;
             if self.buffered.is_none() {
                 self.buffered = Some(Vec::new());
@@ -598,20 +595,14 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
                 self.entry_count += 1;
                 return Ok(());
             }
-            // A scalar behind a newtype or an option
-            if val.is_primitive() {
-                let sv = format_primitive_value_alloc(&val, self.parent.opts.delimiter);
-                self.parent.w.line_kv(self.parent.indent, &key_fmt, &sv);
-                self.entry_count += 1;
-                return Ok(());
-            }
-            // For objects, use the standard key: then nested fields
-            self.parent.w.line_key_only(self.parent.indent, &key_fmt);
-            encode_internal_value_alloc(
+            // For scalars behind a newtype or an option, and for objects
+            encode_field_alloc(
+                &key,
                 &val,
+                &[],
                 self.parent.w,
                 self.parent.opts,
-                self.parent.indent + self.parent.opts.indent,
+                self.parent.indent,
             )?;
             self.entry_count += 1;
             Ok(())
@@ -637,6 +628,15 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
                 .map_err(|e| SerError::custom(e.to_string()))?;
             }
         }
+        #[cfg(not(feature = "json"))]
+        if let Some(entries) = self.buffered {
+            encode_fields_alloc(
+                &entries,
+                self.parent.w,
+                self.parent.opts,
+                self.parent.indent,
+            )?;
+        }
         Ok(())
     }
 }
@@ -1205,38 +1205,7 @@ fn encode_list_item_alloc(
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
                     for (k, v) in iter {
-                        let key_fmt = primitives::format_key(k);
-                        match v {
-                            IValue::Null => {
-                                w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                            }
-                            IValue::Bool(b) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                primitives::format_bool(*b),
-                            ),
-                            IValue::Number(n) => {
-                                w.line_kv(indent + opts.indent, &key_fmt, &n.to_string())
-                            }
-                            IValue::String(s) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                &primitives::format_string(s, opts.delimiter),
-                            ),
-                            IValue::Array(arr) => {
-                                encode_keyed_array_alloc(
-                                    &key_fmt,
-                                    arr,
-                                    w,
-                                    opts,
-                                    indent + opts.indent,
-                                )?;
-                            }
-                            IValue::Object(_) => {
-                                w.line_key_only(indent + opts.indent, &key_fmt);
-                                encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
-                            }
-                        }
+                        encode_field_alloc(k, v, pairs, w, opts, indent + opts.indent)?;
                     }
                     return Ok(());
                 }
@@ -1302,76 +1271,13 @@ fn encode_list_item_alloc(
                 }
                 IValue::Object(inner_obj) => {
                     w.line(indent, &format!("- {}:", first_key_fmt));
-                    if !inner_obj.is_empty() {
-                        for (k, v) in inner_obj {
-                            let key_fmt = primitives::format_key(k);
-                            match v {
-                                IValue::Null => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    primitives::format_null(),
-                                ),
-                                IValue::Bool(b) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    primitives::format_bool(*b),
-                                ),
-                                IValue::Number(n) => {
-                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
-                                }
-                                IValue::String(s) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    &primitives::format_string(s, opts.delimiter),
-                                ),
-                                IValue::Array(arr) => {
-                                    encode_keyed_array_alloc(
-                                        &key_fmt,
-                                        arr,
-                                        w,
-                                        opts,
-                                        indent + 2 * opts.indent,
-                                    )?;
-                                }
-                                IValue::Object(_) => {
-                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
-                                    encode_internal_value_alloc(
-                                        v,
-                                        w,
-                                        opts,
-                                        indent + 3 * opts.indent,
-                                    )?;
-                                }
-                            }
-                        }
-                    }
+                    encode_fields_alloc(inner_obj, w, opts, indent + 2 * opts.indent)?;
                 }
             }
 
             // Remaining fields at depth + 1 (indent + opts.indent)
             for (k, v) in iter {
-                let key_fmt = primitives::format_key(k);
-                match v {
-                    IValue::Null => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                    }
-                    IValue::Bool(b) => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_bool(*b))
-                    }
-                    IValue::Number(n) => w.line_kv(indent + opts.indent, &key_fmt, &n.to_string()),
-                    IValue::String(s) => w.line_kv(
-                        indent + opts.indent,
-                        &key_fmt,
-                        &primitives::format_string(s, opts.delimiter),
-                    ),
-                    IValue::Array(arr) => {
-                        encode_keyed_array_alloc(&key_fmt, arr, w, opts, indent + opts.indent)?;
-                    }
-                    IValue::Object(_) => {
-                        w.line_key_only(indent + opts.indent, &key_fmt);
-                        encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
-                    }
-                }
+                encode_field_alloc(k, v, pairs, w, opts, indent + opts.indent)?;
             }
         }
     }
@@ -1520,30 +1426,106 @@ fn encode_internal_value_alloc(
             encode_keyed_array_alloc("", items, w, opts, indent)?;
         }
         IValue::Object(pairs) => {
-            for (k, val) in pairs {
-                let key = primitives::format_key(k);
-                if let IValue::Array(items) = val {
-                    encode_keyed_array_alloc(&key, items, w, opts, indent)?;
-                } else if val.is_primitive() {
-                    match val {
-                        IValue::Null => w.line_kv(indent, &key, primitives::format_null()),
-                        IValue::Bool(b) => w.line_kv(indent, &key, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_kv(indent, &key, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_kv(indent, &key, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
-                    }
-                } else {
-                    w.line_key_only(indent, &key);
-                    encode_internal_value_alloc(val, w, opts, indent + opts.indent)?;
-                }
-            }
+            encode_fields_alloc(pairs, w, opts, indent)?;
         }
     }
     Ok(())
 }
 
+/// Encode the fields of an object, folding keys when enabled (alloc version)
+#[cfg(not(feature = "json"))]
+fn encode_fields_alloc(
+    pairs: &[(String, IValue)],
+    w: &mut LineWriter,
+    opts: &Options,
+    indent: usize,
+) -> Result<(), SerError> {
+    for (k, v) in pairs {
+        encode_field_alloc(k, v, pairs, w, opts, indent)?;
+    }
+    Ok(())
+}
+
+/// Encode one field of an object whose fields are `siblings`
+#[cfg(not(feature = "json"))]
+fn encode_field_alloc(
+    key: &str,
+    value: &IValue,
+    siblings: &[(String, IValue)],
+    w: &mut LineWriter,
+    opts: &Options,
+    indent: usize,
+) -> Result<(), SerError> {
+    let no_folding = Options {
+        key_folding: crate::options::KeyFolding::Off,
+        ..opts.clone()
+    };
+    let mut key_fmt = primitives::format_key(key);
+    let mut value = value;
+    let mut nested_opts = opts;
+    if let Some((folded_key, folded_value)) = fold_keys_alloc(key, value, opts) {
+        // Neither below a folded key nor after a collision is anything folded
+        nested_opts = &no_folding;
+        if !siblings.iter().any(|(k, _)| *k == folded_key) {
+            key_fmt = folded_key;
+            value = folded_value;
+        }
+    }
+    match value {
+        IValue::Array(items) => encode_keyed_array_alloc(&key_fmt, items, w, nested_opts, indent),
+        IValue::Object(pairs) => {
+            w.line_key_only(indent, &key_fmt);
+            encode_fields_alloc(pairs, w, nested_opts, indent + opts.indent)
+        }
+        scalar => {
+            let sv = format_primitive_value_alloc(scalar, opts.delimiter);
+            w.line_kv(indent, &key_fmt, &sv);
+            Ok(())
+        }
+    }
+}
+
+/// The dotted path and the value of a chain of single-key objects
+#[cfg(not(feature = "json"))]
+fn fold_keys_alloc<'a>(
+    key: &str,
+    value: &'a IValue,
+    opts: &Options,
+) -> Option<(String, &'a IValue)> {
+    let max_segments = opts.flatten_depth.unwrap_or(usize::MAX);
+    if opts.key_folding == crate::options::KeyFolding::Off
+        || max_segments < 2
+        || !is_identifier_segment(key)
+    {
+        return None;
+    }
+    let mut path = String::from(key);
+    let mut segments = 1;
+    let mut current = value;
+    while segments < max_segments {
+        match current {
+            IValue::Object(pairs) if pairs.len() == 1 && is_identifier_segment(&pairs[0].0) => {
+                path.push('.');
+                path.push_str(&pairs[0].0);
+                current = &pairs[0].1;
+                segments += 1;
+            }
+            _ => break,
+        }
+    }
+    if segments < 2 {
+        return None;
+    }
+    Some((path, current))
+}
+
+#[cfg(not(feature = "json"))]
+fn is_identifier_segment(key: &str) -> bool {
+    let mut chars = key.chars();
+    matches!(chars.next(), Some(c) if c.is_ascii_alphabetic() || c == '_')
+        && chars.all(|c| c.is_ascii_alphanumeric() || c == '_')
+}
+
 fn try_scalar_to_string<T: ?Sized + Serialize>(
     value: &T,
     opts: &Options,
-- 
2.43.0


From 3b6c2f06bd610c0e8655e581ba8b02f71ba6b8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 29/39] fix: read unquoted scalars the same way in the direct
 deserializer

---
 crates/toon/src/de/direct.rs     |  31 +++-------
 crates/toon/src/decode/parser.rs | 103 ++++++++++++++++---------------
 2 files changed, 62 insertions(+), 72 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index d594645..0ba7fcb 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -15,6 +15,7 @@ use std::{
 use serde::de::{self, DeserializeOwned, IntoDeserializer, MapAccess, SeqAccess};
 
 use crate::decode::scanner::{LineKind, ParsedLine, scan};
+use crate::value::{Number, Value};
 use crate::{Result, error::Error as ToONError, options::Options};
 
 #[derive(Debug)]
@@ -98,30 +99,14 @@ impl<'a> DirectDeserializer<'a> {
         if let Some(st) = unescape_json_string(s) {
             return Primitive::Str(st);
         }
-        match s {
-            "true" => return Primitive::Bool(true),
-            "false" => return Primitive::Bool(false),
-            "null" => return Primitive::Null,
-            _ => {}
-        }
-        let bs = s.as_bytes();
-        if !bs.is_empty() {
-            if bs[0] == b'-' {
-                if bs.len() > 1 && bs[1..].iter().all(|c| c.is_ascii_digit()) {
-                    if let Ok(i) = s.parse::<i64>() {
-                        return Primitive::I64(i);
-                    }
-                }
-            } else if bs.iter().all(|c| c.is_ascii_digit()) {
-                if let Ok(u) = s.parse::<u64>() {
-                    return Primitive::U64(u);
-                }
-            }
-        }
-        if let Ok(f) = s.parse::<f64>() {
-            return Primitive::F64(f);
+        match crate::decode::parser::parse_unquoted_scalar(s) {
+            Value::Null => Primitive::Null,
+            Value::Bool(b) => Primitive::Bool(b),
+            Value::Number(Number::I64(i)) => Primitive::I64(i),
+            Value::Number(Number::U64(u)) => Primitive::U64(u),
+            Value::Number(Number::F64(f)) => Primitive::F64(f),
+            _ => Primitive::Str(s.to_string()),
         }
-        Primitive::Str(s.to_string())
     }
 }
 
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index d3583ce..64d8fa8 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -136,55 +136,7 @@ impl<'a> Parser<'a> {
                 Err(_) => return Value::String(String::new()),
             }
         }
-        if has_forbidden_leading_zeros(s) {
-            return Value::String(s.to_string());
-        }
-        match s {
-            "true" => return Value::Bool(true),
-            "false" => return Value::Bool(false),
-            "null" => return Value::Null,
-            _ => {}
-        }
-        // Fast path for pure integers (ASCII digits, optional leading '-')
-        let bs = s.as_bytes();
-        if !bs.is_empty() {
-            if bs[0] == b'-' {
-                if bs.len() > 1 && bs[1..].iter().all(|c| c.is_ascii_digit()) {
-                    if let Ok(i) = s.parse::<i64>() {
-                        return Value::Number(Number::I64(i));
-                    }
-                }
-            } else if bs.iter().all(|c| c.is_ascii_digit()) {
-                if let Ok(u) = s.parse::<u64>() {
-                    return Value::Number(Number::U64(u));
-                }
-            }
-        }
-        match classify_numeric_hint(s) {
-            Some(NumHint::Float) => {
-                if let Some(n) = s.parse::<f64>().ok().and_then(number_from_f64) {
-                    return Value::Number(n);
-                }
-            }
-            Some(NumHint::IntSigned) => {
-                if let Ok(i) = s.parse::<i64>() {
-                    return Value::Number(Number::I64(i));
-                }
-                if let Some(n) = s.parse::<f64>().ok().and_then(number_from_f64) {
-                    return Value::Number(n);
-                }
-            }
-            Some(NumHint::IntUnsigned) => {
-                if let Ok(u) = s.parse::<u64>() {
-                    return Value::Number(Number::U64(u));
-                }
-                if let Some(n) = s.parse::<f64>().ok().and_then(number_from_f64) {
-                    return Value::Number(n);
-                }
-            }
-            None => {}
-        }
-        Value::String(s.to_string())
+        parse_unquoted_scalar(s)
     }
 
     fn parse_key_token(&mut self, k: &str) -> String {
@@ -1963,6 +1915,59 @@ fn try_unescape_json_string(s: &str) -> Result<String, StringParseError> {
     Ok(out)
 }
 
+/// The value of a token that is not a quoted string
+pub(crate) fn parse_unquoted_scalar(s: &str) -> Value {
+    if has_forbidden_leading_zeros(s) {
+        return Value::String(s.to_string());
+    }
+    match s {
+        "true" => return Value::Bool(true),
+        "false" => return Value::Bool(false),
+        "null" => return Value::Null,
+        _ => {}
+    }
+    // Fast path for pure integers (ASCII digits, optional leading '-')
+    let bs = s.as_bytes();
+    if !bs.is_empty() {
+        if bs[0] == b'-' {
+            if bs.len() > 1 && bs[1..].iter().all(|c| c.is_ascii_digit()) {
+                if let Ok(i) = s.parse::<i64>() {
+                    return Value::Number(Number::I64(i));
+                }
+            }
+        } else if bs.iter().all(|c| c.is_ascii_digit()) {
+            if let Ok(u) = s.parse::<u64>() {
+                return Value::Number(Number::U64(u));
+            }
+        }
+    }
+    match classify_numeric_hint(s) {
+        Some(NumHint::Float) => {
+            if let Some(n) = s.parse::<f64>().ok().and_then(number_from_f64) {
+                return Value::Number(n);
+            }
+        }
+        Some(NumHint::IntSigned) => {
+            if let Ok(i) = s.parse::<i64>() {
+                return Value::Number(Number::I64(i));
+            }
+            if let Some(n) = s.parse::<f64>().ok().and_then(number_from_f64) {
+                return Value::Number(n);
+            }
+        }
+        Some(NumHint::IntUnsigned) => {
+            if let Ok(u) = s.parse::<u64>() {
+                return Value::Number(Number::U64(u));
+            }
+            if let Some(n) = s.parse::<f64>().ok().and_then(number_from_f64) {
+                return Value::Number(n);
+            }
+        }
+        None => {}
+    }
+    Value::String(s.to_string())
+}
+
 /// Convert a parsed float to a number, keeping integral values that fit an integer as integers.
 /// Returns None for values beyond the range of f64.
 fn number_from_f64(f: f64) -> Option<Number> {
-- 
2.43.0


From 1e0adabc40aa61ee1c0fa606b18053a6ba23b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 30/39] fix: read quoted keys with brackets in the direct
 deserializer

---
 crates/toon/src/de/direct.rs | 37 +++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index 0ba7fcb..8335dc0 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -87,12 +87,11 @@ impl<'a> DirectDeserializer<'a> {
         if let Some(s) = unescape_json_string(k) {
             return s;
         }
-        let base = if let Some(idx) = k.find('[') {
-            &k[..idx]
-        } else {
-            k
+        let base = match bracket_start(k) {
+            Some(idx) => &k[..idx],
+            None => k,
         };
-        base.to_string()
+        unescape_json_string(base).unwrap_or_else(|| base.to_string())
     }
 
     fn classify_primitive(s: &str) -> Primitive {
@@ -346,7 +345,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for MapDe<'a, 'b> {
                         ));
                         return seed.deserialize(k.into_deserializer()).map(Some);
                     }
-                } else if kref.contains('[') {
+                } else if bracket_start(kref).is_some() {
                     let dch = bracket_delim_from_key(kref).unwrap_or(',');
                     self.pending = Some((
                         k.clone(),
@@ -366,7 +365,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for MapDe<'a, 'b> {
                 let child_indent = self.indent + 2;
                 self.de.skip_blanks();
                 // Distinguish keyed header vs nested object
-                let vkind = if kref.contains('[') {
+                let vkind = if bracket_start(kref).is_some() {
                     // Try keyed tabular header "key[N]{fields}:"
                     if let Some((_key_again, dch, header)) =
                         try_parse_keyed_tabular_header(self.de, kref)
@@ -544,7 +543,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for HyphenObjectDe<'a, 'b> {
                 } else {
                     HyphenFirstValue::Scalar(vref)
                 }
-            } else if kref.contains('[') {
+            } else if bracket_start(kref).is_some() {
                 let dch = bracket_delim_from_key(kref).unwrap_or(',');
                 HyphenFirstValue::InlineArray {
                     dch,
@@ -555,7 +554,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for HyphenObjectDe<'a, 'b> {
             }
         } else {
             let child_indent = self.siblings_indent + 2;
-            if kref.contains('[') {
+            if bracket_start(kref).is_some() {
                 if let Some((_key_again, dch, header)) =
                     try_parse_keyed_tabular_header(self.de, kref)
                 {
@@ -910,7 +909,7 @@ fn try_parse_keyed_tabular_header<'a>(
     kraw: &str,
 ) -> Option<(String, char, Vec<String>)> {
     let bytes = kraw.as_bytes();
-    let br = bytes.iter().position(|&b| b == b'[')?; // require '['
+    let br = bracket_start(kraw)?; // require '['
     let key_str = &kraw[..br];
     let mut i = br + 1;
     let mut dch = ',';
@@ -955,9 +954,25 @@ fn try_parse_keyed_tabular_header<'a>(
     Some((key, dch, header))
 }
 
+/// Where the array header of a key starts: the first bracket outside quotes
+fn bracket_start(k: &str) -> Option<usize> {
+    let mut in_str = false;
+    let mut escape = false;
+    for (i, b) in k.bytes().enumerate() {
+        match b {
+            _ if escape => escape = false,
+            b'\\' if in_str => escape = true,
+            b'"' => in_str = !in_str,
+            b'[' if !in_str => return Some(i),
+            _ => {}
+        }
+    }
+    None
+}
+
 fn bracket_delim_from_key(k: &str) -> Option<char> {
     let bytes = k.as_bytes();
-    let bpos = bytes.iter().position(|&b| b == b'[')?;
+    let bpos = bracket_start(k)?;
     let mut i = bpos + 1;
     while i < bytes.len() && bytes[i].is_ascii_digit() {
         i += 1;
-- 
2.43.0


From 183a8899189ca117beeaab7fe7848267f580c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 31/39] fix: read odd headers in the direct deserializer
 without panicking

---
 crates/toon/src/de/direct.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index 8335dc0..7b1c7c2 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -718,7 +718,7 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
-    Some((dch, s[2..].trim_start()))
+    Some((dch, it.as_str().trim_start()))
 }
 
 fn unescape_json_string(s: &str) -> Option<String> {
@@ -875,7 +875,9 @@ fn parse_inline_array_header(s: &str) -> Option<(usize, char, &str)> {
     let mut i = 1usize;
     let mut n: usize = 0;
     while i < bytes.len() && bytes[i].is_ascii_digit() {
-        n = n * 10 + (bytes[i] - b'0') as usize;
+        n = n
+            .saturating_mul(10)
+            .saturating_add((bytes[i] - b'0') as usize);
         i += 1;
     }
     if i >= bytes.len() {
-- 
2.43.0


From b5eebe01a34a6ba1f171b4326a48c002dd9bc514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 32/39] fix: limit the nesting the direct deserializer recurses
 into

---
 crates/toon/src/de/direct.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index 7b1c7c2..915f83d 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -50,6 +50,15 @@ pub fn from_str<T: DeserializeOwned>(s: &str, options: &Options) -> Result<T> {
             });
         }
     }
+    // Every container indents its content by at least 2, and reading recurses into containers
+    if let Some(i) = lines.iter().position(|pl| {
+        !matches!(pl.kind, LineKind::Blank) && pl.indent / 2 > crate::decode::MAX_DEPTH
+    }) {
+        return Err(ToONError::Syntax {
+            line: i + 1,
+            message: "nesting too deep".to_string(),
+        });
+    }
     let mut de = DirectDeserializer {
         lines,
         idx: 0,
-- 
2.43.0


From 043e2b44960e2118bb336b555536494db3bdb74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 33/39] fix: do not read a header with an overlong length as a
 key

---
 crates/toon/src/decode/parser.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 64d8fa8..683c4aa 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1386,15 +1386,23 @@ fn parse_bracket_content(s: &str) -> Option<(usize, char)> {
     if last == '\t' || last == '|' {
         // Has explicit delimiter
         let num_part = &s[..s.len() - 1];
-        let length = num_part.trim().parse::<usize>().ok()?;
+        let length = parse_length(num_part.trim())?;
         Some((length, last))
     } else {
         // No explicit delimiter means comma
-        let length = s.parse::<usize>().ok()?;
+        let length = parse_length(s)?;
         Some((length, ','))
     }
 }
 
+/// A declared length. One beyond the range of usize is still a length, if an unreachable one.
+fn parse_length(s: &str) -> Option<usize> {
+    match s.parse() {
+        Err(_) if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) => Some(usize::MAX),
+        length => length.ok(),
+    }
+}
+
 /// Trim only spaces, not tabs (since tabs can be delimiters)
 fn trim_spaces_only(s: &str) -> &str {
     let bytes = s.as_bytes();
@@ -1513,12 +1521,12 @@ fn is_array_header_line(s: &str) -> bool {
     // Check if it starts with digits
     let first_non_digit = content.find(|c: char| !c.is_ascii_digit());
     match first_non_digit {
-        None => content.parse::<usize>().is_ok(), // All digits
+        None => true, // All digits
         Some(pos) => {
             // Must be digits followed by single delimiter char
             if pos == content.len() - 1 {
                 let delim = content.chars().last().unwrap();
-                return (delim == '\t' || delim == '|') && content[..pos].parse::<usize>().is_ok();
+                return (delim == '\t' || delim == '|') && pos > 0;
             }
             false
         }
-- 
2.43.0


From edbddc88a998328aa9052316f761ece01e7b8ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 34/39] fix: check the declared length of a header without a
 key inside another structure

---
 crates/toon/src/decode/parser.rs | 69 ++++++++++++++------------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 683c4aa..aaebd69 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -819,16 +819,14 @@ impl<'a> Parser<'a> {
                                 }
                                 if let Some(ref inline) = header.inline_values {
                                     if !inline.is_empty() {
-                                        let values = split_delim_aware(inline, header.delimiter);
-                                        return Value::Array(
-                                            values
-                                                .into_iter()
-                                                .map(|v| self.parse_scalar_token(v))
-                                                .collect(),
-                                        );
+                                        return self.parse_inline_array(&header, inline);
                                     }
                                 }
-                                return self.parse_array(indent);
+                                return self.parse_array_with_length_check(
+                                    indent,
+                                    header.length,
+                                    header_line_no,
+                                );
                             }
                         }
                     }
@@ -839,18 +837,8 @@ impl<'a> Parser<'a> {
                     if let Some(header) = parse_array_header(&combined) {
                         if header.key.is_none() {
                             self.next();
-                            if let Some(ref inline) = header.inline_values {
-                                if !inline.is_empty() {
-                                    let values = split_delim_aware(inline, header.delimiter);
-                                    return Value::Array(
-                                        values
-                                            .into_iter()
-                                            .map(|v| self.parse_scalar_token(v))
-                                            .collect(),
-                                    );
-                                }
-                            }
-                            return Value::Array(Vec::new());
+                            let inline = header.inline_values.as_deref().unwrap_or("");
+                            return self.parse_inline_array(&header, inline);
                         }
                     }
                 }
@@ -1038,24 +1026,7 @@ impl<'a> Parser<'a> {
         // If there are inline values, parse them
         if let Some(ref inline) = header.inline_values {
             if !inline.is_empty() {
-                let values = split_delim_aware(inline, header.delimiter);
-                // Validate array length
-                if values.len() != header.length && self.error.is_none() {
-                    self.error = Some(crate::error::Error::Syntax {
-                        line: header_line_no,
-                        message: format!(
-                            "array length mismatch: header declares {} elements but found {}",
-                            header.length,
-                            values.len()
-                        ),
-                    });
-                }
-                return Value::Array(
-                    values
-                        .into_iter()
-                        .map(|v| self.parse_scalar_token(v))
-                        .collect(),
-                );
+                return self.parse_inline_array(header, inline);
             }
         }
 
@@ -1064,6 +1035,28 @@ impl<'a> Parser<'a> {
         self.parse_array_with_length_check(child_indent, header.length, header_line_no)
     }
 
+    /// Parse the inline values of the header on the line just consumed
+    fn parse_inline_array(&mut self, header: &ArrayHeader, inline: &str) -> Value {
+        let values = split_delim_aware(inline, header.delimiter);
+        // Validate array length
+        if values.len() != header.length && self.error.is_none() {
+            self.error = Some(crate::error::Error::Syntax {
+                line: self.idx,
+                message: format!(
+                    "array length mismatch: header declares {} elements but found {}",
+                    header.length,
+                    values.len()
+                ),
+            });
+        }
+        Value::Array(
+            values
+                .into_iter()
+                .map(|v| self.parse_scalar_token(v))
+                .collect(),
+        )
+    }
+
     /// Parse tabular rows at the given indent level
     fn parse_tabular_rows(
         &mut self,
-- 
2.43.0


From e56bbcfc8f9cf1b77f6c3e163a645b01c87762cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 35/39] fix: do not ignore text after a tabular header in
 strict mode

---
 crates/toon/src/decode/parser.rs | 69 +++++++++++++++-----------------
 1 file changed, 32 insertions(+), 37 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index aaebd69..c17cdb8 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -288,12 +288,9 @@ impl<'a> Parser<'a> {
                         if let Some(ref fields) = header.fields {
                             let header_line_no = self.idx; // Already consumed the header
                             let row_indent = self.child_indent(indent);
-                            let fields_refs: Vec<&str> =
-                                fields.iter().map(|s| s.as_str()).collect();
                             arr.push(self.parse_tabular_rows(
-                                header.length,
-                                header.delimiter,
-                                &fields_refs,
+                                &header,
+                                fields,
                                 row_indent,
                                 header_line_no,
                             ));
@@ -807,12 +804,9 @@ impl<'a> Parser<'a> {
                                 let header_line_no = self.idx + 1;
                                 self.next();
                                 if let Some(ref fields) = header.fields {
-                                    let fields_refs: Vec<&str> =
-                                        fields.iter().map(|s| s.as_str()).collect();
                                     return self.parse_tabular_rows(
-                                        header.length,
-                                        header.delimiter,
-                                        &fields_refs,
+                                        &header,
+                                        fields,
                                         indent + self.indent_size,
                                         header_line_no,
                                     );
@@ -837,6 +831,11 @@ impl<'a> Parser<'a> {
                     if let Some(header) = parse_array_header(&combined) {
                         if header.key.is_none() {
                             self.next();
+                            if let Some(ref fields) = header.fields {
+                                let row_indent = indent + self.indent_size;
+                                return self
+                                    .parse_tabular_rows(&header, fields, row_indent, self.idx);
+                            }
                             let inline = header.inline_values.as_deref().unwrap_or("");
                             return self.parse_inline_array(&header, inline);
                         }
@@ -960,14 +959,7 @@ impl<'a> Parser<'a> {
 
         if let Some(ref fields) = header.fields {
             // Tabular array - rows one level deep
-            let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
-            return self.parse_tabular_rows(
-                header.length,
-                header.delimiter,
-                &fields_refs,
-                self.body_indent(0),
-                line_no,
-            );
+            return self.parse_tabular_rows(&header, fields, self.body_indent(0), line_no);
         }
 
         if let Some(ref inline) = header.inline_values {
@@ -1002,25 +994,10 @@ impl<'a> Parser<'a> {
     fn parse_keyed_array_value(&mut self, header: &ArrayHeader, indent: usize) -> Value {
         let header_line_no = self.idx; // Header was already consumed
 
-        // In strict mode, check for delimiter mismatch between bracket and brace
-        if self.strict && header.fields_delimiter_mismatch && self.error.is_none() {
-            self.error = Some(crate::error::Error::Syntax {
-                line: header_line_no,
-                message: "mismatched delimiter between bracket and brace fields".to_string(),
-            });
-        }
-
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
             let row_indent = self.child_indent(indent);
-            let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
-            return self.parse_tabular_rows(
-                header.length,
-                header.delimiter,
-                &fields_refs,
-                row_indent,
-                header_line_no,
-            );
+            return self.parse_tabular_rows(header, fields, row_indent, header_line_no);
         }
 
         // If there are inline values, parse them
@@ -1060,12 +1037,30 @@ impl<'a> Parser<'a> {
     /// Parse tabular rows at the given indent level
     fn parse_tabular_rows(
         &mut self,
-        expected_count: usize,
-        delimiter: char,
-        fields: &[&str],
+        header: &ArrayHeader,
+        fields: &[String],
         row_indent: usize,
         header_line_no: usize,
     ) -> Value {
+        let expected_count = header.length;
+        let delimiter = header.delimiter;
+
+        if self.strict && self.error.is_none() {
+            // The fields must be separated by the delimiter the bracket declares
+            if header.fields_delimiter_mismatch {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: header_line_no,
+                    message: "mismatched delimiter between bracket and brace fields".to_string(),
+                });
+            } else if header.inline_values.as_ref().is_some_and(|v| !v.is_empty()) {
+                // Nothing but rows can follow, so text after the header would be lost
+                self.error = Some(crate::error::Error::Syntax {
+                    line: header_line_no,
+                    message: "unexpected text after tabular header".to_string(),
+                });
+            }
+        }
+
         let header_keys: Vec<String> = fields.iter().map(|f| self.parse_key_token(f)).collect();
         let expected_cells = header_keys.len();
 
-- 
2.43.0


From 83298f2be8e7c239a727bdfd03b7d78745e440ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 36/39] fix: decode into 128-bit integers

---
 crates/toon/src/de/direct.rs | 4 ++--
 crates/toon/src/de/mod.rs    | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index 915f83d..af64bbb 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -153,7 +153,7 @@ impl<'de, 'a> de::Deserializer<'de> for &mut DirectDeserializer<'a> {
     }
 
     serde::forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
         option unit unit_struct newtype_struct seq tuple tuple_struct map struct
         enum identifier ignored_any
     }
@@ -184,7 +184,7 @@ impl<'de> de::Deserializer<'de> for PrimDe {
         }
     }
     serde::forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
         option unit unit_struct newtype_struct seq tuple tuple_struct map struct
         enum identifier ignored_any
     }
diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 17779ad..d529702 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -136,7 +136,7 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     }
 
     serde::forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
         unit unit_struct seq tuple tuple_struct map struct ignored_any
     }
 }
@@ -212,10 +212,12 @@ impl<'de> de::Deserializer<'de> for MapKey {
         deserialize_i16 => visit_i16,
         deserialize_i32 => visit_i32,
         deserialize_i64 => visit_i64,
+        deserialize_i128 => visit_i128,
         deserialize_u8 => visit_u8,
         deserialize_u16 => visit_u16,
         deserialize_u32 => visit_u32,
         deserialize_u64 => visit_u64,
+        deserialize_u128 => visit_u128,
         deserialize_f32 => visit_f32,
         deserialize_f64 => visit_f64,
     }
-- 
2.43.0


From 2256221823d4607ce28e34289666195158aec6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 37/39] fix: encode 128-bit integers that fit 64 bits

---
 crates/toon/src/ser/mod.rs                 | 20 ++++++++++++++++++++
 crates/toon/src/ser/stream.rs              |  3 +++
 crates/toon/src/ser/value_builder.rs       |  1 +
 crates/toon/src/ser/value_builder_alloc.rs |  1 +
 4 files changed, 25 insertions(+)

diff --git a/crates/toon/src/ser/mod.rs b/crates/toon/src/ser/mod.rs
index ada284e..463c0dd 100644
--- a/crates/toon/src/ser/mod.rs
+++ b/crates/toon/src/ser/mod.rs
@@ -8,6 +8,26 @@ use crate::{Result, options::Options};
 #[cfg(feature = "serde")]
 use serde::Serialize;
 
+/// 128-bit integers for a serializer: those that fit 64 bits, and an error for the others.
+#[cfg(feature = "serde")]
+macro_rules! serialize_128_bit {
+    () => {
+        fn serialize_i128(self, v: i128) -> Result<Self::Ok, Self::Error> {
+            match (i64::try_from(v), u64::try_from(v)) {
+                (Ok(v), _) => self.serialize_i64(v),
+                (_, Ok(v)) => self.serialize_u64(v),
+                _ => Err(serde::ser::Error::custom("integer beyond 64 bits")),
+            }
+        }
+        fn serialize_u128(self, v: u128) -> Result<Self::Ok, Self::Error> {
+            match u64::try_from(v) {
+                Ok(v) => self.serialize_u64(v),
+                Err(_) => Err(serde::ser::Error::custom("integer beyond 64 bits")),
+            }
+        }
+    };
+}
+
 // serde_json Value-based builder is only available with feature "json"
 mod stream;
 #[cfg(all(feature = "serde", feature = "json"))]
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index eeeae1f..3408b5f 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -121,6 +121,7 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         self.w.line(self.indent, &v.to_string());
         Ok(())
     }
+    serialize_128_bit!();
     fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
         self.serialize_u64(v as u64)
     }
@@ -1573,6 +1574,7 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
         self.out = Some(v.to_string());
         Ok(())
     }
+    serialize_128_bit!();
     fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
         self.out = Some(v.to_string());
         Ok(())
@@ -1736,6 +1738,7 @@ impl Serializer for &mut KeySerializer {
         self.out = Some(v.to_string());
         Ok(())
     }
+    serialize_128_bit!();
     fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
         self.out = Some(v.to_string());
         Ok(())
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index df9a33d..28bfaa2 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -75,6 +75,7 @@ impl Serializer for &mut ValueSerializer {
     fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
         Ok(Value::Number(v.into()))
     }
+    serialize_128_bit!();
     fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
         Ok(Value::Number((v as u64).into()))
     }
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 22cfcef..1e146c3 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -63,6 +63,7 @@ impl Serializer for &mut ValueSerializer {
     fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
         Ok(Value::Number(Number::I64(v)))
     }
+    serialize_128_bit!();
     fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
         Ok(Value::Number(Number::U64(v as u64)))
     }
-- 
2.43.0


From d250757dc346c05b585e3e0bc6fa137e415541c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 38/39] fix: blanks before the colon do not belong to a field's
 key

---
 crates/toon/src/de/direct.rs     | 1 +
 crates/toon/src/decode/parser.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index af64bbb..df75d90 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -93,6 +93,7 @@ impl<'a> DirectDeserializer<'a> {
     }
 
     fn parse_key(&self, k: &str) -> String {
+        let k = trim_ascii(k);
         if let Some(s) = unescape_json_string(k) {
             return s;
         }
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index c17cdb8..73b94ec 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -144,6 +144,7 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_key_token_at_line(&mut self, k: &str, line_no: usize) -> String {
+        let k = trim_ascii(k);
         if k.starts_with('"') {
             match try_unescape_json_string(k) {
                 Ok(st) => {
-- 
2.43.0


From 627a350fd10df9eeca7be1f112d399abdd4a9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:42 +0000
Subject: [PATCH 39/39] fix: a line that starts with '@' and has a colon is a
 field like any other

---
 crates/toon/src/decode/scanner.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/crates/toon/src/decode/scanner.rs b/crates/toon/src/decode/scanner.rs
index 0697f00..2bdda75 100644
--- a/crates/toon/src/decode/scanner.rs
+++ b/crates/toon/src/decode/scanner.rs
@@ -140,14 +140,6 @@ pub fn scan<'a>(input: &'a str) -> Vec<ParsedLine<'a>> {
             });
             continue;
         }
-        if body.starts_with('@') {
-            // Table header line; treat entire line as scalar
-            out.push(ParsedLine {
-                indent,
-                kind: LineKind::Scalar(body),
-            });
-            continue;
-        }
         if let Some(idx) = find_unquoted_colon(body) {
             let (k, v) = body.split_at(idx);
             let after = &v[1..];
-- 
2.43.0

