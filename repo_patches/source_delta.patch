From d977bfce37def5ba51938460399eace7e8bcf527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 01/11] fix: resolve unions nested inside the alternatives of a
 union

The only alternative of a union was copied without collapsing it and without
its nullability, and unions inside object, map or array alternatives were left
in place, so they were merged or translated as an unknown type.
---
 src/ast.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index f350af5..ec04b90 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -97,36 +97,27 @@ impl Union {
     /// be consumed by the JSON type. In a similar fashion, a table schema is determined
     /// to be nullable or required via occurrences of null types in unions.
     pub fn collapse(&self) -> Tag {
-        let is_null = self.items.iter().any(Tag::is_null);
+        // resolve the unions nested anywhere inside of the alternatives
+        let mut items = self.items.clone();
+        items.iter_mut().for_each(Tag::collapse);
 
-        if self.items.is_empty() {
+        let is_null = items.iter().any(Tag::is_null);
+
+        if items.is_empty() {
             panic!("empty union is not allowed")
-        } else if self.items.len() == 1 {
+        } else if items.len() == 1 {
             return Tag {
                 name: None,
                 namespace: None,
-                nullable: is_null,
+                nullable: is_null || items[0].nullable,
                 is_root: false,
-                data_type: self.items[0].data_type.clone(),
+                data_type: items[0].data_type.clone(),
                 description: None,
                 title: None,
             };
         }
 
-        let items: Vec<Tag> = self
-            .items
-            .iter()
-            .filter(|x| !x.is_null())
-            .map(|x| {
-                if let Type::Union(union) = &x.data_type {
-                    let mut tag = union.collapse();
-                    tag.name = x.name.clone();
-                    tag
-                } else {
-                    x.clone()
-                }
-            })
-            .collect();
+        let items: Vec<Tag> = items.into_iter().filter(|x| !x.is_null()).collect();
 
         // after collapsing nulls in the base case and collapsing nested unions in
         // the pre-processing step, check for nullability based on the immediate level of tags
-- 
2.43.0


From 14ecfd4b7fcbe1a8c4540ff955c1d6cbf1ed7dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 02/11] fix: keep datetime and bytes when all alternatives
 agree

---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index ec04b90..d596965 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -136,6 +136,8 @@ impl Union {
                             | (Atom::Integer, Atom::Number)
                             | (Atom::Number, Atom::Integer) => Atom::Number,
                             (Atom::String, Atom::String) => Atom::String,
+                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,
+                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,
                             (lhs, rhs) => {
                                 trace!("Invalid union collapse of atoms {:?} and {:?}", lhs, rhs);
                                 Atom::Json
-- 
2.43.0


From 7b7fdf15c72552f0b358c7731e724b66c9b7b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 03/11] fix: merged fields are required only if every
 alternative requires them

An object without a required list requires nothing, so a union with it must
not require anything either.
---
 src/ast.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index d596965..29ffa40 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -183,7 +183,6 @@ impl Union {
                                     (Some(x), Some(y)) => {
                                         Some(x.intersection(y).map(ToString::to_string).collect())
                                     }
-                                    (Some(x), None) | (None, Some(x)) => Some(x.clone()),
                                     _ => None,
                                 };
                             Type::Object(Object::new(result, required))
-- 
2.43.0


From 1be7de7869ee1f81d53002a8a99617360c52ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 04/11] fix: keep the nullability of an optional tuple position
 with a union type

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 29ffa40..e078ba0 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -556,7 +556,7 @@ impl Tag {
             Type::Union(union) => {
                 let tag = union.collapse();
                 self.data_type = tag.data_type;
-                self.nullable = tag.nullable;
+                self.nullable |= tag.nullable;
             }
             _ => (),
         }
-- 
2.43.0


From 703338fb745ecabbd64109cb9624e9da8325a848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:13 +0000
Subject: [PATCH 05/11] fix: merge patternProperties in a fixed order

The merge of several alternatives depends on their order, which was the
iteration order of a HashMap.
---
 src/jsonschema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 5977f46..270a04d 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -1,7 +1,7 @@
 /// A JSON Schema serde module derived from the v4 spec.
 /// Refer to http://json-schema.org/draft-04/schema for spec details.
 use serde_json::{json, Value};
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use super::ast;
 use super::Context;
@@ -43,7 +43,7 @@ struct Object {
     #[serde(skip_serializing_if = "Option::is_none")]
     additional_properties: Option<AdditionalProperties>,
     #[serde(skip_serializing_if = "Option::is_none")]
-    pattern_properties: Option<HashMap<String, Box<Tag>>>,
+    pattern_properties: Option<BTreeMap<String, Box<Tag>>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     required: Option<HashSet<String>>,
 }
-- 
2.43.0


From 45f33bf7a629e64657162d8c666b0a086265839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 06/11] fix: rename properties in a fixed order

When two properties are normalized to the same name, the winner depended on
the iteration order of a HashMap.
---
 src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index e078ba0..2e66dd5 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -380,7 +380,8 @@ impl Tag {
     pub fn normalize_properties(&mut self, normalize_case: bool) {
         if let Type::Object(ref mut object) = self.data_type {
             let fields = &mut object.fields;
-            let keys: Vec<String> = fields.keys().cloned().collect();
+            let mut keys: Vec<String> = fields.keys().cloned().collect();
+            keys.sort();
 
             for key in keys {
                 // Replace property names with the normalized property name
-- 
2.43.0


From a1137af867c83494b641b8b06d86cd0b014b05a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 07/11] fix: omit properties without a valid name instead of
 panicking

The empty name, and with normalize_case a name of underscores only, made the
conversion panic.
---
 src/ast.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 2e66dd5..2ab8209 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -347,7 +347,7 @@ impl Tag {
 
     /// If a name starts with a number, prefix it with an underscore.
     fn normalize_numeric_prefix(name: String) -> String {
-        if name.chars().next().unwrap().is_numeric() {
+        if name.starts_with(char::is_numeric) {
             format!("_{}", name)
         } else {
             name
@@ -367,6 +367,19 @@ impl Tag {
         }
     }
 
+    /// Renames a valid column name to snake_case. A name without letters and
+    /// digits has no snake_case form.
+    fn normalize_name_case(name: &str) -> Option<String> {
+        // snake_casing strips symbols outside of word boundaries e.g.
+        // _64bit -> 64bit
+        let renamed = Tag::normalize_numeric_prefix(to_snake_case(name));
+        if renamed.is_empty() {
+            None
+        } else {
+            Some(renamed)
+        }
+    }
+
     /// Fix properties of an object to adhere the BigQuery column name
     /// specification.
     ///
@@ -385,14 +398,14 @@ impl Tag {
 
             for key in keys {
                 // Replace property names with the normalized property name
-                if let Some(mut renamed) = Tag::normalize_name_bigquery(&key) {
-                    renamed = if normalize_case {
-                        // snake_casing strips symbols outside of word
-                        // boundaries e.g. _64bit -> 64bit
-                        Tag::normalize_numeric_prefix(to_snake_case(&renamed))
+                let normalized = Tag::normalize_name_bigquery(&key).and_then(|renamed| {
+                    if normalize_case {
+                        Tag::normalize_name_case(&renamed)
                     } else {
-                        renamed
-                    };
+                        Some(renamed)
+                    }
+                });
+                if let Some(renamed) = normalized {
                     if renamed.as_str() != key.as_str() {
                         warn!("{} replaced with {}", key, renamed);
                         fields.insert(renamed, fields[&key].clone());
@@ -416,7 +429,7 @@ impl Tag {
                         Some(
                             renamed
                                 .iter()
-                                .map(|s| Tag::normalize_numeric_prefix(to_snake_case(s)))
+                                .filter_map(|s| Tag::normalize_name_case(s))
                                 .collect(),
                         )
                     } else {
-- 
2.43.0


From 0b907527ea3e630b37e1336ba5debe9e0b168f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:54 +0000
Subject: [PATCH 08/11] fix: wrap a repeated root that is only known after
 resolving unions

The root was tested before its unions were resolved, so the columns of the
items of a nullable array or map of records became the columns of the table.
---
 src/bigquery.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigquery.rs b/src/bigquery.rs
index d844498..f94a573 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -227,11 +227,11 @@ impl TranslateFrom<ast::Tag> for Schema {
     type Error = &'static str;
 
     fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {
-        let mut bq_tag = Tag::translate_from(tag.clone(), context).unwrap();
+        let mut bq_tag = Tag::translate_from(tag, context).unwrap();
         match *bq_tag.data_type {
             // Maps and arrays are both treated as a Record type with different
             // modes. These should not be extracted if they are the root-type.
-            Type::Record(_) if tag.is_array() || tag.is_map() => {
+            Type::Record(_) if matches!(bq_tag.mode, Mode::Repeated) => {
                 assert!(bq_tag.name.is_none());
                 bq_tag.name = Some(DEFAULT_COLUMN.into());
                 Ok(Schema::Root(vec![bq_tag]))
-- 
2.43.0


From c5839a6e5f972e6743bf3e85e41d00d8fbdd73b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:59 +0000
Subject: [PATCH 09/11] fix: anchor every alternative of the json object path
 pattern

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 591a434..2b35eae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ impl Context {
             .as_ref()
             .map(|object_regex| {
                 // Ensure we match from the beginning of the string
-                let re = format!(r"\A{}", object_regex);
+                let re = format!(r"\A(?:{})", object_regex);
                 let json_object_path_re = Regex::new(&re).unwrap();
                 json_object_path_re.is_match(fqn)
             })
-- 
2.43.0


From d8a6999c98dfc984425db33336acb5cf74f0d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 10/11] fix: give the list field of a nested array a null
 default when it is nullable

Every other nullable avro field has a null default; the field that wraps a
nested array had none, e.g. for an array of arrays with force_nullable.
---
 src/avro.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avro.rs b/src/avro.rs
index 388bfa9..5d7d86e 100644
--- a/src/avro.rs
+++ b/src/avro.rs
@@ -244,6 +244,11 @@ impl TranslateFrom<ast::Tag> for Type {
                                     fields: vec![Field {
                                         name: "list".into(),
                                         data_type,
+                                        default: if array.items.nullable {
+                                            Some(json!(null))
+                                        } else {
+                                            None
+                                        },
                                         ..Default::default()
                                     }],
                                 }))),
-- 
2.43.0


From 12431477757731470b4e26af4403e914c141eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 11/11] fix: forget the namespace inferred before a root union
 was resolved

---
 src/ast.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 2ab8209..f2446f1 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -444,9 +444,12 @@ impl Tag {
     /// Sets a tag with references to the name and the namespace.
     fn set_name(&mut self, name: &str, namespace: &str) {
         self.name = Some(name.to_string());
-        if !namespace.is_empty() {
-            self.namespace = Some(namespace.to_string());
-        }
+        // A namespace inferred before a union was resolved is out of date.
+        self.namespace = if namespace.is_empty() {
+            None
+        } else {
+            Some(namespace.to_string())
+        };
     }
 
     /// A helper function for calculating the names and namespaces within the
-- 
2.43.0

