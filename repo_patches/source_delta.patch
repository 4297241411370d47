From 072cd4eb6edfbe78084919cc500bf3d70b923506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 01/30] fix: zero-pad percent-encoded bytes below 0x10 in $ref
 names

---
 schemars/src/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index e7932d2..0bd82fc 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -27,7 +27,7 @@ pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
             } else if byte == b'/' {
                 buf.push_str("~1");
             } else if needs_encoding(byte) {
-                write!(buf, "%{byte:2X}").unwrap();
+                write!(buf, "%{byte:02X}").unwrap();
             } else {
                 buf.push(byte as char);
             }
-- 
2.43.0


From 25d6d5c1cebd6ec3b58d1cbaad838a9b151d1b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 02/30] fix: treat a % followed by a sign and a digit as a
 literal % when percent-decoding

---
 schemars/src/encoding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index 0bd82fc..a211126 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -52,6 +52,8 @@ pub fn percent_decode(s: &str) -> Option<Cow<'_, str>> {
         for segment in segments {
             if let Some(decoded_byte) = segment
                 .get(0..2)
+                // `from_str_radix` would otherwise accept a leading `+`
+                .filter(|p| p.bytes().all(|b| b.is_ascii_hexdigit()))
                 .and_then(|p| u8::from_str_radix(p, 16).ok())
             {
                 buf.push(decoded_byte);
-- 
2.43.0


From bb16e0531a3b052f06d395dce8de74f6c75d692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:41 +0000
Subject: [PATCH 03/30] fix: keep the names assigned to definitions when
 cloning a SchemaGenerator

---
 schemars/src/generate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 35dc261..a556be8 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -254,8 +254,8 @@ impl Clone for SchemaGenerator {
             settings: self.settings.clone(),
             definitions: self.definitions.clone(),
             pending_schema_ids: BTreeSet::new(),
-            schema_id_to_name: BTreeMap::new(),
-            used_schema_names: BTreeSet::new(),
+            schema_id_to_name: self.schema_id_to_name.clone(),
+            used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
         }
     }
-- 
2.43.0


From 38ed13c7112be300a4c14c0e1f9e3cc5d8533afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 04/30] fix: add definitions to the root of the schema when
 definitions_path is empty

---
 schemars/src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index a556be8..3da4b29 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -629,10 +629,10 @@ fn json_pointer_mut<'a>(
 ) -> Option<&'a mut JsonMap<String, Value>> {
     use serde_json::map::Entry;
 
-    let pointer = pointer.strip_prefix('/')?;
     if pointer.is_empty() {
         return Some(object);
     }
+    let pointer = pointer.strip_prefix('/')?;
 
     for mut segment in pointer.split('/') {
         let replaced: String;
-- 
2.43.0


From 16b1b44b66ed28abb8c0ed1b414fb0ba12a6072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:41 +0000
Subject: [PATCH 05/30] fix: don't re-use definitions containing "$ref": "#" in
 later root schemas

---
 schemars/src/generate.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 3da4b29..6fcafa3 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -240,6 +240,9 @@ pub struct SchemaGenerator {
     // It's unlikely that `root_schema_id_stack` will ever contain more than one item, but it is
     // possible, e.g. if a `json_schema()` implementation calls `generator.root_schema_for<...>()`
     root_schema_id_stack: Vec<SchemaUid>,
+    // Whether any `"$ref": "#"` schema has been created for the last item of
+    // `root_schema_id_stack`
+    has_root_ref: bool,
 }
 
 impl Default for SchemaGenerator {
@@ -257,6 +260,7 @@ impl Clone for SchemaGenerator {
             schema_id_to_name: self.schema_id_to_name.clone(),
             used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
+            has_root_ref: false,
         }
     }
 }
@@ -278,6 +282,7 @@ impl SchemaGenerator {
             schema_id_to_name: BTreeMap::new(),
             used_schema_names: BTreeSet::new(),
             root_schema_id_stack: Vec::new(),
+            has_root_ref: false,
         }
     }
 
@@ -327,6 +332,7 @@ impl SchemaGenerator {
             }
 
             if this.root_schema_id_stack.last() == Some(uid) {
+                this.has_root_ref = true;
                 return Some(FindRef {
                     schema: Schema::new_ref("#".to_owned()),
                     name_to_be_inserted: None,
@@ -450,6 +456,8 @@ impl SchemaGenerator {
     pub fn root_schema_for<T: ?Sized + JsonSchema>(&mut self) -> Schema {
         let schema_uid = self.schema_uid::<T>();
         self.root_schema_id_stack.push(schema_uid.clone());
+        let outer_has_root_ref = core::mem::take(&mut self.has_root_ref);
+        let outer_definitions: BTreeSet<String> = self.definitions.keys().cloned().collect();
 
         let mut schema = self.json_schema_internal::<T>(&schema_uid);
 
@@ -468,6 +476,14 @@ impl SchemaGenerator {
 
         self.root_schema_id_stack.pop();
 
+        if self.has_root_ref {
+            // Some of the new definitions may contain a `"$ref": "#"`, which would have a different
+            // meaning in any other root schema, so don't re-use them.
+            self.definitions
+                .retain(|name, _| outer_definitions.contains(name));
+        }
+        self.has_root_ref = outer_has_root_ref;
+
         schema
     }
 
-- 
2.43.0


From bca7e4153afb48209dfeb0d9b7031a4d50bebc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 06/30] fix: visit unevaluatedProperties, unevaluatedItems,
 contentSchema, dependentSchemas and dependencies in transform_subschemas

---
 schemars/src/transform.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index eb3e8ca..d910868 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -156,7 +156,10 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
             | "contains"
             | "additionalProperties"
             | "propertyNames"
-            | "additionalItems" => {
+            | "additionalItems"
+            | "unevaluatedProperties"
+            | "unevaluatedItems"
+            | "contentSchema" => {
                 if let Ok(subschema) = value.try_into() {
                     t.transform(subschema);
                 }
@@ -183,7 +186,10 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
                     t.transform(subschema);
                 }
             }
-            "properties" | "patternProperties" | "$defs" | "definitions" => {
+            // Any array values in `dependencies` (dropped in draft 2019-09) are not subschemas, and are
+            // left unchanged
+            "properties" | "patternProperties" | "$defs" | "definitions" | "dependentSchemas"
+            | "dependencies" => {
                 if let Some(obj) = value.as_object_mut() {
                     for value in obj.values_mut() {
                         if let Ok(subschema) = value.try_into() {
-- 
2.43.0


From 0320c58de4ed73f90b33e61d9359952b7a8c4061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:28 +0000
Subject: [PATCH 07/30] fix: replace bool schemas nested inside an
 additionalProperties schema when skip_additional_properties is set

---
 schemars/src/transform.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index d910868..1c8e40f 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -296,7 +296,9 @@ pub struct ReplaceBoolSchemas {
 impl Transform for ReplaceBoolSchemas {
     fn transform(&mut self, schema: &mut Schema) {
         if let Some(obj) = schema.as_object_mut() {
-            if self.skip_additional_properties {
+            if self.skip_additional_properties
+                && obj.get("additionalProperties").is_some_and(Value::is_boolean)
+            {
                 if let Some((ap_key, ap_value)) = obj.remove_entry("additionalProperties") {
                     transform_subschemas(self, schema);
 
-- 
2.43.0


From de6f001c256b490a961818fec5b5a4faae726046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 08/30] fix: don't remove formats in RestrictFormats when the
 JSON Schema version can't be inferred

---
 schemars/src/transform.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 1c8e40f..78c8dbe 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -697,7 +697,11 @@ impl Transform for RestrictFormatsImpl<'_> {
         }
 
         if let Some(format) = obj.get("format").and_then(Value::as_str) {
-            if !self.allowed_formats.contains(format)
+            // if the JSON Schema version couldn't be inferred, then no formats are removed
+            let can_restrict = !self.infer_from_meta_schema || self.inferred_formats.is_some();
+
+            if can_restrict
+                && !self.allowed_formats.contains(format)
                 && !self
                     .inferred_formats
                     .is_some_and(|formats| formats.contains(&format))
-- 
2.43.0


From 3727c0f3efc80b4c7b389324f6a43c785adc79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 09/30] fix: make Option schemas allow null (and only add null)
 when the inner schema has "not" or "const": null

---
 schemars/src/_private/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 1f2173c..a66c25f 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -461,14 +461,14 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
                 return;
             }
 
-            if contains_immediate_subschema(obj) {
+            if contains_immediate_subschema(obj) || obj.contains_key("not") {
                 *schema = json_schema!({
                     "anyOf": [
                         obj,
                         <()>::json_schema(generator)
                     ]
                 });
-                // No need to check `type`/`const`/`enum` because they're trivially not present
+                // The `anyOf` already allows null, so `type`/`const`/`enum` must be left as they are
                 return;
             }
 
@@ -490,8 +490,9 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
                 }
             }
 
-            if let Some(c) = obj.remove("const") {
+            if let Some(c) = obj.get("const").cloned() {
                 if !c.is_null() {
+                    obj.remove("const");
                     obj.insert("enum".to_string(), Value::Array(vec![c, Value::Null]));
                 }
             } else if let Some(Value::Array(e)) = obj.get_mut("enum") {
-- 
2.43.0


From 8b7a8872428cfe7a9f2b2af46c1ac8cfb6e84c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:59 +0000
Subject: [PATCH 10/30] fix: treat newtype variants with a skipped field as
 unit variants, like serde does

---
 schemars_derive/src/ast/from_serde.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/ast/from_serde.rs b/schemars_derive/src/ast/from_serde.rs
index 7b18ed2..52425b1 100644
--- a/schemars_derive/src/ast/from_serde.rs
+++ b/schemars_derive/src/ast/from_serde.rs
@@ -63,10 +63,20 @@ impl<'a> FromSerde for Variant<'a> {
     type SerdeType = serde_ast::Variant<'a>;
 
     fn from_serde(errors: &Ctxt, serde: Self::SerdeType) -> Self {
+        // Serde treats a newtype variant as a unit variant if its field is skipped
+        let style = match (serde.style, serde.fields.as_slice()) {
+            (serde_ast::Style::Newtype, [field])
+                if field.attrs.skip_serializing() && field.attrs.skip_deserializing() =>
+            {
+                serde_ast::Style::Unit
+            }
+            (style, _) => style,
+        };
+
         Self {
             ident: serde.ident,
             serde_attrs: serde.attrs,
-            style: serde.style,
+            style,
             fields: Field::vec_from_serde(errors, serde.fields),
             original: serde.original,
             attrs: VariantAttrs::new(&serde.original.attrs, errors),
-- 
2.43.0


From 8672dc10e036a8795f17246fe3f4c9f2d25bb787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:36 +0000
Subject: [PATCH 11/30] fix: inline internally tagged newtype variants that
 restrict additional properties with a schema

---
 schemars/src/_private/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index a66c25f..837d246 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -23,20 +23,22 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     // - The generator settings specify that all schemas should be inlined
     // - The inner type is a unit struct, which would cause an unsatisfiable schema due to mismatched `type`.
     //    In this case, we replace its type with "object" in `apply_internal_enum_variant_tag`
-    // - The inner schema specified `"additionalProperties": false` or `"unevaluatedProperties": false`,
-    //    since that would disallow the variant tag. If additional/unevaluatedProperties is in the top-level
-    //    schema, then we can leave it there, because it will "see" the variant tag property. But if it is
-    //    nested e.g. in an `allOf`, then it must be removed, which is why we run `AllowUnknownProperties`
-    //    but only on immediate subschemas.
+    // - The inner schema restricts `additionalProperties` or `unevaluatedProperties` (e.g. to `false`, or to
+    //    the value schema of a flattened map), since that could disallow the variant tag. If it's in the
+    //    top-level schema, then we can leave it there, because it will "see" the variant tag property. But if
+    //    it is `false` and nested e.g. in an `allOf`, then it must be removed, which is why we run
+    //    `AllowUnknownProperties` but only on immediate subschemas.
 
     let mut transform = AllowUnknownProperties::default();
     transform_immediate_subschemas(&mut transform, &mut schema);
 
+    let restricts_other_properties = |key| schema.get(key).is_some_and(|s| *s != true);
+
     if T::inline_schema()
         || generator.settings().inline_subschemas
         || schema.get("type").and_then(Value::as_str) == Some("null")
-        || schema.get("additionalProperties").and_then(Value::as_bool) == Some(false)
-        || schema.get("unevaluatedProperties").and_then(Value::as_bool) == Some(false)
+        || restricts_other_properties("additionalProperties")
+        || restricts_other_properties("unevaluatedProperties")
         || transform.did_modify
     {
         return schema;
-- 
2.43.0


From 03161410cb4ece3a3a8f0c60c659006e8a07c558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:43 +0000
Subject: [PATCH 12/30] fix: keep the $ref of every flattened field

---
 schemars/src/_private/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 837d246..78311d6 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -378,7 +378,7 @@ pub fn flatten(schema: &mut Schema, other: Schema) {
                             }
                         }
                     }
-                    "oneOf" | "anyOf" => {
+                    "oneOf" | "anyOf" | "$ref" => {
                         let (key, current) = occupied.remove_entry();
                         flatten_property(
                             obj1,
-- 
2.43.0


From 404cdb61455d9ae922d4e561cd2c570e69db7da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:09 +0000
Subject: [PATCH 13/30] fix: don't use an outer root's "$ref": "#" definitions
 in a nested root schema

---
 schemars/src/generate.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 6fcafa3..a5b4685 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -457,7 +457,13 @@ impl SchemaGenerator {
         let schema_uid = self.schema_uid::<T>();
         self.root_schema_id_stack.push(schema_uid.clone());
         let outer_has_root_ref = core::mem::take(&mut self.has_root_ref);
-        let outer_definitions: BTreeSet<String> = self.definitions.keys().cloned().collect();
+        let outer_definitions = self.definitions.clone();
+
+        if outer_has_root_ref {
+            // Some of the existing definitions may contain a `"$ref": "#"` to the outer root schema,
+            // so only keep the placeholders of those that are still being generated.
+            self.definitions.retain(|_, schema| *schema == false);
+        }
 
         let mut schema = self.json_schema_internal::<T>(&schema_uid);
 
@@ -476,11 +482,13 @@ impl SchemaGenerator {
 
         self.root_schema_id_stack.pop();
 
-        if self.has_root_ref {
-            // Some of the new definitions may contain a `"$ref": "#"`, which would have a different
-            // meaning in any other root schema, so don't re-use them.
-            self.definitions
-                .retain(|name, _| outer_definitions.contains(name));
+        let new_definitions = core::mem::replace(&mut self.definitions, outer_definitions);
+        if !self.has_root_ref {
+            // Otherwise, some of the new definitions may contain a `"$ref": "#"`, which would have a
+            // different meaning in any other root schema, so don't re-use them.
+            for (name, schema) in new_definitions {
+                self.definitions.entry(name).or_insert(schema);
+            }
         }
         self.has_root_ref = outer_has_root_ref;
 
-- 
2.43.0


From 2b1a42a11225d0acbf7f6b82c2ac3ef5bbedd305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:34 +0000
Subject: [PATCH 14/30] fix: describe the tag of a struct with #[serde(tag)]
 when serializing

---
 schemars_derive/src/schema_exprs.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 384affb..3c64652 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -73,12 +73,26 @@ pub fn expr_for_container(cont: &Container) -> SchemaExpr {
             Data::Struct(Style::Unit, _) => expr_for_unit_struct(),
             Data::Struct(Style::Newtype, fields) => expr_for_newtype_struct(cont, &fields[0]),
             Data::Struct(Style::Tuple, fields) => expr_for_tuple_struct(cont, fields),
-            Data::Struct(Style::Struct, fields) => expr_for_struct(
-                cont,
-                fields,
-                cont.serde_attrs.default(),
-                cont.serde_attrs.deny_unknown_fields(),
-            ),
+            Data::Struct(Style::Struct, fields) => {
+                let mut schema_expr = expr_for_struct(
+                    cont,
+                    fields,
+                    cont.serde_attrs.default(),
+                    cont.serde_attrs.deny_unknown_fields(),
+                );
+
+                // The tag of a struct is only written when serializing, it's not read when
+                // deserializing
+                if let TagType::Internal { tag } = cont.serde_attrs.tag() {
+                    schema_expr.mutators.push(quote! {
+                        if #GENERATOR.contract().is_serialize() {
+                            schemars::_private::insert_object_property(&mut #SCHEMA, #tag, false, schemars::json_schema!({ "type": "string" }));
+                        }
+                    });
+                }
+
+                schema_expr
+            }
             Data::Enum(variants) => expr_for_enum(cont, variants, &cont.serde_attrs),
         };
 
-- 
2.43.0


From ec691d0f76c55f43095a1a08e598ea7c1861e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:31 +0000
Subject: [PATCH 15/30] fix: keep not, if/then/else and dependentRequired of
 every flattened field

---
 schemars/src/_private/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 78311d6..9793732 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -371,7 +371,8 @@ pub fn flatten(schema: &mut Schema, other: Schema) {
                             }
                         }
                     }
-                    "properties" | "patternProperties" => {
+                    "properties" | "patternProperties" | "dependentRequired"
+                    | "dependentSchemas" => {
                         if let Value::Object(o1) = occupied.into_mut() {
                             if let Value::Object(o2) = value2 {
                                 o1.extend(o2);
@@ -421,6 +422,20 @@ pub fn flatten(schema: &mut Schema, other: Schema) {
             normalise_additional_unevaluated_properties(obj1, &obj2);
             normalise_additional_unevaluated_properties(&mut obj2, obj1);
 
+            // `not` and `if`/`then`/`else` only have the same meaning if they're kept apart from those
+            // of the other schema
+            for keywords in [&["not"][..], &["if", "then", "else"]] {
+                if keywords.iter().any(|k| obj1.contains_key(*k)) {
+                    let conflicting: Map<String, Value> = keywords
+                        .iter()
+                        .filter_map(|k| obj2.remove_entry(*k))
+                        .collect();
+                    if !conflicting.is_empty() {
+                        flatten_property(obj1, "allOf".to_owned(), json!([conflicting]));
+                    }
+                }
+            }
+
             for (key, value2) in obj2 {
                 flatten_property(obj1, key, value2);
             }
-- 
2.43.0


From a4ab71538ea3f72196171ec77af5a01101c92354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:51 +0000
Subject: [PATCH 16/30] fix: restrict map keys also when the name of the key's
 definition needs encoding

---
 schemars/src/json_schema_impls/maps.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index da5a847..35606b0 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -1,4 +1,5 @@
 use crate::_alloc_prelude::*;
+use crate::encoding::encode_ref_name;
 use crate::{json_schema, JsonSchema, Schema, SchemaGenerator};
 use alloc::borrow::Cow;
 use alloc::collections::{BTreeMap, BTreeSet};
@@ -61,8 +62,11 @@ where
                 .get("$ref")
                 .and_then(Value::as_str)
                 .and_then(|r| r.strip_prefix(&prefix))
-                .and_then(|r| generator.definitions().get(r))
-                .and_then(Value::as_object)
+                .and_then(|r| {
+                    let mut definitions = generator.definitions().iter();
+                    definitions.find(|(name, _)| encode_ref_name(name) == r)
+                })
+                .and_then(|(_, definition)| definition.as_object())
             {
                 *option = d;
             }
-- 
2.43.0


From 5ce59377761a9cd03fc44c39d12c99acc0c0464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 17/30] fix: include type params of schema_with functions in
 the schema id

---
 schemars_derive/src/bound.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index 77dc951..f2597be 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -119,8 +119,12 @@ impl FindTyParams<'_> {
     fn visit_field(&mut self, field: &Field) {
         match &field.attrs.with {
             Some(WithAttr::Type(ty)) => self.visit_type(field, ty),
-            Some(WithAttr::Function(_)) => {
-                // `schema_with` function type params may or may not implement `JsonSchema`
+            Some(WithAttr::Function(path)) => {
+                // `schema_with` function type params may or may not implement `JsonSchema`, but the
+                // schema can still depend on them
+                let type_params_for_bound = self.type_params_for_bound.clone();
+                self.visit_path(field, path);
+                self.type_params_for_bound = type_params_for_bound;
             }
             None => self.visit_type(field, &field.original.ty),
         }
-- 
2.43.0


From eba6935d672d078609d05d09fad47ef20a3830c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:29 +0000
Subject: [PATCH 18/30] fix: separate generic arguments in schema ids

---
 schemars_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index a61d4b5..28a8905 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -132,7 +132,7 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
                     ::core::concat!(
                         ::core::module_path!(),
                         "::{}<",
-                        #(#format_string_braces,)*
+                        #(#format_string_braces, ", ",)*
                         ">"
                     ),
                     #name,
-- 
2.43.0


From 3ec694da78235b8f3c2050a7ff3b0374cd86e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:29 +0000
Subject: [PATCH 19/30] fix: give ArrayVec a schema id

---
 schemars/src/json_schema_impls/arrayvec07.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemars/src/json_schema_impls/arrayvec07.rs b/schemars/src/json_schema_impls/arrayvec07.rs
index fc72777..e69c677 100644
--- a/schemars/src/json_schema_impls/arrayvec07.rs
+++ b/schemars/src/json_schema_impls/arrayvec07.rs
@@ -17,6 +17,10 @@ where
         format!("Array_up_to_size_{}_of_{}", CAP, T::schema_name()).into()
     }
 
+    fn schema_id() -> alloc::borrow::Cow<'static, str> {
+        format!("arrayvec::ArrayVec<{}, {}>", T::schema_id(), CAP).into()
+    }
+
     fn json_schema(generator: &mut SchemaGenerator) -> Schema {
         json_schema!({
             "type": "array",
-- 
2.43.0


From 57928bef1546da652e757dfa71f7f48ccda78443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:10 +0000
Subject: [PATCH 20/30] fix: unescape map keys when inferring a schema from a
 value

---
 schemars/src/ser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index 81457c7..a25aebf 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -388,11 +388,8 @@ impl serde::ser::SerializeMap for SerializeMap<'_> {
         // FIXME this is too lenient - we should return an error if serde_json
         // doesn't allow T to be a key of a map.
         let json = serde_json::to_string(key)?;
-        self.current_key = Some(
-            json.trim_start_matches('"')
-                .trim_end_matches('"')
-                .to_string(),
-        );
+        // Keys that aren't already strings (e.g. integers) are used in their serialized form
+        self.current_key = Some(serde_json::from_str(&json).unwrap_or(json));
 
         Ok(())
     }
-- 
2.43.0


From dcb24e80aa4017351010321bf2515f3af0fb40d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:10 +0000
Subject: [PATCH 21/30] fix: infer schema of non-finite numbers as that of null

---
 schemars/src/ser.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index a25aebf..fd95bb4 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -67,8 +67,21 @@ impl<'a> serde::Serializer for Serializer<'a> {
     return_instance_type!(serialize_u32, u32, "integer");
     return_instance_type!(serialize_u64, u64, "integer");
     return_instance_type!(serialize_u128, u128, "integer");
-    return_instance_type!(serialize_f32, f32, "number");
-    return_instance_type!(serialize_f64, f64, "number");
+
+    fn serialize_f32(self, value: f32) -> Result<Self::Ok, Self::Error> {
+        self.serialize_f64(value.into())
+    }
+
+    fn serialize_f64(self, value: f64) -> Result<Self::Ok, Self::Error> {
+        if !value.is_finite() {
+            // Non-finite numbers are serialized as null
+            return self.serialize_none();
+        }
+
+        Ok(json_schema!({
+            "type": "number"
+        }))
+    }
 
     forward_to_subschema_for!(serialize_bool, bool);
     forward_to_subschema_for!(serialize_char, char);
-- 
2.43.0


From 06f23ec996f8575ca53e6a0b479a1d9329153f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:10 +0000
Subject: [PATCH 22/30] fix: omit empty prefixItems from schemas inferred from
 values

---
 schemars/src/ser.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index fd95bb4..96a827f 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -359,11 +359,16 @@ impl serde::ser::SerializeTuple for SerializeTuple<'_> {
         let len = self.items.len();
         let mut schema = json_schema!({
             "type": "array",
-            "prefixItems": self.items,
-            "maxItems": len,
-            "minItems": len,
         });
 
+        // `prefixItems` must not be empty
+        if len > 0 {
+            schema.insert("prefixItems".into(), self.items.into());
+        }
+
+        schema.insert("maxItems".into(), len.into());
+        schema.insert("minItems".into(), len.into());
+
         if !self.title.is_empty() {
             schema
                 .ensure_object()
-- 
2.43.0


From e60357b6109b9ab43c1563877f12029b806005b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:37 +0000
Subject: [PATCH 23/30] fix: infer schema of serde_json's RawValue as allowing
 any value

---
 schemars/src/ser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index 96a827f..c78c78d 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -25,6 +25,7 @@ pub(crate) struct SerializeMap<'a> {
     properties: Map<String, Value>,
     current_key: Option<String>,
     title: &'static str,
+    raw_value: bool,
 }
 
 macro_rules! forward_to_subschema_for {
@@ -236,6 +237,7 @@ impl<'a> serde::Serializer for Serializer<'a> {
             properties: Map::new(),
             current_key: None,
             title: "",
+            raw_value: false,
         })
     }
 
@@ -250,6 +252,8 @@ impl<'a> serde::Serializer for Serializer<'a> {
             properties: Map::new(),
             current_key: None,
             title,
+            // The name used by `serde_json::value::RawValue`, which may contain any value
+            raw_value: name == "$serde_json::private::RawValue",
         })
     }
 
@@ -460,6 +464,10 @@ impl serde::ser::SerializeStruct for SerializeMap<'_> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        if self.raw_value {
+            return Ok(self.generator.subschema_for::<Value>());
+        }
+
         serde::ser::SerializeMap::end(self)
     }
 }
-- 
2.43.0


From 09f488f8206ead97da916b7fcd6a4ce70f981139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:06 +0000
Subject: [PATCH 24/30] fix: escape only regex syntax characters in patterns
 for `contains`

---
 schemars/src/_private/regex_syntax.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schemars/src/_private/regex_syntax.rs b/schemars/src/_private/regex_syntax.rs
index 23b67ca..014d229 100644
--- a/schemars/src/_private/regex_syntax.rs
+++ b/schemars/src/_private/regex_syntax.rs
@@ -47,8 +47,10 @@ fn escape_into(text: &str, buf: &mut String) {
 
 fn is_meta_character(c: char) -> bool {
     match c {
-        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$'
-        | '#' | '&' | '-' | '~' => true,
+        // Unlike `regex_syntax`, this does not include '#', '&', '-' or '~', because they only have a
+        // special meaning in character classes or verbose mode, and escaping them is a syntax error
+        // in ECMA-262 regular expressions with the `u` flag
+        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' => true,
         _ => false,
     }
 }
-- 
2.43.0


From 9bbbd53d2a85e4cebe72fcd5e4f55f4caf2bcd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:44 +0000
Subject: [PATCH 25/30] fix: do not list a property more than once in required

---
 schemars/src/_private/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 9793732..fb2095a 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -289,6 +289,7 @@ pub fn apply_internal_enum_variant_tag(
         .or_insert(Value::Array(Vec::new()))
         .as_array_mut()
     {
+        required.retain(|r| r != tag_name);
         required.insert(0, tag_name.into());
     }
 
@@ -318,7 +319,9 @@ pub fn insert_object_property(
             .or_insert(Value::Array(Vec::new()))
             .as_array_mut()
         {
-            req.push(key.into());
+            if !req.iter().any(|r| r == key) {
+                req.push(key.into());
+            }
         }
     }
 }
@@ -364,7 +367,18 @@ pub fn flatten(schema: &mut Schema, other: Schema) {
             }
             Entry::Occupied(occupied) => {
                 match occupied.key().as_str() {
-                    "required" | "allOf" => {
+                    "required" => {
+                        if let Value::Array(a1) = occupied.into_mut() {
+                            if let Value::Array(a2) = value2 {
+                                for r in a2 {
+                                    if !a1.contains(&r) {
+                                        a1.push(r);
+                                    }
+                                }
+                            }
+                        }
+                    }
+                    "allOf" => {
                         if let Value::Array(a1) = occupied.into_mut() {
                             if let Value::Array(a2) = value2 {
                                 a1.extend(a2);
-- 
2.43.0


From 3190ea2b82202e08ae62d5f48dedc7a1adc8be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 26/30] fix: generate a false schema for enums without any
 variants in the contract

---
 schemars_derive/src/schema_exprs.rs | 60 ++++++++++++++++-------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 3c64652..4bbbe7f 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -300,17 +300,19 @@ fn expr_for_external_tagged_enum<'a>(
         })
     });
     let unit_schema = SchemaExpr::from(quote!({
-        let mut map = schemars::_private::serde_json::Map::new();
-        map.insert("type".into(), "string".into());
-        map.insert(
-            "enum".into(),
-            schemars::_private::serde_json::Value::Array({
-                let mut enum_values = schemars::_private::alloc::vec::Vec::new();
-                #(#add_unit_names)*
-                enum_values
-            }),
-        );
-        schemars::Schema::from(map)
+        let mut enum_values = schemars::_private::alloc::vec::Vec::new();
+        #(#add_unit_names)*
+        if enum_values.is_empty() {
+            schemars::Schema::from(false)
+        } else {
+            let mut map = schemars::_private::serde_json::Map::new();
+            map.insert("type".into(), "string".into());
+            map.insert(
+                "enum".into(),
+                schemars::_private::serde_json::Value::Array(enum_values),
+            );
+            schemars::Schema::from(map)
+        }
     }));
 
     if complex_variants.is_empty() {
@@ -496,25 +498,31 @@ fn variant_subschemas(
             schema = enum_ref_variants(cont, variant, schema);
         }
 
-        let add = quote! {
-            enum_values.push(#schema.to_value());
-        };
         match variant {
-            Some(v) => v.with_contract_check(add),
-            None => add,
+            Some(v) => v.with_contract_check(quote! {
+                enum_values.push(#schema.to_value());
+            }),
+            None => quote! {
+                let unit_variants = #schema;
+                if unit_variants != false {
+                    enum_values.push(unit_variants.to_value());
+                }
+            },
         }
     });
     quote!({
-        let mut map = schemars::_private::serde_json::Map::new();
-        map.insert(
-            #keyword.into(),
-            schemars::_private::serde_json::Value::Array({
-                let mut enum_values = schemars::_private::alloc::vec::Vec::new();
-                #(#add_schemas)*
-                enum_values
-            }),
-        );
-        schemars::Schema::from(map)
+        let mut enum_values = schemars::_private::alloc::vec::Vec::new();
+        #(#add_schemas)*
+        if enum_values.is_empty() {
+            schemars::Schema::from(false)
+        } else {
+            let mut map = schemars::_private::serde_json::Map::new();
+            map.insert(
+                #keyword.into(),
+                schemars::_private::serde_json::Value::Array(enum_values),
+            );
+            schemars::Schema::from(map)
+        }
     })
     .into()
 }
-- 
2.43.0


From c3e129ed25b1dfd4ec90d77783cba766453e6aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:03 +0000
Subject: [PATCH 27/30] fix: rc::Weak and sync::Weak are (de)serialized as an
 Option, so their schema must allow null

---
 schemars/src/json_schema_impls/wrapper.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/schemars/src/json_schema_impls/wrapper.rs b/schemars/src/json_schema_impls/wrapper.rs
index ea09504..8bc7404 100644
--- a/schemars/src/json_schema_impls/wrapper.rs
+++ b/schemars/src/json_schema_impls/wrapper.rs
@@ -11,9 +11,7 @@ wrapper_impl!(<'a, T: ?Sized> JsonSchema for &'a T);
 wrapper_impl!(<'a, T: ?Sized> JsonSchema for &'a mut T);
 wrapper_impl!(<T: ?Sized> JsonSchema for Box<T>);
 wrapper_impl!(<T: ?Sized> JsonSchema for alloc::rc::Rc<T>);
-wrapper_impl!(<T: ?Sized> JsonSchema for alloc::rc::Weak<T>);
 wrapper_impl!(<T: ?Sized> JsonSchema for alloc::sync::Arc<T>);
-wrapper_impl!(<T: ?Sized> JsonSchema for alloc::sync::Weak<T>);
 #[cfg(feature = "std")]
 wrapper_impl!(<T: ?Sized> JsonSchema for std::sync::Mutex<T>);
 #[cfg(feature = "std")]
@@ -23,3 +21,13 @@ wrapper_impl!(<T: ?Sized> JsonSchema for core::cell::RefCell<T>);
 wrapper_impl!(<'a, T: ?Sized + ToOwned> JsonSchema for alloc::borrow::Cow<'a, T>);
 wrapper_impl!(<T> JsonSchema for core::num::Wrapping<T>);
 wrapper_impl!(<T> JsonSchema for core::cmp::Reverse<T>);
+
+// A weak reference is (de)serialized like an `Option`, because it may not refer to a value any more
+macro_rules! weak_impl {
+    ($ty:ty) => {
+        forward_impl!((<T: ?Sized + JsonSchema> JsonSchema for $ty) => Option<Box<T>>);
+    };
+}
+
+weak_impl!(alloc::rc::Weak<T>);
+weak_impl!(alloc::sync::Weak<T>);
-- 
2.43.0


From 080e60a6af42ded89068a79299b8d5ee5ce88aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:14 +0000
Subject: [PATCH 28/30] fix: a rename of a transparent type, or one with
 another type's schema, gives its schema's name

---
 schemars_derive/src/ast/mod.rs | 5 +++++
 schemars_derive/src/lib.rs     | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/ast/mod.rs b/schemars_derive/src/ast/mod.rs
index bf41572..b71a826 100644
--- a/schemars_derive/src/ast/mod.rs
+++ b/schemars_derive/src/ast/mod.rs
@@ -7,6 +7,7 @@ use proc_macro2::TokenStream;
 use serde_derive_internals::ast as serde_ast;
 use serde_derive_internals::{Ctxt, Derive};
 use std::collections::BTreeSet;
+use syn::ext::IdentExt;
 
 pub struct Container<'a> {
     pub ident: syn::Ident,
@@ -69,6 +70,10 @@ impl<'a> Container<'a> {
         self.attrs.common.add_mutators(mutators);
     }
 
+    pub fn is_renamed(&self) -> bool {
+        self.serde_attrs.name().deserialize_name() != self.ident.unraw().to_string()
+    }
+
     pub fn name(&'a self) -> std::borrow::Cow<'a, str> {
         if self.attrs.rename_format_string.is_none() {
             if let Some(remote_name) = self.serde_attrs.remote().and_then(|r| r.segments.last()) {
diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index 28a8905..614402a 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -181,7 +181,11 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
 fn get_transparent_type<'a>(cont: &'a Container) -> Option<&'a syn::Type> {
     // If any schemars attributes for setting metadata (e.g. description) are present, then
     // it's not fully transparent, so use the normal `schema_exprs::expr_for_container`
-    // implementation (which always treats the struct as a newtype if it has `transparent`)
+    // implementation (which always treats the struct as a newtype if it has `transparent`).
+    // The same goes for an explicit name, which is not that of the inner type.
+    if cont.is_renamed() {
+        return None;
+    }
 
     if let Some(attr::WithAttr::Type(ty)) = &cont.attrs.with {
         if cont.attrs.common.is_default() {
-- 
2.43.0


From 38b116d377c71ad295e2accb3c9f05aac49790df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:14 +0000
Subject: [PATCH 29/30] fix: a type that is deserialized as an Option may be
 missing, also if it has a description or is converted

---
 schemars_derive/src/lib.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index 614402a..32812a5 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -151,6 +151,15 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
 
     let inline = cont.attrs.inline;
 
+    // A field of this type may be missing if that's the case for the type it is deserialized as
+    let is_option = get_deserialized_type(&cont).map(|ty| {
+        quote! {
+            fn _schemars_private_is_option() -> bool {
+                <#ty as schemars::JsonSchema>::_schemars_private_is_option()
+            }
+        }
+    });
+
     Ok(quote! {
         const _: () = {
             #crate_alias
@@ -173,6 +182,8 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
                 fn inline_schema() -> bool {
                     #inline
                 }
+
+                #is_option
             };
         };
     })
@@ -201,3 +212,26 @@ fn get_transparent_type<'a>(cont: &'a Container) -> Option<&'a syn::Type> {
 
     None
 }
+
+fn get_deserialized_type<'a>(cont: &'a Container) -> Option<&'a syn::Type> {
+    let transparent_field = cont.transparent_field();
+
+    if transparent_field.is_some_and(|f| f.attrs.validation.required) {
+        return None;
+    }
+
+    let with = cont
+        .attrs
+        .with
+        .as_ref()
+        .or_else(|| transparent_field.and_then(|f| f.attrs.with.as_ref()));
+
+    match with {
+        Some(attr::WithAttr::Type(ty)) => Some(ty),
+        Some(attr::WithAttr::Function(_)) => None,
+        None => transparent_field
+            .map(|f| f.ty)
+            .or(cont.serde_attrs.type_from())
+            .or(cont.serde_attrs.type_try_from()),
+    }
+}
-- 
2.43.0


From 145b28223223b11149a6bcc41eb5ed8d9803181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:00 +0000
Subject: [PATCH 30/30] fix: treat a newtype variant as a unit variant in the
 direction in which its field is skipped, like serde does

---
 schemars_derive/src/ast/mod.rs      | 27 ++++++++++
 schemars_derive/src/schema_exprs.rs | 83 +++++++++++++++++++----------
 2 files changed, 83 insertions(+), 27 deletions(-)

diff --git a/schemars_derive/src/ast/mod.rs b/schemars_derive/src/ast/mod.rs
index b71a826..f976ed2 100644
--- a/schemars_derive/src/ast/mod.rs
+++ b/schemars_derive/src/ast/mod.rs
@@ -94,6 +94,33 @@ impl Variant<'_> {
         matches!(self.style, serde_ast::Style::Unit)
     }
 
+    /// Chooses between two expressions for a variant without a `with` attribute, because serde
+    /// treats a newtype variant as a unit variant while its field is skipped.
+    pub fn with_unit_check(
+        &self,
+        unit_expr: impl quote::ToTokens,
+        expr: impl quote::ToTokens,
+    ) -> TokenStream {
+        let (serde_ast::Style::Newtype, None, [field]) =
+            (self.style, &self.attrs.with, self.fields.as_slice())
+        else {
+            return expr.into_token_stream();
+        };
+
+        match (
+            field.serde_attrs.skip_deserializing(),
+            field.serde_attrs.skip_serializing(),
+        ) {
+            (true, false) => quote! {
+                if #GENERATOR.contract().is_deserialize() { #unit_expr } else { #expr }
+            },
+            (false, true) => quote! {
+                if #GENERATOR.contract().is_serialize() { #unit_expr } else { #expr }
+            },
+            _ => expr.into_token_stream(),
+        }
+    }
+
     pub fn add_mutators(&self, mutators: &mut Vec<TokenStream>) {
         self.attrs.common.add_mutators(mutators);
     }
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 4bbbe7f..0680678 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -342,9 +342,12 @@ fn expr_for_external_tagged_enum<'a>(
             } else {
                 let sub_schema =
                     expr_for_untagged_enum_variant(cont, variant, deny_unknown_fields, false);
-                quote! {
-                    schemars::_private::new_externally_tagged_enum_variant(#name, #sub_schema)
-                }
+                variant.with_unit_check(
+                    quote!(schemars::_private::new_unit_enum_variant(#name)),
+                    quote! {
+                        schemars::_private::new_externally_tagged_enum_variant(#name, #sub_schema)
+                    },
+                )
             });
 
         variant.add_mutators(&mut schema_expr.mutators);
@@ -429,15 +432,6 @@ fn expr_for_adjacent_tagged_enum<'a>(
                 ))
             };
 
-            let (add_content_to_props, add_content_to_required) = content_schema
-                .map(|content_schema| {
-                    (
-                        quote!(#content_name: (#content_schema),),
-                        quote!(#content_name,),
-                    )
-                })
-                .unwrap_or_default();
-
             let name = variant.name();
             let tag_schema = quote! {
                 schemars::json_schema!({
@@ -454,20 +448,45 @@ fn expr_for_adjacent_tagged_enum<'a>(
                 TokenStream::new()
             };
 
-            let mut outer_schema = SchemaExpr::from(quote!(schemars::json_schema!({
-                "type": "object",
-                "properties": {
-                    #tag_name: (#tag_schema),
-                    #add_content_to_props
+            let wrapper_schema = |content_schema: Option<SchemaExpr>| {
+                let (add_content_to_props, add_content_to_required) = content_schema
+                    .map(|content_schema| {
+                        (
+                            quote!(#content_name: (#content_schema),),
+                            quote!(#content_name,),
+                        )
+                    })
+                    .unwrap_or_default();
+
+                quote!(schemars::json_schema!({
+                    "type": "object",
+                    "properties": {
+                        #tag_name: (#tag_schema),
+                        #add_content_to_props
+                    },
+                    "required": [
+                        #tag_name,
+                        #add_content_to_required
+                    ],
+                    // As we're creating a "wrapper" object, we can honor the
+                    // disposition of deny_unknown_fields.
+                    #set_additional_properties
+                }))
+            };
+            let without_content = wrapper_schema(None);
+            let with_content = wrapper_schema(content_schema);
+            // Serde omits the content of a newtype variant with a skipped field when serializing
+            // it, but expects the content of a unit variant when deserializing it
+            let mut outer_schema = SchemaExpr::from(variant.with_unit_check(
+                quote! {
+                    if #GENERATOR.contract().is_serialize() {
+                        #without_content
+                    } else {
+                        #with_content
+                    }
                 },
-                "required": [
-                    #tag_name,
-                    #add_content_to_required
-                ],
-                // As we're creating a "wrapper" object, we can honor the
-                // disposition of deny_unknown_fields.
-                #set_additional_properties
-            })));
+                &with_content,
+            ));
 
             variant.add_mutators(&mut outer_schema.mutators);
 
@@ -593,7 +612,12 @@ fn expr_for_untagged_enum_variant(
     } else {
         match variant.style {
             Style::Unit => expr_for_unit_struct(),
-            Style::Newtype => expr_for_field(cont, &variant.fields[0], false),
+            Style::Newtype => {
+                let field_expr = expr_for_field(cont, &variant.fields[0], false);
+                variant
+                    .with_unit_check(expr_for_unit_struct(), field_expr)
+                    .into()
+            }
             Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
             Style::Struct => expr_for_struct(
                 cont,
@@ -638,7 +662,12 @@ fn expr_for_internal_tagged_enum_variant(
 
     match variant.style {
         Style::Unit => expr_for_unit_struct(),
-        Style::Newtype => expr_for_field(cont, &variant.fields[0], true),
+        Style::Newtype => {
+            let field_expr = expr_for_field(cont, &variant.fields[0], true);
+            variant
+                .with_unit_check(expr_for_unit_struct(), field_expr)
+                .into()
+        }
         Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
         Style::Struct => expr_for_struct(
             cont,
-- 
2.43.0

