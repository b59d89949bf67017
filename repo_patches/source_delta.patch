From d993397f34a3f3ba73c4699c471883d09b42f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 01/52] fix: keep the outer array of multi and composite solids
 with one solid, and the nesting of single-shell materials

---
 src/rust/fcb_core/src/reader/deserializer.rs | 36 ++++++++++++++++----
 src/rust/fcb_core/src/reader/geom_decoder.rs |  4 +--
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index c447cb8..c6f077c 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -11,9 +11,10 @@ use cjseq::{
     CityJSONFeature, CityObject as CjCityObject, Extension as CjExtension,
     ExtensionFile as CjExtensionFile, Geometry as CjGeometry,
     GeometryTemplates as CjGeometryTemplates, GeometryType as CjGeometryType,
-    MaterialObject as CjMaterial, Metadata as CjMetadata, PointOfContact as CjPointOfContact,
-    ReferenceSystem as CjReferenceSystem, Semantics as CjSemantics, TextFormat as CjTextFormat,
-    TextType as CjTextType, TextureObject as CjTexture, Transform as CjTransform,
+    MaterialObject as CjMaterial, MaterialValues as CjMaterialValues, Metadata as CjMetadata,
+    PointOfContact as CjPointOfContact, ReferenceSystem as CjReferenceSystem,
+    Semantics as CjSemantics, TextFormat as CjTextFormat, TextType as CjTextType,
+    TextureObject as CjTexture, TextureValues as CjTextureValues, Transform as CjTransform,
     WrapMode as CjWrapMode,
 };
 
@@ -590,7 +591,17 @@ pub(crate) fn decode_geometry(
         .boundaries()
         .map(|v| v.iter().collect::<Vec<_>>())
         .unwrap_or_default();
-    let boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
+    // The outermost array of a multi or composite solid lists its solids, so it
+    // stays in place even when there is only one solid.
+    let single_solid = solids.len() == 1
+        && matches!(
+            g.type_(),
+            GeometryType::MultiSolid | GeometryType::CompositeSolid
+        );
+    let mut boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
+    if single_solid {
+        boundaries = CjBoundaries::Nested(vec![boundaries]);
+    }
     let semantics: Option<CjSemantics> = if let (Some(semantics_objects), Some(semantics)) =
         (g.semantics_objects(), g.semantics())
     {
@@ -609,19 +620,32 @@ pub(crate) fn decode_geometry(
     };
 
     // Decode material mappings if present
-    let material = if let Some(material_mappings) = g.material() {
+    let mut material = if let Some(material_mappings) = g.material() {
         decode_materials(&material_mappings.iter().collect::<Vec<_>>())
     } else {
         None
     };
 
     // Decode texture mappings if present
-    let texture = if let Some(texture_mappings) = g.texture() {
+    let mut texture = if let Some(texture_mappings) = g.texture() {
         decode_textures(&texture_mappings.iter().collect::<Vec<_>>())
     } else {
         None
     };
 
+    if single_solid {
+        for reference in material.iter_mut().flat_map(|m| m.values_mut()) {
+            if let Some(values @ CjMaterialValues::Nested(_)) = &reference.values {
+                reference.values = Some(CjMaterialValues::Nested(vec![values.clone()]));
+            }
+        }
+        for reference in texture.iter_mut().flat_map(|t| t.values_mut()) {
+            if matches!(reference.values, CjTextureValues::Nested(_)) {
+                reference.values = CjTextureValues::Nested(vec![reference.values.clone()]);
+            }
+        }
+    }
+
     Ok(CjGeometry {
         thetype: g.type_().to_cj(),
         lod: g.lod().map(|v| v.to_string()),
diff --git a/src/rust/fcb_core/src/reader/geom_decoder.rs b/src/rust/fcb_core/src/reader/geom_decoder.rs
index 4799eb9..6fce837 100644
--- a/src/rust/fcb_core/src/reader/geom_decoder.rs
+++ b/src/rust/fcb_core/src/reader/geom_decoder.rs
@@ -470,8 +470,8 @@ pub(crate) fn decode_materials(
                         .collect();
 
                     CjMaterialValues::Indices(indices)
-                } else if solids.len() == 1 && solids[0] > 1 {
-                    // This is a single Solid with multiple shells (test case 3)
+                } else if solids.len() == 1 {
+                    // This is a single Solid with one or more shells (test case 3)
                     // We want a flat structure of shell values
                     let mut shell_values = Vec::new();
                     let mut vertex_index = 0;
-- 
2.43.0


From 4ce3b894d2404695adb6b249d0b6dbd9f404866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:43 +0000
Subject: [PATCH 02/52] fix: write the appearance and geometry templates of a
 dataset without metadata

---
 src/rust/fcb_core/src/writer/serializer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 81800dd..cfa4541 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -217,6 +217,9 @@ pub(super) fn to_fcb_header<'a>(
                 geographical_extent: geographical_extent_from_options.as_ref(),
                 version,
                 attribute_index,
+                appearance,
+                templates,
+                templates_vertices,
                 extensions,
                 ..Default::default()
             },
-- 
2.43.0


From 09856d126885ce94344dfc4c2fc744000f2008b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 03/52] fix: decode the appearance of the header

---
 src/rust/fcb_core/src/reader/deserializer.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index c6f077c..21994af 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -90,6 +90,8 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
         title: header.title().map(|t| t.to_string()),
     });
 
+    cj.appearance = to_cj_appearance(header.appearance());
+
     // Decode Geometry Templates if present
     if let (Some(fb_templates), Some(fb_vertices)) =
         (header.templates(), header.templates_vertices())
@@ -464,8 +466,14 @@ pub fn to_cj_feature(
         .vertices()
         .map_or(Vec::new(), |v| to_cj_vertices(v.iter().collect()));
 
+    cj.appearance = to_cj_appearance(feature.appearance());
+
+    Ok(cj) // Return Result
+}
+
+fn to_cj_appearance(appearance: Option<Appearance>) -> Option<CjAppearance> {
     // Decode appearance if present
-    if let Some(appearance) = feature.appearance() {
+    if let Some(appearance) = appearance {
         let mut cj_appearance = CjAppearance {
             materials: None,
             textures: None,
@@ -561,10 +569,10 @@ pub fn to_cj_feature(
             cj_appearance.default_theme_material = Some(default_theme_material.to_string());
         }
 
-        cj.appearance = Some(cj_appearance);
+        Some(cj_appearance)
+    } else {
+        None
     }
-
-    Ok(cj) // Return Result
 }
 
 pub(crate) fn decode_geometry(
-- 
2.43.0


From 06e59738550d31ff7cc7bef84e100fce1c78bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 04/52] fix: keep absent metadata and an absent extent absent
 when decoding the header

---
 src/rust/fcb_core/src/reader/deserializer.rs | 38 +++++++++++---------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 21994af..1a67c49 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -62,33 +62,39 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     cj.version = header.version().to_string();
     cj.thetype = String::from("CityJSON");
 
-    let geographical_extent = header
-        .geographical_extent()
-        .map(|extent| {
-            [
-                extent.min().x(),
-                extent.min().y(),
-                extent.min().z(),
-                extent.max().x(),
-                extent.max().y(),
-                extent.max().z(),
-            ]
-        })
-        .unwrap_or_default();
+    let geographical_extent = header.geographical_extent().map(|extent| {
+        [
+            extent.min().x(),
+            extent.min().y(),
+            extent.min().z(),
+            extent.max().x(),
+            extent.max().y(),
+            extent.max().z(),
+        ]
+    });
 
     let point_of_contact = match header.poc_contact_name() {
         Some(_) => Some(to_cj_point_of_contact(header)?),
         None => None,
     };
 
-    cj.metadata = Some(CjMetadata {
-        geographical_extent: Some(geographical_extent),
+    let metadata = CjMetadata {
+        geographical_extent,
         identifier: header.identifier().map(|i| i.to_string()),
         point_of_contact,
         reference_date: header.reference_date().map(|r| r.to_string()),
         reference_system,
         title: header.title().map(|t| t.to_string()),
-    });
+    };
+    let has_metadata = metadata.geographical_extent.is_some()
+        || metadata.identifier.is_some()
+        || metadata.point_of_contact.is_some()
+        || metadata.reference_date.is_some()
+        || metadata.reference_system.is_some()
+        || metadata.title.is_some();
+    if has_metadata {
+        cj.metadata = Some(metadata);
+    }
 
     cj.appearance = to_cj_appearance(header.appearance());
 
-- 
2.43.0


From 5d4306ec3e3acd8e2c2f64f7b7425967b04d2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 05/52] fix: keep reference system codes that are not numbers

---
 src/rust/fcb_core/src/reader/deserializer.rs |  4 +++-
 src/rust/fcb_core/src/writer/serializer.rs   | 11 +++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 1a67c49..e9b6c26 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -56,7 +56,9 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
             None,
             rs.authority().unwrap_or_default().to_string(),
             rs.version().to_string(),
-            rs.code().to_string(),
+            rs.code_string()
+                .map(|code| code.to_string())
+                .unwrap_or_else(|| rs.code().to_string()),
         )
     });
     cj.version = header.version().to_string();
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index cfa4541..ee298a7 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -274,15 +274,14 @@ pub(super) fn to_reference_system<'a>(
     let authority = Some(fbb.create_string(&ref_system.authority));
 
     let version = ref_system.version.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse version: {}", e);
-        0
-    });
-    let code = ref_system.code.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse code: {}", e);
+        eprintln!("failed to parse version: {}", e);
         0
     });
+    let code = ref_system.code.parse::<i32>().unwrap_or(0);
 
-    let code_string = None; // TODO: implement code_string
+    // A code that is not plainly a number, such as CRS84, is kept as a string
+    let code_string =
+        (code.to_string() != ref_system.code).then(|| fbb.create_string(&ref_system.code));
 
     ReferenceSystem::create(
         fbb,
-- 
2.43.0


From 72a91ee8f21f92581c32a521b4553c4e4f153d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 06/52] fix: decode byte, unsigned byte and binary attributes

---
 src/rust/fcb_core/src/reader/deserializer.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index e9b6c26..9e134c1 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -145,6 +145,8 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                         ColumnType::UShort => MetaColumnType::UShort,
                         ColumnType::Long => MetaColumnType::Long,
                         ColumnType::ULong => MetaColumnType::ULong,
+                        ColumnType::Byte => MetaColumnType::Byte,
+                        ColumnType::UByte => MetaColumnType::UByte,
                         _ => unreachable!(),
                     },
                     title: c.title().map(|t| t.to_string()),
@@ -363,7 +365,7 @@ pub fn decode_attributes(
                 map.insert(column.name().to_string(), serde_json::Value::String(s));
                 offset += len as usize;
             }
-            ColumnType::DateTime => {
+            ColumnType::DateTime | ColumnType::Binary => {
                 let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
                 offset += size_of::<u32>();
                 let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
@@ -380,6 +382,21 @@ pub fn decode_attributes(
                 offset += len as usize;
             }
 
+            ColumnType::Byte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset] as i8)),
+                );
+                offset += size_of::<i8>();
+            }
+            ColumnType::UByte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset])),
+                );
+                offset += size_of::<u8>();
+            }
+
             // TODO: handle other column types
             _ => unreachable!(),
         }
-- 
2.43.0


From a0b834c9cae683cd95d39c0daeaf8bf786f57f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 07/52] fix: keep attribute values whose type differs from the
 first value of the attribute

---
 src/rust/fcb_core/src/writer/attribute.rs  | 61 +++++++++++++++++++---
 src/rust/fcb_core/src/writer/serializer.rs | 12 +++--
 2 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 119b1c0..eaabbea 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -15,21 +15,69 @@ pub trait AttributeSchemaMethods {
 impl AttributeSchemaMethods for AttributeSchema {
     fn add_attributes(&mut self, attrs: &Value) {
         if !attrs.is_object() {
-            self.insert("json".to_string(), (self.len() as u16, ColumnType::Json));
+            let next_index = self.len() as u16;
+            self.entry("json".to_string())
+                .or_insert((next_index, ColumnType::Json));
             return;
         }
 
         let map = attrs.as_object().unwrap();
         for (key, val) in map.iter() {
-            if !self.contains_key(key) && !val.is_null() {
-                if let Some(coltype) = guess_type(val) {
-                    self.insert(key.clone(), (self.len() as u16, coltype));
-                }
+            if val.is_null() {
+                continue;
+            }
+            if let Some(coltype) = guess_type(val) {
+                let next_index = self.len() as u16;
+                let column = self.entry(key.clone()).or_insert((next_index, coltype));
+                column.1 = common_type(column.1, coltype);
             }
         }
     }
 }
 
+/// The narrowest column type that holds the values of both types.
+fn common_type(a: ColumnType, b: ColumnType) -> ColumnType {
+    match (a, b) {
+        _ if a == b => a,
+        (ColumnType::ULong, ColumnType::Long) | (ColumnType::Long, ColumnType::ULong) => {
+            ColumnType::Long
+        }
+        (ColumnType::Double, ColumnType::ULong | ColumnType::Long)
+        | (ColumnType::ULong | ColumnType::Long, ColumnType::Double) => ColumnType::Double,
+        (ColumnType::String, ColumnType::DateTime) | (ColumnType::DateTime, ColumnType::String) => {
+            ColumnType::String
+        }
+        _ => ColumnType::Json,
+    }
+}
+
+/// Whether a column of this type holds the value without altering it.
+pub(crate) fn fits_column(coltype: ColumnType, val: &Value) -> bool {
+    let signed = |min: i64, max: i64| val.as_i64().is_some_and(|i| (min..=max).contains(&i));
+    let unsigned = |max: u64| val.as_u64().is_some_and(|i| i <= max);
+    match coltype {
+        ColumnType::Bool => val.is_boolean(),
+        ColumnType::Byte => signed(i8::MIN.into(), i8::MAX.into()),
+        ColumnType::UByte => unsigned(u8::MAX.into()),
+        ColumnType::Short => signed(i16::MIN.into(), i16::MAX.into()),
+        ColumnType::UShort => unsigned(u16::MAX.into()),
+        ColumnType::Int => signed(i32::MIN.into(), i32::MAX.into()),
+        ColumnType::UInt => unsigned(u32::MAX.into()),
+        ColumnType::Long => val.is_i64(),
+        ColumnType::ULong => val.is_u64(),
+        ColumnType::Float => val.is_number(),
+        ColumnType::Double => match (val.as_i64(), val.as_u64()) {
+            // integers beyond 2^53 are not all representable
+            (Some(i), _) => (i as f64) as i128 == i as i128,
+            (None, Some(u)) => (u as f64) as u128 == u as u128,
+            (None, None) => val.is_f64(),
+        },
+        ColumnType::String | ColumnType::DateTime | ColumnType::Binary => val.is_string(),
+        ColumnType::Json => true,
+        _ => false,
+    }
+}
+
 /// Naive type-guessing. You could use your schema or logic as in your Python code.
 fn guess_type(value: &Value) -> Option<ColumnType> {
     match value {
@@ -108,7 +156,8 @@ pub(crate) fn encode_attributes_with_schema(attr: &Value, schema: &AttributeSche
             }
         };
 
-        if val.is_null() {
+        // a value of another type than its column cannot be stored there
+        if val.is_null() || !fits_column(*coltype, val) {
             continue;
         }
 
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index ee298a7..ddaee78 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -1,4 +1,6 @@
-use crate::attribute::{encode_attributes_with_schema, AttributeSchema, AttributeSchemaMethods};
+use crate::attribute::{
+    encode_attributes_with_schema, fits_column, AttributeSchema, AttributeSchemaMethods,
+};
 use crate::fb::{
     Appearance, AppearanceArgs, CityFeature, CityFeatureArgs, CityObject, CityObjectArgs,
     CityObjectType, Geometry, GeometryArgs, GeometryType, Material, MaterialArgs, SemanticObject,
@@ -1041,8 +1043,12 @@ pub(super) fn to_fcb_attribute<'a>(
     Option<AttributeSchema>,
 ) {
     let mut is_own_schema = false;
-    for (key, _) in attr.as_object().unwrap().iter() {
-        if !schema.contains_key(key) {
+    for (key, val) in attr.as_object().unwrap().iter() {
+        // so does a value that the column of the common schema cannot hold
+        let fits = schema
+            .get(key)
+            .is_some_and(|(_, coltype)| val.is_null() || fits_column(*coltype, val));
+        if !fits {
             is_own_schema = true;
         }
     }
-- 
2.43.0


From 7c2e7c2f2fdb38388bf4c7fe45dd26a4c7493d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 08/52] fix: accept null for a whole shell or solid in semantic
 values

---
 src/rust/fcb_core/src/writer/geom_encoder.rs | 46 +++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index abdf070..7c43266 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -88,7 +88,14 @@ pub(crate) fn encode(
     let _ = encode_boundaries(cj_boundaries, &mut boundaries);
 
     // Encode semantics if provided
-    let semantics = semantics.map(encode_semantics);
+    let semantics = semantics.map(|s| {
+        let mut values = s.values.clone();
+        expand_null_shells(&mut values, cj_boundaries, false);
+        encode_semantics(&CjSemantics {
+            values,
+            surfaces: s.surfaces.clone(),
+        })
+    });
 
     // Encode appearance if provided
     let textures = textures.map(encode_texture);
@@ -346,6 +353,43 @@ fn encode_boundaries(boundaries: &CjBoundaries, wip_boundaries: &mut GMBoundarie
     }
 }
 
+/// The number of levels of a boundaries array (1 for rings).
+fn boundaries_depth(boundaries: &CjBoundaries) -> usize {
+    match boundaries {
+        CjBoundaries::Indices(_) => 1,
+        CjBoundaries::Nested(subs) => 1 + subs.iter().map(boundaries_depth).max().unwrap_or(0),
+    }
+}
+
+/// CityJSON allows `null` for a whole shell or solid without semantics. Gives such
+/// places one null per surface, so that the flattened values line up with the surfaces.
+fn expand_null_shells(values: &mut CjSemanticsValues, boundaries: &CjBoundaries, nested: bool) {
+    let CjBoundaries::Nested(subs) = boundaries else {
+        return;
+    };
+    let depth = boundaries_depth(boundaries);
+    match values {
+        CjSemanticsValues::Indices(indices) if indices.iter().all(Option::is_none) => match depth {
+            0..=2 => {}
+            3 if nested => indices.resize(subs.len(), None),
+            3 => {}
+            _ => {
+                let mut shells = vec![CjSemanticsValues::Indices(vec![]); subs.len()];
+                for (value, sub) in shells.iter_mut().zip(subs) {
+                    expand_null_shells(value, sub, true);
+                }
+                *values = CjSemanticsValues::Nested(shells);
+            }
+        },
+        CjSemanticsValues::Indices(_) => {}
+        CjSemanticsValues::Nested(sub_values) => {
+            for (value, sub) in sub_values.iter_mut().zip(subs) {
+                expand_null_shells(value, sub, true);
+            }
+        }
+    }
+}
+
 /// Encodes the semantic values into the encoder.
 ///
 /// # Arguments
-- 
2.43.0


From 50acd8e85237e9be22380a01314dbf378177bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 09/52] fix: write the number of added features to the header,
 whatever count the options give

---
 src/rust/fcb_core/src/writer/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 5d0ea56..39db2dd 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -260,6 +260,9 @@ impl<'a> FcbWriter<'a> {
             }
         }
 
+        // the header states the number of features that were added
+        self.header_writer.header_options.feature_count = self.feat_offsets.len() as u64;
+
         // write header with attribute indices metadata
         self.header_writer.attribute_indices_info = Some(attr_index_info);
         let header_buf = self.header_writer.finish_to_header()?;
-- 
2.43.0


From 90b543a6d34f608923b531f8140cbd090a54be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 10/52] fix: refuse vertices and geometry instances that cannot
 be stored instead of panicking

---
 src/rust/fcb_core/src/writer/mod.rs | 30 ++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 39db2dd..24010c5 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -2,7 +2,10 @@ use crate::packed_rtree::{calc_extent, hilbert_sort, NodeItem, PackedRTree};
 use crate::MAGIC_BYTES;
 use attr_index::build_attribute_index_for_attr;
 use attribute::AttributeSchema;
-use cjseq::{CityJSON, CityJSONFeature, Transform as CjTransform};
+use cjseq::{
+    Boundaries as CjBoundaries, CityJSON, CityJSONFeature, GeometryType as CjGeometryType,
+    Transform as CjTransform,
+};
 use feature_writer::{AttributeFeatureOffset, FeatureWriter};
 use header_writer::{HeaderWriter, HeaderWriterOptions};
 use serializer::AttributeIndexInfo;
@@ -41,6 +44,29 @@ pub struct FcbWriter<'a> {
     attribute_index_entries: HashMap<usize, AttributeFeatureOffset>,
 }
 
+/// Refuses features that the format cannot represent: vertices are three 32-bit integers,
+/// a geometry instance has one template, one matrix and flat boundaries.
+fn check_feature(feature: &CityJSONFeature) -> Result<()> {
+    for v in &feature.vertices {
+        if v.len() != 3 || v.iter().any(|c| i32::try_from(*c).is_err()) {
+            let msg = format!("vertex {v:?} is not three 32-bit integers");
+            return Err(error::Error::invalid_geometry(msg).into());
+        }
+    }
+    let objects = feature.city_objects.values();
+    for geometry in objects.filter_map(|co| co.geometry.as_ref()).flatten() {
+        if geometry.thetype == CjGeometryType::GeometryInstance
+            && (geometry.template.and_then(|t| u32::try_from(t).ok()).is_none()
+                || geometry.transformation_matrix.is_none()
+                || matches!(geometry.boundaries, CjBoundaries::Nested(_)))
+        {
+            let msg = "a geometry instance needs a template, a matrix and a reference point";
+            return Err(error::Error::invalid_geometry(msg).into());
+        }
+    }
+    Ok(())
+}
+
 #[derive(Clone, PartialEq, Debug)]
 struct FeatureOffset {
     temp_feature_id: usize,
@@ -149,6 +175,8 @@ impl<'a> FcbWriter<'a> {
     ///
     /// A Result indicating success or failure of the operation
     pub fn add_feature(&mut self, feature: &'a CityJSONFeature) -> Result<()> {
+        check_feature(feature)?;
+
         if self.feat_writer.is_none() {
             self.feat_writer = Some(FeatureWriter::new(
                 feature,
-- 
2.43.0


From e571f7642a68831622c530fccf0a2ad8aa1f20ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 11/52] fix: let the smallest and largest date-time keys cover
 every date-time

---
 src/rust/fcb_core/src/static_btree/key.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 9b1c20a..6d25a44 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -158,10 +158,7 @@ impl Max for bool {
 // Implement Max for DateTime<Utc>
 impl Max for DateTime<Utc> {
     fn max_value() -> Self {
-        // A date far in the future (year 9999)
-        Utc.timestamp_opt(253402300799, 999_999_999)
-            .single()
-            .unwrap()
+        DateTime::<Utc>::MAX_UTC
     }
 }
 
@@ -241,7 +238,7 @@ impl Min for bool {
 
 impl Min for DateTime<Utc> {
     fn min_value() -> Self {
-        Utc.timestamp_opt(0, 0).single().unwrap()
+        DateTime::<Utc>::MIN_UTC
     }
 }
 
-- 
2.43.0


From 55ced7b3f4452a676c72613e213669616980a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 12/52] fix: report a failed write of a boolean or string key

---
 src/rust/fcb_core/src/static_btree/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 6d25a44..9b83596 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -372,7 +372,7 @@ impl Key for bool {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&[*self as u8]).map_err(Error::from);
+        writer.write_all(&[*self as u8])?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
@@ -445,7 +445,7 @@ impl<const N: usize> Key for FixedStringKey<N> {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&self.0).map_err(Error::from);
+        writer.write_all(&self.0)?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
-- 
2.43.0


From 1ff78f12273e4856e975d2e8f50e8bbae011fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 13/52] fix: do not request payload bytes behind the end of the
 file

---
 src/rust/fcb_core/src/static_btree/stree.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 239a5de..5420c19 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -185,6 +185,9 @@ pub async fn prefetch_payload<T: AsyncHttpRangeClient>(
     );
 
     let mut cache = PayloadCache::new();
+    if chunk_size == 0 {
+        return Ok(cache);
+    }
 
     // Fetch the chunk of payload data
     let payload_data = client.get_range(payload_section_start, chunk_size).await?;
@@ -329,7 +332,8 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
     for (start, end) in offset_ranges {
         // Calculate fetch size to include the complete payload entries
         // Add a margin to account for variable-sized payload entries
-        let fetch_size = (end - start) + DEFAULT_MIN_REQ_SIZE;
+        let fetch_size =
+            min((end - start) + DEFAULT_MIN_REQ_SIZE, feature_begin.saturating_sub(start));
 
         let payload_data = client.get_range(start, fetch_size).await?;
 
@@ -1244,6 +1248,8 @@ impl<K: Key> Stree<K> {
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
         // Prefetch a chunk of payload data
+        // (the payload section ends where the features begin at the latest)
+        let prefetch_size = prefetch_size.min(feature_begin.saturating_sub(payload_data_start));
         let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
 
         while let Some(node_range) = queue.pop_front() {
@@ -1581,6 +1587,8 @@ impl<K: Key> Stree<K> {
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
         // Prefetch a chunk of payload data
+        // (the payload section ends where the features begin at the latest)
+        let prefetch_size = prefetch_size.min(feature_begin.saturating_sub(payload_data_start));
         let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
 
         debug!("http_stream_find_range - index_begin: {index_begin}, feature_begin: {feature_begin}, num_items: {num_items}, branching_factor: {branching_factor}, level_bounds: {level_bounds:?}, lower: {lower:?}, upper: {upper:?}");
-- 
2.43.0


From c89cb91bd7d82d246f69eb6dd893cae5f216d6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 14/52] fix: find the largest key, and a key that equals a
 separator as the upper bound of a streamed range

---
 src/rust/fcb_core/src/static_btree/stree.rs | 29 ++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 5420c19..b291bee 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -49,6 +49,18 @@ impl<K: Key> NodeItem<K> {
     }
 }
 
+/// The child to the right of a separator. A separator that only closes its level has no
+/// right child; a key that equals it is found in the child it points to.
+fn right_child(separator_offset: Offset, node_size: usize, children_level: &Range<usize>) -> usize {
+    let left = separator_offset as usize;
+    let right = left + node_size;
+    if right < children_level.end {
+        right
+    } else {
+        left
+    }
+}
+
 /// Read full capacity of vec from data stream
 fn read_node_vec<K: Key>(node_items: &mut Vec<NodeItem<K>>, mut data: impl Read) -> Result<()> {
     node_items.clear();
@@ -767,7 +779,9 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        let children = &self.level_bounds[level - 1];
+                        let child = right_child(node_items[index].offset, node_size, children);
+                        queue.push_back((child, level - 1));
                     }
                     Err(index) => {
                         if index == 0 {
@@ -864,7 +878,9 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        let children = &level_bounds[level - 1];
+                        let child = right_child(node_items[index].offset, node_size, children);
+                        queue.push_back((child, level - 1));
                     }
                     Err(index) => {
                         if index == 0 {
@@ -1157,9 +1173,9 @@ impl<K: Key> Stree<K> {
             // Find the child node to traverse next using binary search
             match node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&key)) {
                 Ok(index) => {
-                    // Exact match found, go to the corresponding child
-                    // For an exact match, we go to the child node pointed to by this entry
-                    node_index = node_items[index].offset as usize;
+                    // Exact match found, the key is the first one of the child to the right
+                    let children = &level_bounds[level - 1];
+                    node_index = right_child(node_items[index].offset, node_size, children);
                 }
                 Err(index) => {
                     // No exact match, determine appropriate child based on comparison
@@ -1285,7 +1301,8 @@ impl<K: Key> Stree<K> {
                 let mut _offset = 0;
                 match result {
                     Ok(idx) => {
-                        _offset = node_items[idx].offset as usize + node_size;
+                        let children = &level_bounds[node_range.level - 1];
+                        _offset = right_child(node_items[idx].offset, node_size, children);
                     }
                     Err(idx) => {
                         if idx == 0 {
-- 
2.43.0


From df10cd530c6584d14b2bb814cdc04565c923cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 15/52] fix: read payload entries completely over HTTP

---
 src/rust/fcb_core/src/static_btree/stree.rs | 85 ++++-----------------
 1 file changed, 14 insertions(+), 71 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index b291bee..2f7abee 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -3,6 +3,8 @@ use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::Key;
 use crate::static_btree::payload::PayloadEntry;
 #[cfg(feature = "http")]
+use byteorder::{LittleEndian, ReadBytesExt};
+#[cfg(feature = "http")]
 use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
 use log::{debug, info};
 use std::cmp::{max, min};
@@ -16,8 +18,6 @@ const PAYLOAD_TAG: Offset = 1u64 << 63;
 /// Mask to clear the tag bit.
 const PAYLOAD_MASK: Offset = !PAYLOAD_TAG;
 
-const DEFAULT_MIN_REQ_SIZE: usize = 1024 * 32;
-
 // This implementation was derived from FlatGeobuf's implemenation.
 
 /// S-Tree node
@@ -116,13 +116,11 @@ async fn read_http_payload_data<T: AsyncHttpRangeClient>(
     client: &mut AsyncBufferedHttpRangeClient<T>,
     offset: usize,
 ) -> Result<PayloadEntry> {
-    let temp_buffered_count_bytes_size = DEFAULT_MIN_REQ_SIZE; //This is hueristic, we don't know the size of the payload. TODO: find a better way
-
     debug!("sending request to fetch payload, offset {offset:?}");
 
-    let payload_data = client
-        .get_range(offset, temp_buffered_count_bytes_size)
-        .await?;
+    let mut count = client.get_range(offset, 4).await?;
+    let length = 4 + count.read_u32::<LittleEndian>()? as usize * 8;
+    let payload_data = client.get_range(offset, length).await?;
     let mut buf = Cursor::new(payload_data);
 
     let (payload_entry, _) = PayloadEntry::deserialize(&mut buf)?;
@@ -317,70 +315,15 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
         payload_offsets_to_fetch.len()
     );
 
-    // Group adjacent offsets to reduce number of requests
-    let mut offset_ranges = Vec::new();
-    let mut current_range = (payload_offsets_to_fetch[0], payload_offsets_to_fetch[0]);
-
-    for &offset in payload_offsets_to_fetch.iter().skip(1) {
-        // If offsets are close (within DEFAULT_MIN_REQ_SIZE), extend the current range
-        if offset <= current_range.1 + DEFAULT_MIN_REQ_SIZE {
-            current_range.1 = offset;
-        } else {
-            // Otherwise, finish the current range and start a new one
-            offset_ranges.push(current_range);
-            current_range = (offset, offset);
-        }
-    }
-    offset_ranges.push(current_range);
-
-    debug!(
-        "grouped into {} payload range requests",
-        offset_ranges.len()
-    );
-
-    // Fetch each range and process
-    let mut fetched_payloads = HashMap::new();
-
-    for (start, end) in offset_ranges {
-        // Calculate fetch size to include the complete payload entries
-        // Add a margin to account for variable-sized payload entries
-        let fetch_size =
-            min((end - start) + DEFAULT_MIN_REQ_SIZE, feature_begin.saturating_sub(start));
-
-        let payload_data = client.get_range(start, fetch_size).await?;
-
-        // Process each requested offset within this range
-        for &offset in payload_offsets_to_fetch
-            .iter()
-            .filter(|&&o| o >= start && o <= end)
-        {
-            let relative_offset = offset - start;
-
-            // Make sure we have enough data
-            if relative_offset < payload_data.len() {
-                let mut buf = Cursor::new(&payload_data[relative_offset..]);
-                match PayloadEntry::deserialize(&mut buf) {
-                    Ok((entry, _)) => {
-                        fetched_payloads.insert(offset, entry);
-                    }
-                    Err(e) => {
-                        debug!("error deserializing payload at offset {}: {:?}", offset, e);
-                        // Continue with other offsets on error
-                    }
-                }
-            }
-        }
-    }
-
-    // Process the fetched payloads and add to results
-    for &offset in &payload_offsets_to_fetch {
-        if let Some(entry) = fetched_payloads.get(&offset) {
-            for offset in &entry.offsets {
-                let start = feature_begin + *offset as usize;
-                results.push(HttpSearchResultItem {
-                    range: HttpRange::RangeFrom(start..),
-                });
-            }
+    // Fetch each entry completely (the client buffers ahead, so neighbouring entries share a
+    // request)
+    for offset in payload_offsets_to_fetch {
+        let entry = read_http_payload_data(client, offset).await?;
+        for offset in entry.offsets {
+            let start = feature_begin + offset as usize;
+            results.push(HttpSearchResultItem {
+                range: HttpRange::RangeFrom(start..),
+            });
         }
     }
 
-- 
2.43.0


From fb4ac982a659164cbe15a68ea88facbf12c11e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 16/52] fix: leave the reader at its position after a streamed
 query without results

---
 src/rust/fcb_core/src/static_btree/query/stream.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 0628140..f408791 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -394,6 +394,7 @@ impl StreamMultiIndex {
 
         let mut result_set = indexer.execute_query_condition(reader, first)?;
         if result_set.is_empty() {
+            reader.seek(SeekFrom::Start(start_position))?;
             return Ok(vec![]);
         }
         // set cursor to the start of the index
@@ -416,6 +417,7 @@ impl StreamMultiIndex {
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
             if result_set.is_empty() {
+                reader.seek(SeekFrom::Start(start_position))?;
                 return Ok(vec![]); // no results found for this condition, return early so we don't waste time intersecting empty sets
             }
             // set cursor to the start of the index
-- 
2.43.0


From fe8ede69f85ebc2bada9e5c799819d416f8a49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 17/52] fix: answer index operators by entry: keep an upper
 bound that separates two nodes, and offsets that another key has as well

---
 .../fcb_core/src/static_btree/query/http.rs   | 29 ++++-----
 .../fcb_core/src/static_btree/query/memory.rs | 29 ++++-----
 .../fcb_core/src/static_btree/query/stream.rs | 17 ++---
 .../fcb_core/src/static_btree/query/types.rs  | 19 ++++++
 src/rust/fcb_core/src/static_btree/stree.rs   | 62 ++++++++++++++++++-
 5 files changed, 114 insertions(+), 42 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index 83fcb2f..e50575f 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{without, Operator, QueryCondition};
 use crate::static_btree::stree::http::HttpSearchResultItem;
 use crate::static_btree::stree::Stree;
 use async_trait::async_trait;
@@ -82,7 +82,7 @@ impl<K: Key> HttpIndex<K> {
             }
         };
 
-        let items: Vec<HttpSearchResultItem> = Stree::http_stream_find_range(
+        let items: Vec<HttpSearchResultItem> = Stree::http_stream_find_range_to(
             client,
             self.index_begin,
             self.feature_begin,
@@ -91,6 +91,7 @@ impl<K: Key> HttpIndex<K> {
             lower.clone(),
             upper.clone(),
             self.combine_request_threshold,
+            true,
         )
         .await?;
 
@@ -161,19 +162,17 @@ macro_rules! impl_typed_http_search_index {
                             )
                             .await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        without(all, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Gt => {
-                        let mut v = self.find_range(client, Some(key.clone()), None).await?;
+                        let v = self.find_range(client, Some(key.clone()), None).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        without(v, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Lt => {
-                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
+                        let v = self.find_range(client, None, Some(key.clone())).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        without(v, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
                     Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
@@ -214,19 +213,17 @@ macro_rules! impl_typed_http_search_index {
                             )
                             .await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        without(all, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Gt => {
-                        let mut v = self.find_range(client, Some(key.clone()), None).await?;
+                        let v = self.find_range(client, Some(key.clone()), None).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        without(v, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Lt => {
-                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
+                        let v = self.find_range(client, None, Some(key.clone())).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        without(v, &eq, |x| x.range.start() as u64)
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
                     Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 0f6759d..d77d7e3 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -6,7 +6,7 @@ use std::io::{Read, Write};
 use crate::static_btree::entry::Entry;
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, SearchIndex};
+use crate::static_btree::query::types::{without, Operator, SearchIndex};
 use crate::static_btree::stree::Stree;
 
 use super::types::QueryCondition;
@@ -60,6 +60,12 @@ impl<K: Key> MemoryIndex<K> {
     pub fn payload_size(&self) -> usize {
         self.stree.payload_size()
     }
+
+    /// All items with keys in [lower, upper]
+    fn range(&self, lower: K, upper: K) -> Result<Vec<u64>> {
+        let results = self.stree.find_range_inclusive(&lower, &upper)?;
+        Ok(results.into_iter().map(|item| item.offset as u64).collect())
+    }
 }
 
 impl<K: Key> SearchIndex<K> for MemoryIndex<K> {
@@ -120,27 +126,22 @@ macro_rules! impl_typed_search_index {
                     Operator::Ne => {
                         let min = <$key_type>::min_value();
                         let max = <$key_type>::max_value();
-                        let all_items = self.find_range(Some(min), Some(max))?;
+                        let all_items = self.range(min, max)?;
                         let matching_items = self.find_exact(key)?;
-                        Ok(all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect())
+                        Ok(without(all_items, &matching_items, |item| *item))
                     }
                     Operator::Gt => {
-                        let mut results = self.find_range(Some(key.clone()), None)?;
+                        let results = self.range(key.clone(), <$key_type>::max_value())?;
                         let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        Ok(results)
+                        Ok(without(results, &exact_matches, |item| *item))
                     }
                     Operator::Lt => {
-                        let mut results = self.find_range(None, Some(key.clone()))?;
+                        let results = self.range(<$key_type>::min_value(), key.clone())?;
                         let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        Ok(results)
+                        Ok(without(results, &exact_matches, |item| *item))
                     }
-                    Operator::Ge => self.find_range(Some(key), None),
-                    Operator::Le => self.find_range(None, Some(key)),
+                    Operator::Ge => self.range(key, <$key_type>::max_value()),
+                    Operator::Le => self.range(<$key_type>::min_value(), key),
                 }
             }
         }
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index f408791..c05b0a4 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -9,7 +9,7 @@ use ordered_float::OrderedFloat;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{without, Operator, QueryCondition};
 use crate::static_btree::stree::Stree;
 
 /// Stream-based index for file access
@@ -167,24 +167,19 @@ macro_rules! impl_typed_stream_search_index {
                             Some(<$key_type>::max_value()),
                         )?;
                         let matching_items = self.find_exact_with_reader(reader, key.clone())?;
-                        all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect()
+                        without(all_items, &matching_items, |item| *item)
                     }
                     Operator::Gt => {
-                        let mut results =
+                        let results =
                             self.find_range_with_reader(reader, Some(key.clone()), None)?;
                         let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        results
+                        without(results, &exact_matches, |item| *item)
                     }
                     Operator::Lt => {
-                        let mut results =
+                        let results =
                             self.find_range_with_reader(reader, None, Some(key.clone()))?;
                         let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        results
+                        without(results, &exact_matches, |item| *item)
                     }
                     Operator::Ge => self.find_range_with_reader(reader, Some(key), None)?,
                     Operator::Le => self.find_range_with_reader(reader, None, Some(key))?,
diff --git a/src/rust/fcb_core/src/static_btree/query/types.rs b/src/rust/fcb_core/src/static_btree/query/types.rs
index 51921c1..6d3f606 100644
--- a/src/rust/fcb_core/src/static_btree/query/types.rs
+++ b/src/rust/fcb_core/src/static_btree/query/types.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use crate::static_btree::error::Result;
 use crate::static_btree::key::Key;
 use crate::static_btree::key::KeyType;
@@ -19,6 +21,23 @@ pub enum Operator {
     Le,
 }
 
+/// The entries of `items` without those of `excluded`, entry by entry: an offset that is indexed
+/// under another key as well stays in the result.
+pub(crate) fn without<T>(mut items: Vec<T>, excluded: &[T], offset: impl Fn(&T) -> u64) -> Vec<T> {
+    let mut left: HashMap<u64, usize> = HashMap::new();
+    for item in excluded {
+        *left.entry(offset(item)).or_default() += 1;
+    }
+    items.retain(|item| match left.get_mut(&offset(item)) {
+        Some(n) if *n > 0 => {
+            *n -= 1;
+            false
+        }
+        _ => true,
+    });
+    items
+}
+
 /// A query condition with an enum key type
 #[derive(Debug, Clone)]
 pub struct QueryCondition {
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 2f7abee..6b66da4 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -950,6 +950,32 @@ impl<K: Key> Stree<K> {
         Ok(results)
     }
 
+    /// Finds all items with keys in [lower, upper], an upper bound that separates two nodes
+    /// included (`find_range` leaves it out).
+    pub fn find_range_inclusive(&self, lower: &K, upper: &K) -> Result<Vec<SearchResultItem>> {
+        let leaves = &self.node_items[self.level_bounds[0].clone()];
+        let start = leaves.partition_point(|item| item.key < *lower);
+        let end = leaves.partition_point(|item| item.key <= *upper);
+        let mut results = Vec::new();
+        for (i, item) in leaves.iter().enumerate().take(end).skip(start) {
+            if self.payload_initialized && (item.offset & PAYLOAD_TAG) != 0 {
+                let rel = (item.offset & PAYLOAD_MASK) as usize;
+                let (entry, _) =
+                    PayloadEntry::deserialize(&mut Cursor::new(&self.payload_data[rel..]))?;
+                results.extend(entry.offsets.iter().map(|o| SearchResultItem {
+                    offset: *o as usize,
+                    index: i,
+                }));
+            } else {
+                results.push(SearchResultItem {
+                    offset: item.offset as usize,
+                    index: i,
+                });
+            }
+        }
+        Ok(results)
+    }
+
     pub fn stream_find_range<R: Read + Seek + ?Sized>(
         data: &mut R,
         num_items: usize, // number of items in the tree, not the number of entries of original data
@@ -1508,6 +1534,35 @@ impl<K: Key> Stree<K> {
         lower: K,
         upper: K,
         combine_request_threshold: usize,
+    ) -> Result<Vec<HttpSearchResultItem>> {
+        Self::http_stream_find_range_to(
+            client,
+            index_begin,
+            feature_begin,
+            num_items,
+            branching_factor,
+            lower,
+            upper,
+            combine_request_threshold,
+            false,
+        )
+        .await
+    }
+
+    /// Finds all items with keys in [lower, upper]. With `include_separator` an upper bound that
+    /// separates two nodes is included (`http_stream_find_range` leaves it out).
+    #[cfg(feature = "http")]
+    #[allow(clippy::too_many_arguments)]
+    pub async fn http_stream_find_range_to<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        index_begin: usize,
+        feature_begin: usize,
+        num_items: usize,
+        branching_factor: u16,
+        lower: K,
+        upper: K,
+        combine_request_threshold: usize,
+        include_separator: bool,
     ) -> Result<Vec<HttpSearchResultItem>> {
         debug!("http_stream_find_range starts: index_begin: {index_begin}, feature_begin: {feature_begin}, num_items: {num_items}, branching_factor: {branching_factor}, lower: {lower:?}, upper: {upper:?}");
 
@@ -1588,7 +1643,12 @@ impl<K: Key> Stree<K> {
 
         // Calculate the actual range within the leaf level
         let start_idx = max(lower_idx, leaf_start);
-        let end_idx = min(upper_idx + node_size, leaf_end);
+        let end_idx = if include_separator {
+            // the separator is the first key of the next node
+            min(upper_idx + node_size + 1, leaf_end)
+        } else {
+            min(upper_idx + node_size, leaf_end)
+        };
 
         // Collect payload references instead of immediately resolving them
         let mut payload_refs = Vec::new();
-- 
2.43.0


From 2bf99c748977a5c0a476453307d8a9d18873f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 18/52] fix: keep debug prints off standard output, which
 carries the converted data

---
 src/rust/cli/src/main.rs                           | 1 -
 src/rust/fcb_core/src/http_reader/mod.rs           | 4 ----
 src/rust/fcb_core/src/reader/attr_query.rs         | 1 -
 src/rust/fcb_core/src/static_btree/query/stream.rs | 3 ---
 src/rust/fcb_core/src/static_btree/stree.rs        | 2 --
 src/rust/fcb_core/src/writer/attr_index.rs         | 1 -
 src/rust/fcb_core/src/writer/attribute.rs          | 2 --
 7 files changed, 14 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index a8e25e7..2257fd1 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -253,7 +253,6 @@ fn serialize(
         geographical_extent: geo_extent,
     };
 
-    println!("header_options in cli: {:?}", header_options);
 
     let mut fcb = FcbWriter::new(cj, Some(header_options), attr_schema, semantic_attr_schema)?;
 
diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index a9deae9..faa7704 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -297,7 +297,6 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             count
         );
 
-        println!("http_ranges: {:?}", http_ranges);
         Ok(AsyncFeatureIter {
             client: self.client,
             fbs: self.fbs,
@@ -442,7 +441,6 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                 }
 
                 _ => {
-                    println!("Unsupported column type: {:?}", col.type_());
                     return Err(Error::UnsupportedColumnType(col.name().to_string()));
                 }
             }
@@ -680,13 +678,11 @@ impl SelectAttr {
         &mut self,
         client: &mut AsyncBufferedHttpRangeClient<T>,
     ) -> Result<Option<Bytes>> {
-        println!("self.range_pos: {:?}", self.range_pos);
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
         let mut feature_buffer = BytesMut::from(client.get_range(range.start(), 4).await?);
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        println!("feature_size: {:?}", feature_size);
         feature_buffer.put(client.get_range(range.start() + 4, feature_size).await?);
         self.range_pos += 1;
         Ok(Some(feature_buffer.freeze()))
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index ebf8bd4..fc6b4b9 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -133,7 +133,6 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                 _ => return Err(Error::UnsupportedColumnType(col.name().to_string())),
             }
         } else {
-            println!("  - Skipping index for field: {}", col.name());
         }
     }
     Ok(())
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index c05b0a4..64c2118 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -406,9 +406,6 @@ impl StreamMultiIndex {
             let index_start = start_position + index_range.start as u64;
             // set cursor to the start of the index
             reader.seek(SeekFrom::Start(index_start))?;
-            println!("index_start: {}", index_start);
-            println!("start_position: {}", start_position);
-            println!("query condition: {:?}", cond);
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
             if result_set.is_empty() {
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 6b66da4..f616225 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -1672,11 +1672,9 @@ impl<K: Key> Stree<K> {
                 if item.key >= lower && item.key <= upper {
                     let off = item.offset;
 
-                    println!("off: {:?}", off);
 
                     if (off & PAYLOAD_TAG) != 0 {
                         let rel = (off & PAYLOAD_MASK) as usize;
-                        println!("rel: {:?}", rel);
                         // Add as indirect reference to be resolved in batch
                         payload_refs.push(PayloadRef::Indirect(rel));
                     } else {
diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index f8b70ca..3a5bd23 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -302,7 +302,6 @@ pub(super) fn build_attribute_index_for_attr(
             branching_factor,
         ),
         _ => {
-            println!("Unsupported column type for indexing: {:?}", coltype);
             Err(Error::UnsupportedColumnType(format!("{:?}", coltype)))
         }
     }
diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index eaabbea..98cbf4d 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -294,7 +294,6 @@ pub fn attribute_to_index_entries(
         let val: &Value = match map.get(attr) {
             Some(val) => val,
             None => {
-                println!("Attribute {} not found in schema", attr);
                 continue;
             }
         };
@@ -375,7 +374,6 @@ pub fn attribute_to_index_entries(
                 }
                 _ => {
                     //Byte, Ubyte,
-                    println!("Attribute {} is not supported for indexing", attr);
                 }
             }
         }
-- 
2.43.0


From 600eef26112feaaeeab3e8aac8c630ecdf4b73c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 19/52] fix: do not index null, unfitting and unparsable values
 as if they were zero, empty or 1970

---
 src/rust/fcb_core/src/writer/attribute.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 98cbf4d..363d8f8 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -300,6 +300,10 @@ pub fn attribute_to_index_entries(
 
         let index_coltype = schema.get(attr);
         if let Some((index, coltype)) = index_coltype {
+            // only a value that is stored in the column has a key in its index
+            if val.is_null() || !fits_column(*coltype, val) {
+                continue;
+            }
             match *coltype {
                 ColumnType::Bool => {
                     let b = val.as_bool().unwrap_or(false);
@@ -362,9 +366,8 @@ pub fn attribute_to_index_entries(
                         Ok(dt) => dt.to_utc(),
                         Err(e) => {
                             eprintln!("Failed to parse DateTime: {}", e);
-                            // Choose whether to skip, default, or handle differently
-                            // For example, default to 1970-01-01:
-                            DateTime::<Utc>::from_timestamp(0, 0).unwrap()
+                            // a value without a date-time has no place in the index
+                            continue;
                         }
                     };
                     index_entries.push(AttributeIndexEntry::DateTime {
-- 
2.43.0


From c3c6be78e870107b263b192a575d3fea92616633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 20/52] fix: index byte, unsigned byte, short and unsigned
 short attributes

---
 src/rust/fcb_core/src/writer/attr_index.rs |  2 +-
 src/rust/fcb_core/src/writer/attribute.rs  | 32 ++++++++++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index 3a5bd23..c7deebe 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -237,7 +237,7 @@ pub(super) fn build_attribute_index_for_attr(
             },
             branching_factor,
         ),
-        ColumnType::Byte => build_index_generic::<u8, _>(
+        ColumnType::Byte => build_index_generic::<i8, _>(
             *schema_index,
             attribute_entries,
             |entry| {
diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 363d8f8..62af037 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -255,7 +255,7 @@ pub enum AttributeIndexEntry {
     DateTime { index: u16, val: DateTime<Utc> },
     Short { index: u16, val: i16 },
     UShort { index: u16, val: u16 },
-    Byte { index: u16, val: u8 },
+    Byte { index: u16, val: i8 },
     UByte { index: u16, val: u8 },
     Json { index: u16, val: String },
     Binary { index: u16, val: String },
@@ -375,8 +375,36 @@ pub fn attribute_to_index_entries(
                         val: dt,
                     });
                 }
+                ColumnType::Byte => {
+                    let i = val.as_i64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::Byte {
+                        index: *index,
+                        val: i as i8,
+                    });
+                }
+                ColumnType::UByte => {
+                    let i = val.as_u64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::UByte {
+                        index: *index,
+                        val: i as u8,
+                    });
+                }
+                ColumnType::Short => {
+                    let i = val.as_i64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::Short {
+                        index: *index,
+                        val: i as i16,
+                    });
+                }
+                ColumnType::UShort => {
+                    let i = val.as_u64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::UShort {
+                        index: *index,
+                        val: i as u16,
+                    });
+                }
                 _ => {
-                    //Byte, Ubyte,
+                    // JSON and binary attributes have no index
                 }
             }
         }
-- 
2.43.0


From 100ef7b08782253c16cf60f59f022cd9e43e10da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 21/52] fix: query attributes of type long (every inferred
 column whose first value is negative)

---
 src/rust/fcb_core/src/http_reader/mod.rs   | 10 ++++++++++
 src/rust/fcb_core/src/reader/attr_query.rs | 17 +++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index faa7704..cfcf740 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -409,6 +409,16 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                     );
                     multi_index.add_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = HttpIndex::<i64>::new(
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                        index_begin,
+                        feature_begin,
+                        1024 * 1024, // combine_request_threshold
+                    );
+                    multi_index.add_index(col.name().to_string(), index);
+                }
                 ColumnType::ULong => {
                     let index = HttpIndex::<u64>::new(
                         attr_info.num_unique_items() as usize,
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index fc6b4b9..e2b1204 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -106,6 +106,14 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                     )?;
                     multi_index.add_u32_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = MemoryIndex::<i64>::from_buf(
+                        &mut buf,
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                    )?;
+                    multi_index.add_i64_index(col.name().to_string(), index);
+                }
                 ColumnType::ULong => {
                     let index = MemoryIndex::<u64>::from_buf(
                         &mut buf,
@@ -242,6 +250,15 @@ pub fn add_indices_to_multi_stream_index<R: Read + Seek>(
                 );
                 multi_index.add_u32_index(col.name().to_string(), index, attr_info.length() as u64);
             }
+            ColumnType::Long => {
+                let index = StreamIndex::<i64>::new(
+                    attr_info.num_unique_items() as usize,
+                    attr_info.branching_factor(),
+                    index_begin,
+                    attr_info.length() as u64,
+                );
+                multi_index.add_i64_index(col.name().to_string(), index, attr_info.length() as u64);
+            }
             ColumnType::ULong => {
                 let index = StreamIndex::<u64>::new(
                     attr_info.num_unique_items() as usize,
-- 
2.43.0


From 344e61cd577b006c35136b731a60064bd63f6681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 22/52] fix: return each feature once from a sequential
 attribute query

---
 src/rust/fcb_core/src/reader/attr_query.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index e2b1204..308ca54 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -486,6 +486,7 @@ impl<R: Read> FcbReader<R> {
         let query_obj = build_query(&query);
         let mut result = multi_index.query(&query_obj.conditions)?;
         result.sort();
+        result.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
-- 
2.43.0


From e0f6e9d38b27c10839484e076fc8847a6e62830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 23/52] fix: search the spatial index with the node size the
 header states

---
 src/rust/fcb_core/src/http_reader/mod.rs | 2 +-
 src/rust/fcb_core/src/reader/mod.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index cfcf740..050de97 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -209,7 +209,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             header_len,
             attr_index_size,
             count,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
             query,
             combine_request_threshold,
         )
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 522fefc..72a1d87 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -213,7 +213,7 @@ impl<R: Read + Seek> FcbReader<R> {
         let list = PackedRTree::stream_search(
             &mut self.reader,
             header.features_count() as usize,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
             query,
         )?;
         debug_assert!(
-- 
2.43.0


From 2296bd218f9c9f0c89a55b4b49db2ba4ca34f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 24/52] fix: report missing features instead of ending early,
 and count the features left of an attribute query

---
 src/rust/fcb_core/src/reader/mod.rs | 44 +++++++++++++++--------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 72a1d87..beec46a 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -468,26 +468,27 @@ impl<R: Read, S> FeatureIter<R, S> {
             total_feat_count,
         };
 
-        if iter.read_feature_size() {
-            iter.state = State::Finished;
-        } else {
-            iter.state = State::ReadFirstFeatureSize
-        }
-
-        iter.count = match &iter.item_filter {
-            Some(list) => Some(list.len()),
-            None => {
+        iter.count = match (&iter.item_filter, &iter.item_attr_filter) {
+            (Some(list), _) => Some(list.len()),
+            (None, Some(list)) => Some(list.len()),
+            (None, None) => {
                 let feat_count = iter.buffer.header().features_count() as usize;
                 if feat_count > 0 {
                     Some(feat_count)
-                } else if iter.state == State::Finished {
-                    Some(0)
                 } else {
                     None
                 }
             }
         };
 
+        if iter.read_feature_size().is_ok() {
+            iter.state = State::ReadFirstFeatureSize
+        } else if iter.count.unwrap_or(0) == 0 {
+            iter.state = State::Finished;
+            iter.count = Some(0);
+        }
+        // otherwise a feature is missing, and the first advance reports it
+
         iter
     }
 
@@ -524,13 +525,12 @@ impl<R: Read, S> FeatureIter<R, S> {
         false
     }
 
-    /// Read feature size and return true if end of dataset reached
-    fn read_feature_size(&mut self) -> bool {
+    /// Read feature size
+    fn read_feature_size(&mut self) -> Result<(), Error> {
         self.buffer.features_buf.resize(4, 0);
+        self.reader.read_exact(&mut self.buffer.features_buf)?;
         self.cur_pos += 4;
-        self.reader
-            .read_exact(&mut self.buffer.features_buf)
-            .is_err()
+        Ok(())
     }
 
     fn read_feature(&mut self) -> Result<(), Error> {
@@ -538,11 +538,16 @@ impl<R: Read, S> FeatureIter<R, S> {
             State::ReadFirstFeatureSize => {
                 self.state = State::Reading;
             }
-            State::Reading => {
-                if self.read_feature_size() {
+            State::Init | State::Reading => {
+                if let Err(e) = self.read_feature_size() {
+                    if self.count.is_some() {
+                        // the data ends before the last of the expected features
+                        return Err(e);
+                    }
                     self.state = State::Finished;
                     return Ok(());
                 }
+                self.state = State::Reading;
             }
             State::Finished => {
                 debug_assert!(
@@ -551,9 +556,6 @@ impl<R: Read, S> FeatureIter<R, S> {
                 );
                 return Ok(());
             }
-            State::Init => {
-                unreachable!("should have read first feature size before reading any features")
-            }
         }
         let sbuf = &self.buffer.features_buf;
         let feature_size = u32::from_le_bytes([sbuf[0], sbuf[1], sbuf[2], sbuf[3]]) as usize;
-- 
2.43.0


From 066ad71931ea8b1ce39bc0a3f7317e05bf92f008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 25/52] fix: refuse a header that does not verify

---
 src/rust/fcb_core/src/reader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index beec46a..0e00448 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -108,7 +108,7 @@ impl<R: Read> FcbReader<R> {
         reader.read_exact(&mut header_buf[4..])?;
 
         if verify {
-            let _header = size_prefixed_root_as_header(&header_buf);
+            let _header = size_prefixed_root_as_header(&header_buf)?;
         }
 
         Ok(FcbReader {
-- 
2.43.0


From 50f0892a1d3d9237f4ffd8977b73ab02678f9df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 26/52] fix: state which node of a remote search has no
 successor (the assertion failed for every tree of two levels)

---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index afdbf5c..e469a6a 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -980,7 +980,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos + 1,
+                                    level_bounds[0].end
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1089,7 +1092,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos + 1,
+                                    level_bounds[0].end
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1228,7 +1234,7 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 }
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                // the last of the fetched nodes, whose feature has an unknown length
                                 HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 }
-- 
2.43.0


From 30bb534b18195247a80cfebdea3579b5dbc95e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 27/52] fix: return each feature once from an attribute query
 when several of its objects match

---
 src/rust/fcb_core/src/reader/attr_query.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 308ca54..bb42377 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -405,6 +405,7 @@ impl<R: Read + Seek> FcbReader<R> {
         // Sort the results
         let mut result_vec: Vec<u64> = result.into_iter().collect();
         result_vec.sort();
+        result_vec.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
-- 
2.43.0


From d60a1c24814064cf3289efda1403a797b7218f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 28/52] fix: give a feature without vertices no place in the
 spatial index instead of the origin

---
 src/rust/fcb_core/src/packed_rtree/mod.rs  | 12 ++++++++++++
 src/rust/fcb_core/src/writer/serializer.rs |  7 ++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index e469a6a..ca9a99f 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -147,6 +147,11 @@ impl NodeItem {
         true
     }
 
+    /// The bounding box of nothing, as made by `create`
+    fn is_empty(&self) -> bool {
+        self.min_x > self.max_x || self.min_y > self.max_y
+    }
+
     /// Check if a point is inside or on the boundary of this NodeItem's bounding box
     pub fn contains_point(&self, x: f64, y: f64) -> bool {
         x >= self.min_x && x <= self.max_x && y >= self.min_y && y <= self.max_y
@@ -154,6 +159,9 @@ impl NodeItem {
 
     /// Calculate the squared Euclidean distance from a point to the centroid of this NodeItem
     pub fn centroid_distance_squared(&self, x: f64, y: f64) -> f64 {
+        if self.is_empty() {
+            return f64::INFINITY;
+        }
         let centroid_x = (self.min_x + self.max_x) / 2.0;
         let centroid_y = (self.min_y + self.max_y) / 2.0;
         let dx = x - centroid_x;
@@ -168,6 +176,10 @@ impl NodeItem {
             return 0.0;
         }
 
+        if self.is_empty() {
+            return f64::INFINITY;
+        }
+
         // Calculate closest point on the bbox
         let closest_x = x.clamp(self.min_x, self.max_x);
         let closest_y = y.clamp(self.min_y, self.max_y);
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index ddaee78..f8d6cff 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -472,7 +472,12 @@ pub(super) fn to_fcb_city_feature<'a>(
         .max()
         .unwrap_or(0) as f64;
 
-    let bbox = NodeItem::new(min_x, min_y, max_x, max_y);
+    let bbox = if city_feature.vertices.is_empty() {
+        // nothing to find: not even the origin
+        NodeItem::create(0)
+    } else {
+        NodeItem::new(min_x, min_y, max_x, max_y)
+    };
     (
         CityFeature::create(
             fbb,
-- 
2.43.0


From 88825c5faa2c30846651944bcd89c37b9cd6945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:15 +0000
Subject: [PATCH 29/52] fix: store the offsets of an attribute index in file
 order (equal inputs gave different bytes)

---
 src/rust/fcb_core/src/writer/attr_index.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index c7deebe..f89bd99 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -24,7 +24,11 @@ where
 {
     let mut entries: Vec<Entry<T>> = Vec::new();
 
-    for feature in attribute_entries.values() {
+    // in file order, so that equal inputs give equal bytes
+    let mut features: Vec<_> = attribute_entries.values().collect();
+    features.sort_by_key(|feature| feature.offset);
+
+    for feature in features {
         for entry in &feature.index_entries {
             let Some(key) = extract(entry) else {
                 continue;
-- 
2.43.0


From 8f1642fb1500d687446c476bba7eb590a1317b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 30/52] fix: a file shorter than the magic bytes does not start
 with them (the check panicked)

---
 src/rust/fcb_core/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/lib.rs b/src/rust/fcb_core/src/lib.rs
index 650dc0b..091609a 100644
--- a/src/rust/fcb_core/src/lib.rs
+++ b/src/rust/fcb_core/src/lib.rs
@@ -55,5 +55,8 @@ pub use writer::*;
 pub use http_reader::*;
 
 pub fn check_magic_bytes(bytes: &[u8]) -> bool {
-    bytes[0..3] == MAGIC_BYTES[0..3] && bytes[4..7] == MAGIC_BYTES[4..7] && bytes[3] <= VERSION
+    bytes.len() >= MAGIC_BYTES_SIZE
+        && bytes[0..3] == MAGIC_BYTES[0..3]
+        && bytes[4..7] == MAGIC_BYTES[4..7]
+        && bytes[3] <= VERSION
 }
-- 
2.43.0


From 96dcab000f446af0f1a0973687b58898a861de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 31/52] fix: fail a remote read whose response is shorter than
 what was asked for

---
 src/rust/fcb_core/src/http_reader/mod.rs | 31 +++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 050de97..8b2c130 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -99,13 +99,13 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         client.set_min_req_size(min_req_size);
         debug!("fetching header. min_req_size: {min_req_size} (assumed_header_size: {assumed_header_size}, prefetched_index_bytes: {prefetch_index_bytes})");
         let mut read_bytes = 0;
-        let bytes = client.get_range(read_bytes, MAGIC_BYTES_SIZE).await?; // to get magic bytes
+        let bytes = get_exact(&mut client, read_bytes, MAGIC_BYTES_SIZE).await?; // to get magic bytes
         if !check_magic_bytes(bytes) {
             return Err(Error::MissingMagicBytes);
         }
 
         read_bytes += MAGIC_BYTES_SIZE;
-        let mut bytes = BytesMut::from(client.get_range(read_bytes, HEADER_SIZE_SIZE).await?);
+        let mut bytes = BytesMut::from(get_exact(&mut client, read_bytes, HEADER_SIZE_SIZE).await?);
         read_bytes += HEADER_SIZE_SIZE;
 
         let header_size = LittleEndian::read_u32(&bytes) as usize;
@@ -114,7 +114,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             return Err(Error::IllegalHeaderSize(header_size));
         }
 
-        bytes.put(client.get_range(read_bytes, header_size).await?);
+        bytes.put(get_exact(&mut client, read_bytes, header_size).await?);
         read_bytes += header_size;
 
         let header_buf = bytes.to_vec();
@@ -498,6 +498,19 @@ impl<T: AsyncHttpRangeClient + Send + Sync> AsyncFeatureIter<T> {
     }
 }
 
+/// Read a range of which every byte is needed (a server may answer with fewer)
+async fn get_exact<T: AsyncHttpRangeClient>(
+    client: &mut AsyncBufferedHttpRangeClient<T>,
+    begin: usize,
+    length: usize,
+) -> Result<&[u8]> {
+    let bytes = client.get_range(begin, length).await?;
+    if bytes.len() < length {
+        return Err(Error::IoError(std::io::ErrorKind::UnexpectedEof.into()));
+    }
+    Ok(bytes)
+}
+
 enum FeatureSelection {
     SelectAll(SelectAll),
     SelectBbox(SelectBbox),
@@ -537,10 +550,10 @@ impl SelectAll {
         }
         self.features_left -= 1;
 
-        let mut feature_buffer = BytesMut::from(client.get_range(self.pos, 4).await?);
+        let mut feature_buffer = BytesMut::from(get_exact(client, self.pos, 4).await?);
         self.pos += 4;
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(self.pos, feature_size).await?);
+        feature_buffer.put(get_exact(client, self.pos, feature_size).await?);
         self.pos += feature_size;
 
         Ok(Some(feature_buffer.freeze()))
@@ -668,10 +681,10 @@ impl FeatureBatch {
         };
 
         let mut pos = feature_range.start();
-        let mut feature_buffer = BytesMut::from(client.get_range(pos, 4).await?);
+        let mut feature_buffer = BytesMut::from(get_exact(client, pos, 4).await?);
         pos += 4;
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(pos, feature_size).await?);
+        feature_buffer.put(get_exact(client, pos, feature_size).await?);
 
         Ok(Some(feature_buffer.freeze()))
     }
@@ -691,9 +704,9 @@ impl SelectAttr {
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
-        let mut feature_buffer = BytesMut::from(client.get_range(range.start(), 4).await?);
+        let mut feature_buffer = BytesMut::from(get_exact(client, range.start(), 4).await?);
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(range.start() + 4, feature_size).await?);
+        feature_buffer.put(get_exact(client, range.start() + 4, feature_size).await?);
         self.range_pos += 1;
         Ok(Some(feature_buffer.freeze()))
     }
-- 
2.43.0


From 33003e97ea4874efda3efc64f03a8dcf54935d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 32/52] fix: fail a remote spatial query when a response lacks
 index nodes instead of answering without them

---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index ca9a99f..1b19f5e 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -231,7 +231,9 @@ async fn read_http_node_items<T: AsyncHttpRangeClient>(
         .await?;
 
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
+    if bytes.len() < length {
+        return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
+    }
     for node_item_bytes in bytes.chunks(size_of::<NodeItem>()) {
         node_items.push(NodeItem::from_bytes(node_item_bytes)?);
     }
-- 
2.43.0


From 60c6abe16c09a8a9a7402c13fc5acaab87c7d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 33/52] fix: fail a remote attribute query when a response
 lacks index nodes instead of answering without them

---
 src/rust/fcb_core/src/static_btree/stree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index f616225..fb4c2de 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -103,7 +103,9 @@ async fn read_http_node_items<K: Key, T: AsyncHttpRangeClient>(
         .await?;
 
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
+    if bytes.len() < length {
+        return Err(Error::IoError(std::io::ErrorKind::UnexpectedEof.into()));
+    }
     for node_item_bytes in bytes.chunks(NodeItem::<K>::SERIALIZED_SIZE) {
         let node_item = NodeItem::from_reader(&mut Cursor::new(node_item_bytes))?;
         node_items.push(node_item);
-- 
2.43.0


From 23b80ff874d2b1a2e69486921dbd5cb860f9f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:09 +0000
Subject: [PATCH 34/52] fix: keep the position of a remote reader when a read
 fails (a retry skipped or altered features)

---
 src/rust/fcb_core/src/http_reader/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 8b2c130..31bb66f 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -548,13 +548,12 @@ impl SelectAll {
         if self.features_left == 0 {
             return Ok(None);
         }
-        self.features_left -= 1;
 
         let mut feature_buffer = BytesMut::from(get_exact(client, self.pos, 4).await?);
-        self.pos += 4;
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(get_exact(client, self.pos, feature_size).await?);
-        self.pos += feature_size;
+        feature_buffer.put(get_exact(client, self.pos + 4, feature_size).await?);
+        self.features_left -= 1;
+        self.pos += 4 + feature_size;
 
         Ok(Some(feature_buffer.freeze()))
     }
@@ -676,7 +675,7 @@ impl FeatureBatch {
     ) -> Result<Option<Bytes>> {
         let request_size = self.request_size();
         client.set_min_req_size(request_size);
-        let Some(feature_range) = self.feature_ranges.pop_front() else {
+        let Some(feature_range) = self.feature_ranges.front() else {
             return Ok(None);
         };
 
@@ -685,6 +684,7 @@ impl FeatureBatch {
         pos += 4;
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
         feature_buffer.put(get_exact(client, pos, feature_size).await?);
+        self.feature_ranges.pop_front();
 
         Ok(Some(feature_buffer.freeze()))
     }
-- 
2.43.0


From bd0304b4101941d5eb71a0c452d16fe1287b9e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 35/52] fix: return each feature once, in file order, from a
 remote attribute query as from a local one

---
 src/rust/fcb_core/src/http_reader/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 31bb66f..4d05a93 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -280,17 +280,19 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             .query(&mut self.client, &query.conditions)
             .await?;
 
-        let count = result.len();
-
         // println!("result: {:?}", result);
 
-        let http_ranges: Vec<HttpRange> = result
+        let mut http_ranges: Vec<HttpRange> = result
             .into_iter()
             .map(|item| match item.range {
                 AttrHttpRange::Range(range) => HttpRange::Range(range.start..range.end),
                 AttrHttpRange::RangeFrom(range) => HttpRange::RangeFrom(range.start..),
             })
             .collect();
+        // each feature once and in the order of the file, as the local reader returns them
+        http_ranges.sort_by_key(|range| range.start());
+        http_ranges.dedup_by_key(|range| range.start());
+        let count = http_ranges.len();
 
         trace!(
             "completed: select_attr_query via http reader, matched features: {}",
-- 
2.43.0


From 36f918abb40ee05fb7238e3f1303ac1324d6d47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 36/52] fix: fail a spatial query on an index whose nodes
 contradict its size (searches panicked)

---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 134 +++++++++++++---------
 1 file changed, 80 insertions(+), 54 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index 1b19f5e..2ea4804 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -191,15 +191,34 @@ impl NodeItem {
     }
 }
 
-/// Read full capacity of vec from data stream
-fn read_node_vec(node_items: &mut Vec<NodeItem>, mut data: impl Read) -> Result<(), Error> {
+/// Read a number of nodes from data stream
+fn read_node_vec(
+    node_items: &mut Vec<NodeItem>,
+    length: usize,
+    mut data: impl Read,
+) -> Result<(), Error> {
     node_items.clear();
-    for _ in 0..node_items.capacity() {
+    for _ in 0..length {
         node_items.push(NodeItem::from_reader(&mut data)?);
     }
     Ok(())
 }
 
+/// The error for an index whose nodes contradict its size
+fn damaged() -> Error {
+    Error::RTreeError("the index is damaged".to_string())
+}
+
+/// The position of a child node, which has to lie in the level below
+fn child_index(offset: u64, level: &Range<usize>) -> Result<usize, Error> {
+    let index = offset as usize;
+    if level.contains(&index) {
+        Ok(index)
+    } else {
+        Err(damaged())
+    }
+}
+
 /// Read partial item vec from data stream
 fn read_node_items<R: Read + Seek>(
     data: &mut R,
@@ -211,7 +230,7 @@ fn read_node_items<R: Read + Seek>(
     data.seek(SeekFrom::Start(
         base + (node_index * size_of::<NodeItem>()) as u64,
     ))?;
-    read_node_vec(&mut node_items, data)?;
+    read_node_vec(&mut node_items, length, data)?;
     Ok(node_items)
 }
 
@@ -423,7 +442,9 @@ impl PackedRTree {
     }
 
     fn read_data(&mut self, data: impl Read) -> Result<(), Error> {
-        read_node_vec(&mut self.node_items, data)?;
+        // the vector grows with the data, whatever number of nodes the header implies
+        let num_nodes = self.level_bounds[0].end;
+        read_node_vec(&mut self.node_items, num_nodes, data)?;
         for node in &self.node_items {
             self.extent.expand(node)
         }
@@ -483,13 +504,9 @@ impl PackedRTree {
     ) -> Result<PackedRTree, Error> {
         let node_size = node_size.clamp(2u16, 65535u16);
         let level_bounds = PackedRTree::generate_level_bounds(num_items, node_size);
-        let num_nodes = level_bounds
-            .first()
-            .expect("RTree has at least one level when node_size >= 2 and num_items > 0")
-            .end;
         let mut tree = PackedRTree {
             extent: NodeItem::create(0),
-            node_items: Vec::with_capacity(num_nodes),
+            node_items: Vec::new(),
             num_leaf_nodes: num_items,
             branching_factor: node_size,
             level_bounds,
@@ -554,7 +571,8 @@ impl PackedRTree {
                                 index: pos - leaf_nodes_offset,
                             });
                         } else {
-                            queue.push_back((node_item.offset as usize, level - 1));
+                            let children = &self.level_bounds[level - 1];
+                            queue.push_back((child_index(node_item.offset, children)?, level - 1));
                         }
                     }
                 }
@@ -589,7 +607,8 @@ impl PackedRTree {
                                 index: pos - leaf_nodes_offset,
                             });
                         } else {
-                            queue.push_back((node_item.offset as usize, level - 1));
+                            let children = &self.level_bounds[level - 1];
+                            queue.push_back((child_index(node_item.offset, children)?, level - 1));
                         }
                     }
                 }
@@ -683,7 +702,10 @@ impl PackedRTree {
                             // Add this node to the queue with its minimum distance
                             queue.push(Reverse(QueueItem {
                                 distance: dist,
-                                node_index: node_item.offset as usize,
+                                node_index: child_index(
+                                    node_item.offset,
+                                    &self.level_bounds[level - 1],
+                                )?,
                                 level: level - 1,
                             }));
                         }
@@ -743,8 +765,8 @@ impl PackedRTree {
                             let offset = node_item.offset as usize;
                             results.push(SearchResultItem { offset, index });
                         } else {
-                            let offset = node_item.offset as usize;
                             let prev_level = level - 1;
+                            let offset = child_index(node_item.offset, &level_bounds[prev_level])?;
                             queue.push_back((offset, prev_level));
                         }
                     }
@@ -782,8 +804,8 @@ impl PackedRTree {
                             let offset = node_item.offset as usize;
                             results.push(SearchResultItem { offset, index });
                         } else {
-                            let offset = node_item.offset as usize;
                             let prev_level = level - 1;
+                            let offset = child_index(node_item.offset, &level_bounds[prev_level])?;
                             queue.push_back((offset, prev_level));
                         }
                     }
@@ -881,7 +903,10 @@ impl PackedRTree {
                             // Add this node to the queue with its minimum distance
                             queue.push(Reverse(QueueItem {
                                 distance: dist,
-                                node_index: node_item.offset as usize,
+                                node_index: child_index(
+                                    node_item.offset,
+                                    &level_bounds[level - 1],
+                                )?,
                                 level: level - 1,
                             }));
                         }
@@ -987,25 +1012,27 @@ impl PackedRTree {
 
                         if node_range.level == 0 {
                             // leaf node
-                            let start = feature_begin + node_item.offset as usize;
+                            let start = feature_begin.saturating_add(node_item.offset as usize);
                             if let Some(next_node_item) = &node_items.get(node_pos + 1) {
-                                let end = feature_begin + next_node_item.offset as usize;
+                                let end =
+                                    feature_begin.saturating_add(next_node_item.offset as usize);
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(
-                                    node_range.nodes.start + node_pos + 1,
-                                    level_bounds[0].end
-                                );
+                                if node_range.nodes.start + node_pos + 1 != level_bounds[0].end {
+                                    return Err(damaged());
+                                }
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
                             }
                         } else {
                             let children_level = node_range.level - 1;
-                            let mut children_nodes = node_item.offset as usize
-                                ..(node_item.offset + branching_factor as u64) as usize;
+                            let first_child =
+                                child_index(node_item.offset, &level_bounds[children_level])?;
+                            let mut children_nodes =
+                                first_child..first_child + branching_factor as usize;
                             if children_level == 0 {
                                 // These children are leaf nodes.
                                 //
@@ -1046,15 +1073,12 @@ impl PackedRTree {
                                     // we skip that computation.
                                     //
                                     // But let's make sure we're in the state we think we are:
-                                    debug_assert_eq!(
-                                        children_range.nodes.start + 1,
-                                        tail.nodes.end,
-                                        "we only ever fetch one extra node"
-                                    );
-                                    debug_assert_eq!(
-                                        children_level, 0,
-                                        "extra node fetching only happens with leaf nodes"
-                                    );
+                                    // (we only ever fetch one extra node, and only leaf nodes)
+                                    if children_range.nodes.start + 1 != tail.nodes.end
+                                        || children_level != 0
+                                    {
+                                        return Err(damaged());
+                                    }
                                     0
                                 }
                             };
@@ -1099,25 +1123,27 @@ impl PackedRTree {
 
                         if node_range.level == 0 {
                             // leaf node
-                            let start = feature_begin + node_item.offset as usize;
+                            let start = feature_begin.saturating_add(node_item.offset as usize);
                             if let Some(next_node_item) = &node_items.get(node_pos + 1) {
-                                let end = feature_begin + next_node_item.offset as usize;
+                                let end =
+                                    feature_begin.saturating_add(next_node_item.offset as usize);
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(
-                                    node_range.nodes.start + node_pos + 1,
-                                    level_bounds[0].end
-                                );
+                                if node_range.nodes.start + node_pos + 1 != level_bounds[0].end {
+                                    return Err(damaged());
+                                }
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
                             }
                         } else {
                             let children_level = node_range.level - 1;
-                            let mut children_nodes = node_item.offset as usize
-                                ..(node_item.offset + branching_factor as u64) as usize;
+                            let first_child =
+                                child_index(node_item.offset, &level_bounds[children_level])?;
+                            let mut children_nodes =
+                                first_child..first_child + branching_factor as usize;
                             if children_level == 0 {
                                 children_nodes.end += 1;
                             }
@@ -1146,15 +1172,12 @@ impl PackedRTree {
                                     (children_range.nodes.start - tail.nodes.end)
                                         * size_of::<NodeItem>()
                                 } else {
-                                    debug_assert_eq!(
-                                        children_range.nodes.start + 1,
-                                        tail.nodes.end,
-                                        "we only ever fetch one extra node"
-                                    );
-                                    debug_assert_eq!(
-                                        children_level, 0,
-                                        "extra node fetching only happens with leaf nodes"
-                                    );
+                                    // (we only ever fetch one extra node, and only leaf nodes)
+                                    if children_range.nodes.start + 1 != tail.nodes.end
+                                        || children_level != 0
+                                    {
+                                        return Err(damaged());
+                                    }
                                     0
                                 }
                             };
@@ -1240,10 +1263,11 @@ impl PackedRTree {
                             let centroid_dist = node_item.centroid_distance_squared(x, y);
 
                             // Create range for the result
-                            let start = feature_begin + node_item.offset as usize;
+                            let start = feature_begin.saturating_add(node_item.offset as usize);
                             let result = if let Some(next_node_item) = &node_items.get(node_pos + 1)
                             {
-                                let end = feature_begin + next_node_item.offset as usize;
+                                let end =
+                                    feature_begin.saturating_add(next_node_item.offset as usize);
                                 HttpSearchResultItem {
                                     range: HttpRange::Range(start..end),
                                 }
@@ -1264,8 +1288,10 @@ impl PackedRTree {
                         } else {
                             // Not a leaf node - add children to the queue
                             let children_level = next.level - 1;
-                            let mut children_nodes = node_item.offset as usize
-                                ..(node_item.offset + branching_factor as u64) as usize;
+                            let first_child =
+                                child_index(node_item.offset, &level_bounds[children_level])?;
+                            let mut children_nodes =
+                                first_child..first_child + branching_factor as usize;
 
                             if children_level == 0 {
                                 children_nodes.end += 1;
-- 
2.43.0


From 584c96caafaade60a0450935fe0fdab2f5583a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 37/52] fix: refuse impossible sizes in a damaged header and
 read only as far as there is data (reading panicked or allocated gigabytes)

---
 src/rust/fcb_core/src/http_reader/mod.rs   | 25 +++++---
 src/rust/fcb_core/src/reader/attr_query.rs | 23 +++++++-
 src/rust/fcb_core/src/reader/mod.rs        | 69 ++++++++++++----------
 3 files changed, 77 insertions(+), 40 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 4d05a93..5a057cc 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -8,8 +8,9 @@ use crate::deserializer::to_cj_feature;
 use crate::{add_indices_to_multi_memory_index, build_query, fb::*, AttrQuery};
 
 use crate::error::{Error, Result};
-use crate::packed_rtree::Query;
+use crate::packed_rtree::{self, Query};
 use crate::reader::city_buffer::FcbBuffer;
+use crate::reader::{check_index_size, check_tree_size};
 use crate::static_btree::{FixedStringKey, Float, KeyType, Operator};
 use crate::{
     check_magic_bytes, size_prefixed_root_as_city_feature, HEADER_MAX_BUFFER_SIZE,
@@ -120,7 +121,8 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         let header_buf = bytes.to_vec();
 
         // verify flatbuffer
-        let _header = size_prefixed_root_as_header(&header_buf)?;
+        let header = size_prefixed_root_as_header(&header_buf)?;
+        check_index_size(&header)?;
 
         trace!("completed: opening http reader");
         Ok(HttpFcbReader {
@@ -214,11 +216,19 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             combine_request_threshold,
         )
         .await?;
-        debug_assert!(
-            list.windows(2)
-                .all(|w| w[0].range.start() < w[1].range.start()),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
+        // Since the tree is traversed breadth first, list should be sorted by construction
+        let in_order = |w: &[HttpSearchResultItem]| {
+            let end = w[0].range.end();
+            w[0].range.start() < w[1].range.start()
+                && end.is_some_and(|end| end <= w[1].range.start())
+        };
+        let not_empty = |item: &HttpSearchResultItem| {
+            let start = item.range.start();
+            item.range.end().is_none_or(|end| start < end)
+        };
+        if !list.windows(2).all(in_order) || !list.iter().all(not_empty) {
+            return Err(packed_rtree::Error::from("features out of order").into());
+        }
 
         let count = list.len();
         let feature_batches = FeatureBatch::make_batches(list, combine_request_threshold).await?;
@@ -317,6 +327,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         index_begin: usize,
         feature_begin: usize,
     ) -> Result<()> {
+        check_tree_size(attr_info)?;
         if let Some(col) = columns.iter().find(|col| col.index() == attr_info.index()) {
             // TODO: now it assuming to add all indices to the multi_index. However, we should only add the indices that are used in the query. To do that, we need to change the implementation of StreamMultiIndex. Current StreamMultiIndex's `add_index` method assumes that all indices are added to the multi_index. We'll change it to take Range<usize> as an argument.
             match col.type_() {
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index bb42377..b3c10ad 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -20,6 +20,16 @@ use super::{
 
 pub type AttrQuery = Vec<(String, Operator, KeyType)>;
 
+/// Refuse an attribute index of which no tree can be made
+pub(crate) fn check_tree_size(attr_info: &AttributeIndex) -> Result<()> {
+    if attr_info.branching_factor() < 2 || attr_info.num_unique_items() == 0 {
+        return Err(Error::QueryExecutionError(
+            "impossible size of an attribute index".to_string(),
+        ));
+    }
+    Ok(())
+}
+
 pub fn add_indices_to_multi_memory_index<R: Read>(
     mut data: R,
     multi_index: &mut MemoryMultiIndex,
@@ -28,9 +38,10 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
     attr_info: &AttributeIndex,
 ) -> Result<()> {
     let length = attr_info.length();
-    let mut buf = vec![0; length as usize];
-    data.read_exact(&mut buf)?;
+    let mut buf = Vec::new();
+    super::read_append(&mut data, length as usize, &mut buf)?;
     let mut buf = Cursor::new(buf);
+    check_tree_size(attr_info)?;
     if let Some(col) = columns.iter().find(|col| col.index() == attr_info.index()) {
         if query.iter().any(|(name, _, _)| col.name() == name) {
             match col.type_() {
@@ -153,6 +164,7 @@ pub fn add_indices_to_multi_stream_index<R: Read + Seek>(
     attr_info: &AttributeIndex,
     index_begin: usize,
 ) -> Result<()> {
+    check_tree_size(attr_info)?;
     if let Some(col) = columns.iter().find(|col| col.index() == attr_info.index()) {
         // TODO: now it assuming to add all indices to the multi_index. However, we should only add the indices that are used in the query. To do that, we need to change the implementation of StreamMultiIndex. Current StreamMultiIndex's `add_index` method assumes that all indices are added to the multi_index. We'll change it to take Range<usize> as an argument.
         let index_begin = index_begin as u64;
@@ -462,7 +474,12 @@ impl<R: Read> FcbReader<R> {
 
         for attr_info in attr_index_entries.iter() {
             let column_idx = attr_info.index();
-            let field_name = columns[column_idx as usize].name().to_string();
+            let field_name = columns
+                .iter()
+                .find(|c| c.index() == column_idx)
+                .ok_or(Error::AttributeIndexNotFound)?
+                .name()
+                .to_string();
 
             // Only process this attribute if it's used in the query
             if query_fields.contains(&field_name) {
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 0e00448..94b96a8 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -66,6 +66,23 @@ enum State {
     Finished,
 }
 
+/// Refuse a header that claims a spatial index of an impossible size
+pub(crate) fn check_index_size(header: &Header) -> Result<(), Error> {
+    // up to this count every position in the file is representable as an i64
+    if header.index_node_size() == 1 || header.features_count() > 1 << 55 {
+        return Err(packed_rtree::Error::from("impossible index size").into());
+    }
+    Ok(())
+}
+
+/// Append exactly `length` bytes to a buffer, which grows only as far as there is data
+fn read_append<R: Read>(reader: &mut R, length: usize, buf: &mut Vec<u8>) -> Result<(), Error> {
+    if reader.take(length as u64).read_to_end(buf)? < length {
+        return Err(Error::IoError(io::ErrorKind::UnexpectedEof.into()));
+    }
+    Ok(())
+}
+
 #[doc(hidden)]
 pub mod reader_trait {
     pub struct Seekable;
@@ -102,13 +119,12 @@ impl<R: Read> FcbReader<R> {
             return Err(Error::IllegalHeaderSize(header_size));
         }
 
-        let mut header_buf = Vec::with_capacity(header_size + 4); // 4 bytes for size prefix
-        header_buf.extend_from_slice(&size_buf);
-        header_buf.resize(header_buf.capacity(), 0);
-        reader.read_exact(&mut header_buf[4..])?;
+        let mut header_buf = size_buf.to_vec(); // 4 bytes for size prefix
+        read_append(&mut reader, header_size, &mut header_buf)?;
 
         if verify {
-            let _header = size_prefixed_root_as_header(&header_buf)?;
+            let header = size_prefixed_root_as_header(&header_buf)?;
+            check_index_size(&header)?;
         }
 
         Ok(FcbReader {
@@ -155,10 +171,10 @@ impl<R: Read> FcbReader<R> {
             header.index_node_size(),
         )?;
         let list = index.search(query)?;
-        debug_assert!(
-            list.windows(2).all(|w| w[0].offset < w[1].offset),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
+        // Since the tree is traversed breadth first, list should be sorted by construction
+        if !list.windows(2).all(|w| w[0].offset < w[1].offset) {
+            return Err(packed_rtree::Error::from("features out of order").into());
+        }
         // skip attribute index
         let index_size = self.attr_index_size();
         io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?;
@@ -216,10 +232,10 @@ impl<R: Read + Seek> FcbReader<R> {
             header.index_node_size(),
             query,
         )?;
-        debug_assert!(
-            list.windows(2).all(|w| w[0].offset < w[1].offset),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
+        // Since the tree is traversed breadth first, list should be sorted by construction
+        if !list.windows(2).all(|w| w[0].offset < w[1].offset) {
+            return Err(packed_rtree::Error::from("features out of order").into());
+        }
         // skip index
         self.reader
             .seek(SeekFrom::Current(self.attr_index_size() as i64))?;
@@ -267,20 +283,8 @@ impl<R: Read> FcbReader<R> {
         let header = self.buffer.header();
         header
             .attribute_index()
-            .map(|attr_index| {
-                attr_index
-                    .iter()
-                    .try_fold(0u32, |acc, ai| {
-                        let len = ai.length();
-                        if len > u32::MAX - acc {
-                            Err(Error::AttributeIndexSizeOverflow)
-                        } else {
-                            Ok(acc + len)
-                        }
-                    })
-                    .unwrap_or(0)
-            })
-            .unwrap_or(0) as u64
+            .map(|attr_index| attr_index.iter().map(|ai| ai.length() as u64).sum())
+            .unwrap_or(0)
     }
 }
 
@@ -352,7 +356,8 @@ impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable> {
                 }
                 // skip features
                 let seek_bytes = item.offset as u64 - self.cur_pos;
-                self.reader.seek(SeekFrom::Current(seek_bytes as i64))?;
+                let distance = i64::try_from(seek_bytes).map_err(io::Error::other)?;
+                self.reader.seek(SeekFrom::Current(distance))?;
                 self.cur_pos += seek_bytes;
             }
         }
@@ -559,8 +564,12 @@ impl<R: Read, S> FeatureIter<R, S> {
         }
         let sbuf = &self.buffer.features_buf;
         let feature_size = u32::from_le_bytes([sbuf[0], sbuf[1], sbuf[2], sbuf[3]]) as usize;
-        self.buffer.features_buf.resize(feature_size + 4, 0);
-        self.reader.read_exact(&mut self.buffer.features_buf[4..])?;
+        self.buffer.features_buf.truncate(4);
+        read_append(
+            &mut self.reader,
+            feature_size,
+            &mut self.buffer.features_buf,
+        )?;
         if self.verify {
             let _feature = size_prefixed_root_as_city_feature(&self.buffer.features_buf)?;
         }
-- 
2.43.0


From fdd809fdd69f1eb77031fbb78163b61d53fe7cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:05 +0000
Subject: [PATCH 38/52] fix: fail an attribute query on an index whose nodes
 contradict its size (queries panicked or allocated gigabytes)

---
 src/rust/fcb_core/src/static_btree/key.rs     |  8 +-
 src/rust/fcb_core/src/static_btree/payload.rs |  2 +-
 src/rust/fcb_core/src/static_btree/stree.rs   | 94 +++++++++++--------
 3 files changed, 61 insertions(+), 43 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 9b83596..532f4a7 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -406,8 +406,8 @@ impl Key for DateTime<Utc> {
     fn read_from<R: Read>(reader: &mut R) -> Result<Self> {
         let secs = reader.read_i64::<LittleEndian>()?;
         let nanos = reader.read_u32::<LittleEndian>()?;
-        let ndt =
-            chrono::NaiveDateTime::from_timestamp_opt(secs, nanos).expect("invalid datetime value");
+        let ndt = chrono::NaiveDateTime::from_timestamp_opt(secs, nanos)
+            .ok_or_else(|| Error::KeyDeserializationError("invalid datetime value".to_string()))?;
         let dt = DateTime::<Utc>::from_utc(ndt, Utc);
         Ok(dt)
     }
@@ -418,8 +418,8 @@ impl Key for DateTime<Utc> {
         array.copy_from_slice(&bytes[0..Self::SERIALIZED_SIZE]);
         let secs = i64::from_le_bytes(array[0..8].try_into().unwrap());
         let nanos = u32::from_le_bytes(array[8..12].try_into().unwrap());
-        let ndt =
-            chrono::NaiveDateTime::from_timestamp_opt(secs, nanos).expect("invalid datetime value");
+        let ndt = chrono::NaiveDateTime::from_timestamp_opt(secs, nanos)
+            .ok_or_else(|| Error::KeyDeserializationError("invalid datetime value".to_string()))?;
         let dt = DateTime::<Utc>::from_utc(ndt, Utc);
         Ok(dt)
     }
diff --git a/src/rust/fcb_core/src/static_btree/payload.rs b/src/rust/fcb_core/src/static_btree/payload.rs
index 550e753..fee4122 100644
--- a/src/rust/fcb_core/src/static_btree/payload.rs
+++ b/src/rust/fcb_core/src/static_btree/payload.rs
@@ -52,7 +52,7 @@ impl PayloadEntry {
     pub fn deserialize<R: Read + Seek + ?Sized>(data: &mut R) -> Result<(Self, usize)> {
         // [count, offset1, offset2, ...]
         let count = data.read_u32::<LittleEndian>()?;
-        let mut offsets = Vec::with_capacity(count as usize);
+        let mut offsets = Vec::new();
         for _ in 0..count {
             offsets.push(data.read_u64::<LittleEndian>()?);
         }
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index fb4c2de..62b03e4 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -53,7 +53,7 @@ impl<K: Key> NodeItem<K> {
 /// right child; a key that equals it is found in the child it points to.
 fn right_child(separator_offset: Offset, node_size: usize, children_level: &Range<usize>) -> usize {
     let left = separator_offset as usize;
-    let right = left + node_size;
+    let right = left.saturating_add(node_size);
     if right < children_level.end {
         right
     } else {
@@ -61,10 +61,22 @@ fn right_child(separator_offset: Offset, node_size: usize, children_level: &Rang
     }
 }
 
-/// Read full capacity of vec from data stream
-fn read_node_vec<K: Key>(node_items: &mut Vec<NodeItem<K>>, mut data: impl Read) -> Result<()> {
+/// The items of the node that starts at a position within (or just behind) its level
+fn node_at(start: usize, node_size: usize, level: &Range<usize>) -> Result<Range<usize>> {
+    if start < level.start || start > level.end {
+        return Err(Error::InvalidFormat("the index is damaged".to_string()));
+    }
+    Ok(start..min(start + node_size, level.end))
+}
+
+/// Read a number of items from data stream
+fn read_node_vec<K: Key>(
+    node_items: &mut Vec<NodeItem<K>>,
+    length: usize,
+    mut data: impl Read,
+) -> Result<()> {
     node_items.clear();
-    for _ in 0..node_items.capacity() {
+    for _ in 0..length {
         node_items.push(NodeItem::from_reader(&mut data)?);
     }
     Ok(())
@@ -81,7 +93,7 @@ fn read_node_items<K: Key, R: Read + Seek + ?Sized>(
     data.seek(SeekFrom::Start(
         base + (node_index * NodeItem::<K>::SERIALIZED_SIZE) as u64,
     ))?;
-    read_node_vec(&mut node_items, data)?;
+    read_node_vec(&mut node_items, length, data)?;
     Ok(node_items)
 }
 
@@ -262,7 +274,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
         match payload_ref {
             PayloadRef::Direct(offset) => {
                 // Direct offsets can be added to results immediately
-                let start = feature_begin + offset as usize;
+                let start = feature_begin.saturating_add(offset as usize);
                 results.push(HttpSearchResultItem {
                     range: HttpRange::RangeFrom(start..),
                 });
@@ -277,7 +289,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
                         match cache.get_entry(abs_offset) {
                             Ok(entry) => {
                                 for offset in entry.offsets {
-                                    let start = feature_begin + offset as usize;
+                                    let start = feature_begin.saturating_add(offset as usize);
                                     results.push(HttpSearchResultItem {
                                         range: HttpRange::RangeFrom(start..),
                                     });
@@ -322,7 +334,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
     for offset in payload_offsets_to_fetch {
         let entry = read_http_payload_data(client, offset).await?;
         for offset in entry.offsets {
-            let start = feature_begin + offset as usize;
+            let start = feature_begin.saturating_add(offset as usize);
             results.push(HttpSearchResultItem {
                 range: HttpRange::RangeFrom(start..),
             });
@@ -550,7 +562,9 @@ impl<K: Key> Stree<K> {
     }
 
     fn read_data(&mut self, data: impl Read) -> Result<()> {
-        read_node_vec(&mut self.node_items, data)?;
+        // the vector grows with the data, whatever number of items the header implies
+        let num_nodes = self.level_bounds[0].end;
+        read_node_vec(&mut self.node_items, num_nodes, data)?;
         Ok(())
     }
 
@@ -645,12 +659,8 @@ impl<K: Key> Stree<K> {
         // NOTE: Since it's B+Tree, the branching factor is the number of children per node. Node size is branching factor - 1
         let branching_factor = branching_factor.clamp(2u16, 65535u16);
         let level_bounds = Stree::<K>::generate_level_bounds(num_items, branching_factor);
-        let num_nodes = level_bounds
-            .first()
-            .expect("Btree has at least one level when node_size >= 2 and num_items > 0")
-            .end;
         let mut tree = Stree::<K> {
-            node_items: Vec::with_capacity(num_nodes),
+            node_items: Vec::new(),
             num_leaf_nodes: num_items,
             branching_factor,
             level_bounds,
@@ -709,9 +719,9 @@ impl<K: Key> Stree<K> {
             let is_leaf_node = level == 0;
 
             // find the end index of the node
-            let end = min(node_index + node_size, self.level_bounds[level].end);
+            let range = node_at(node_index, node_size, &self.level_bounds[level])?;
 
-            let node_items = &self.node_items[node_index..end];
+            let node_items = &self.node_items[range];
 
             if node_items.is_empty() {
                 continue;
@@ -733,7 +743,8 @@ impl<K: Key> Stree<K> {
                             queue.push_back((node_items[0].offset as usize, level - 1));
                         } else if index == node_items.len() {
                             queue.push_back((
-                                node_items[node_items.len() - 1].offset as usize + node_size,
+                                (node_items[node_items.len() - 1].offset as usize)
+                                    .saturating_add(node_size),
                                 level - 1,
                             ));
                         } else {
@@ -753,7 +764,7 @@ impl<K: Key> Stree<K> {
                         if self.payload_initialized && (off & PAYLOAD_TAG) != 0 {
                             let rel = (off & PAYLOAD_MASK) as usize;
                             let (entry, _) = PayloadEntry::deserialize(&mut Cursor::new(
-                                &self.payload_data[rel..],
+                                self.payload_data.get(rel..).unwrap_or_default(),
                             ))?;
                             for o in entry.offsets {
                                 results.push(SearchResultItem {
@@ -808,7 +819,7 @@ impl<K: Key> Stree<K> {
             let is_leaf_node = level == 0;
 
             // find the end index of the node
-            let end = min(node_index + node_size, level_bounds[level].end);
+            let end = node_at(node_index, node_size, &level_bounds[level])?.end;
 
             let node_items = read_node_items(data, index_base, node_index, end - node_index)?;
 
@@ -832,7 +843,8 @@ impl<K: Key> Stree<K> {
                             queue.push_back((node_items[0].offset as usize, level - 1));
                         } else if index == node_items.len() {
                             queue.push_back((
-                                node_items[node_items.len() - 1].offset as usize + node_size,
+                                (node_items[node_items.len() - 1].offset as usize)
+                                    .saturating_add(node_size),
                                 level - 1,
                             ));
                         } else {
@@ -914,7 +926,7 @@ impl<K: Key> Stree<K> {
 
         // Calculate the actual range within the leaf level
         let start_idx = max(lower_idx, leaf_start);
-        let end_idx = min(upper_idx + node_size, leaf_end);
+        let end_idx = min(upper_idx.saturating_add(node_size), leaf_end);
 
         // Process all leaf nodes from lower to upper bound
         let mut current_idx = start_idx;
@@ -929,8 +941,9 @@ impl<K: Key> Stree<K> {
                     let idx = current_idx + _i - leaf_nodes_offset;
                     if self.payload_initialized && (off & PAYLOAD_TAG) != 0 {
                         let rel = (off & PAYLOAD_MASK) as usize;
-                        let (entry, _) =
-                            PayloadEntry::deserialize(&mut Cursor::new(&self.payload_data[rel..]))?;
+                        let (entry, _) = PayloadEntry::deserialize(&mut Cursor::new(
+                            self.payload_data.get(rel..).unwrap_or_default(),
+                        ))?;
                         for o in entry.offsets {
                             results.push(SearchResultItem {
                                 offset: o as usize,
@@ -962,8 +975,9 @@ impl<K: Key> Stree<K> {
         for (i, item) in leaves.iter().enumerate().take(end).skip(start) {
             if self.payload_initialized && (item.offset & PAYLOAD_TAG) != 0 {
                 let rel = (item.offset & PAYLOAD_MASK) as usize;
-                let (entry, _) =
-                    PayloadEntry::deserialize(&mut Cursor::new(&self.payload_data[rel..]))?;
+                let (entry, _) = PayloadEntry::deserialize(&mut Cursor::new(
+                    self.payload_data.get(rel..).unwrap_or_default(),
+                ))?;
                 results.extend(entry.offsets.iter().map(|o| SearchResultItem {
                     offset: *o as usize,
                     index: i,
@@ -1024,7 +1038,7 @@ impl<K: Key> Stree<K> {
 
         // Calculate the actual range within the leaf level
         let start_idx = max(lower_idx, leaf_start);
-        let end_idx = min(upper_idx + node_size, leaf_end);
+        let end_idx = min(upper_idx.saturating_add(node_size), leaf_end);
 
         let index_base: u64 = data.stream_position()?;
 
@@ -1080,8 +1094,8 @@ impl<K: Key> Stree<K> {
         // This traversal is similar to find_exact but focuses on finding
         // the insertion point rather than an exact match
         for level in (1..self.level_bounds.len()).rev() {
-            let end = min(node_index + node_size, self.level_bounds[level].end);
-            let node_items = &self.node_items[node_index..end];
+            let range = node_at(node_index, node_size, &self.level_bounds[level])?;
+            let node_items = &self.node_items[range];
 
             if node_items.is_empty() {
                 continue;
@@ -1102,7 +1116,8 @@ impl<K: Key> Stree<K> {
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
+                        node_index = (node_items[node_items.len() - 1].offset as usize)
+                            .saturating_add(node_size);
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
@@ -1135,7 +1150,7 @@ impl<K: Key> Stree<K> {
         // This traversal is similar to find_exact but focuses on finding
         // the insertion point rather than an exact match
         for level in (1..level_bounds.len()).rev() {
-            let end = min(node_index + node_size, level_bounds[level].end);
+            let end = node_at(node_index, node_size, &level_bounds[level])?.end;
             let node_items = read_node_items(data, index_base, node_index, end - node_index)?;
 
             if node_items.is_empty() {
@@ -1157,7 +1172,8 @@ impl<K: Key> Stree<K> {
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
+                        node_index = (node_items[node_items.len() - 1].offset as usize)
+                            .saturating_add(node_size);
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
@@ -1279,14 +1295,16 @@ impl<K: Key> Stree<K> {
                         if idx == 0 {
                             _offset = node_items[0].offset as usize;
                         } else if idx == node_items.len() {
-                            _offset = node_items[node_items.len() - 1].offset as usize + node_size;
+                            _offset = (node_items[node_items.len() - 1].offset as usize)
+                                .saturating_add(node_size);
                         } else {
                             _offset = node_items[idx].offset as usize;
                         }
                     }
                 }
                 let children_level = node_range.level - 1;
-                let mut children_nodes = _offset..(_offset + node_size);
+                let mut children_nodes =
+                    node_at(_offset, node_size, &level_bounds[children_level])?;
                 if children_level == 0 {
                     // These children are leaf nodes.
                     //
@@ -1385,7 +1403,7 @@ impl<K: Key> Stree<K> {
 
         // Start at the root and navigate down to the leaf level
         for level in (1..level_bounds.len()).rev() {
-            let end = min(node_index + node_size, level_bounds[level].end);
+            let end = node_at(node_index, node_size, &level_bounds[level])?.end;
 
             // Create a range for the current node
             let node_range = Range {
@@ -1417,7 +1435,8 @@ impl<K: Key> Stree<K> {
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
+                        node_index = (node_items[node_items.len() - 1].offset as usize)
+                            .saturating_add(node_size);
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
@@ -1647,9 +1666,9 @@ impl<K: Key> Stree<K> {
         let start_idx = max(lower_idx, leaf_start);
         let end_idx = if include_separator {
             // the separator is the first key of the next node
-            min(upper_idx + node_size + 1, leaf_end)
+            min(upper_idx.saturating_add(node_size + 1), leaf_end)
         } else {
-            min(upper_idx + node_size, leaf_end)
+            min(upper_idx.saturating_add(node_size), leaf_end)
         };
 
         // Collect payload references instead of immediately resolving them
@@ -1674,7 +1693,6 @@ impl<K: Key> Stree<K> {
                 if item.key >= lower && item.key <= upper {
                     let off = item.offset;
 
-
                     if (off & PAYLOAD_TAG) != 0 {
                         let rel = (off & PAYLOAD_MASK) as usize;
                         // Add as indirect reference to be resolved in batch
-- 
2.43.0


From 2caec412280ba45dcb47bfd42c25e02b554fc810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 39/52] fix: keep the positions a damaged index leads to within
 reach (reading panicked)

---
 src/rust/fcb_core/src/http_reader/mod.rs  | 9 ++++++---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 4 ++--
 src/rust/fcb_core/src/reader/mod.rs       | 2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 5a057cc..e13ebb0 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -223,8 +223,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                 && end.is_some_and(|end| end <= w[1].range.start())
         };
         let not_empty = |item: &HttpSearchResultItem| {
-            let start = item.range.start();
-            item.range.end().is_none_or(|end| start < end)
+            item.range.start() < item.range.end().unwrap_or(isize::MAX as usize)
         };
         if !list.windows(2).all(in_order) || !list.iter().all(not_empty) {
             return Err(packed_rtree::Error::from("features out of order").into());
@@ -302,6 +301,10 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         // each feature once and in the order of the file, as the local reader returns them
         http_ranges.sort_by_key(|range| range.start());
         http_ranges.dedup_by_key(|range| range.start());
+        if http_ranges.iter().any(|r| r.start() > isize::MAX as usize) {
+            let msg = "a feature lies out of reach".to_string();
+            return Err(Error::QueryExecutionError(msg));
+        }
         let count = http_ranges.len();
 
         trace!(
@@ -673,7 +676,7 @@ impl FeatureBatch {
         // of the feature buffer for the subsequent request.
         let last_feature_length = last.length().unwrap_or(4);
 
-        let covering_range = first.start()..last.start() + last_feature_length;
+        let covering_range = first.start()..last.start().saturating_add(last_feature_length);
 
         covering_range
             .len()
diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index 2ea4804..9be6ad4 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -181,8 +181,8 @@ impl NodeItem {
         }
 
         // Calculate closest point on the bbox
-        let closest_x = x.clamp(self.min_x, self.max_x);
-        let closest_y = y.clamp(self.min_y, self.max_y);
+        let closest_x = x.max(self.min_x).min(self.max_x);
+        let closest_y = y.max(self.min_y).min(self.max_y);
 
         // Calculate squared distance
         let dx = x - closest_x;
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 94b96a8..45bd4f7 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -368,7 +368,7 @@ impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable> {
             }
             let item_offset = attr_filter[self.feat_no];
             self.reader.seek(SeekFrom::Start(
-                self.feature_offset.total_size() + item_offset,
+                self.feature_offset.total_size().saturating_add(item_offset),
             ))?;
             self.cur_pos = item_offset;
         }
-- 
2.43.0


From dfcdc6222ec249dea544e28c2c2f2e187610204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 40/52] fix: fail to decode a damaged feature or header instead
 of panicking

---
 src/rust/fcb_core/src/reader/deserializer.rs | 184 ++++++++++++-------
 src/rust/fcb_core/src/reader/geom_decoder.rs |  66 +++++--
 2 files changed, 167 insertions(+), 83 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 9e134c1..a98e352 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -3,7 +3,7 @@ use std::{collections::HashMap, mem::size_of};
 use crate::{
     error::Error,
     fb::*,
-    geom_decoder::{decode, decode_materials, decode_semantics, decode_textures},
+    geom_decoder::{check_counts, decode, decode_materials, decode_textures, try_decode_semantics},
 };
 use byteorder::{ByteOrder, LittleEndian};
 use cjseq::{
@@ -98,7 +98,7 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
         cj.metadata = Some(metadata);
     }
 
-    cj.appearance = to_cj_appearance(header.appearance());
+    cj.appearance = to_cj_appearance(header.appearance())?;
 
     // Decode Geometry Templates if present
     if let (Some(fb_templates), Some(fb_vertices)) =
@@ -128,7 +128,7 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
         c.iter()
             .map(|c| {
                 let i = c.index();
-                MetaColumn {
+                Ok(MetaColumn {
                     index: i,
                     name: c.name().to_string(),
                     _type: match c.type_() {
@@ -147,7 +147,10 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                         ColumnType::ULong => MetaColumnType::ULong,
                         ColumnType::Byte => MetaColumnType::Byte,
                         ColumnType::UByte => MetaColumnType::UByte,
-                        _ => unreachable!(),
+                        other => {
+                            let name = format!("{other:?}");
+                            return Err(Error::UnsupportedColumnType(name));
+                        }
                     },
                     title: c.title().map(|t| t.to_string()),
                     description: c.description().map(|d| d.to_string()),
@@ -163,15 +166,15 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                             .map(|attr_indices| attr_indices.iter().any(|i| i.index() == c.index()))
                             .unwrap_or(false),
                     ),
-                }
+                })
             })
-            .collect::<Vec<_>>()
+            .collect::<Result<Vec<_>, Error>>()
     });
     if columns.is_none() {
         return Err(Error::MissingRequiredField("columns".to_string()));
     }
     Ok(Meta {
-        columns: columns.unwrap(),
+        columns: columns.unwrap()?,
         feature_count: header.features_count(),
     })
 }
@@ -259,34 +262,49 @@ pub(crate) fn to_cj_co_type(co_type: CityObjectType, extension_type: Option<&str
     }
 }
 
+/// Decodes attributes that are known to be valid.
+///
+/// # Panics
+///
+/// If they do not match the columns (see [`try_decode_attributes`]).
 pub fn decode_attributes(
     columns: &flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>,
     attributes: flatbuffers::Vector<'_, u8>,
 ) -> serde_json::Value {
+    try_decode_attributes(columns, attributes).expect("the attributes match the columns")
+}
+
+/// Decodes attributes, whose values follow the number of their column.
+pub fn try_decode_attributes(
+    columns: &flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>,
+    attributes: flatbuffers::Vector<'_, u8>,
+) -> Result<serde_json::Value, Error> {
     if attributes.is_empty() {
-        return serde_json::Value::Object(serde_json::Map::new());
+        return Ok(serde_json::Value::Object(serde_json::Map::new()));
     }
 
+    let invalid = |msg: &str| Error::InvalidAttributeValue {
+        msg: msg.to_string(),
+    };
+
     let mut map = serde_json::Map::new();
     let bytes = attributes.bytes();
+    let value_bytes = |offset: usize, length: usize| {
+        let value = bytes.get(offset..).and_then(|rest| rest.get(..length));
+        value.ok_or_else(|| invalid("attributes end within a value"))
+    };
     let mut offset = 0;
     while offset < bytes.len() {
-        let col_index = LittleEndian::read_u16(&bytes[offset..offset + size_of::<u16>()]) as u16;
+        let col_index = LittleEndian::read_u16(value_bytes(offset, size_of::<u16>())?) as u16;
         offset += size_of::<u16>();
-        if col_index >= columns.len() as u16 {
-            panic!("column index out of range"); //TODO: handle this as an error
-        }
         let column = columns.iter().find(|c| c.index() == col_index);
-        if column.is_none() {
-            panic!("column not found"); //TODO: handle this as an error
-        }
-        let column = column.unwrap();
+        let column = column.ok_or_else(|| invalid("column not found"))?;
         match column.type_() {
             ColumnType::Int => {
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i32(
-                        &bytes[offset..offset + size_of::<i32>()],
+                        value_bytes(offset, size_of::<i32>())?,
                     ))),
                 );
                 offset += size_of::<i32>();
@@ -295,7 +313,7 @@ pub fn decode_attributes(
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u32(
-                        &bytes[offset..offset + size_of::<u32>()],
+                        value_bytes(offset, size_of::<u32>())?,
                     ))),
                 );
                 offset += size_of::<u32>();
@@ -303,7 +321,7 @@ pub fn decode_attributes(
             ColumnType::Bool => {
                 map.insert(
                     column.name().to_string(),
-                    serde_json::Value::Bool(bytes[offset] != 0),
+                    serde_json::Value::Bool(value_bytes(offset, 1)?[0] != 0),
                 );
                 offset += size_of::<u8>();
             }
@@ -311,7 +329,7 @@ pub fn decode_attributes(
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i16(
-                        &bytes[offset..offset + size_of::<i16>()],
+                        value_bytes(offset, size_of::<i16>())?,
                     ))),
                 );
                 offset += size_of::<i16>();
@@ -320,7 +338,7 @@ pub fn decode_attributes(
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u16(
-                        &bytes[offset..offset + size_of::<u16>()],
+                        value_bytes(offset, size_of::<u16>())?,
                     ))),
                 );
                 offset += size_of::<u16>();
@@ -329,7 +347,7 @@ pub fn decode_attributes(
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i64(
-                        &bytes[offset..offset + size_of::<i64>()],
+                        value_bytes(offset, size_of::<i64>())?,
                     ))),
                 );
                 offset += size_of::<i64>();
@@ -338,71 +356,74 @@ pub fn decode_attributes(
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u64(
-                        &bytes[offset..offset + size_of::<u64>()],
+                        value_bytes(offset, size_of::<u64>())?,
                     ))),
                 );
                 offset += size_of::<u64>();
             }
             ColumnType::Float => {
-                let f = LittleEndian::read_f32(&bytes[offset..offset + size_of::<f32>()]);
+                let f = LittleEndian::read_f32(value_bytes(offset, size_of::<f32>())?);
                 if let Some(num) = serde_json::Number::from_f64(f as f64) {
                     map.insert(column.name().to_string(), serde_json::Value::Number(num));
                 }
                 offset += size_of::<f32>();
             }
             ColumnType::Double => {
-                let f = LittleEndian::read_f64(&bytes[offset..offset + size_of::<f64>()]);
+                let f = LittleEndian::read_f64(value_bytes(offset, size_of::<f64>())?);
                 if let Some(num) = serde_json::Number::from_f64(f) {
                     map.insert(column.name().to_string(), serde_json::Value::Number(num));
                 }
                 offset += size_of::<f64>();
             }
             ColumnType::String => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
+                let len = LittleEndian::read_u32(value_bytes(offset, size_of::<u32>())?);
                 offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
+                let s = String::from_utf8(value_bytes(offset, len as usize)?.to_vec())
                     .unwrap_or_default();
                 map.insert(column.name().to_string(), serde_json::Value::String(s));
                 offset += len as usize;
             }
             ColumnType::DateTime | ColumnType::Binary => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
+                let len = LittleEndian::read_u32(value_bytes(offset, size_of::<u32>())?);
                 offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
+                let s = String::from_utf8(value_bytes(offset, len as usize)?.to_vec())
                     .unwrap_or_default();
                 map.insert(column.name().to_string(), serde_json::Value::String(s));
                 offset += len as usize;
             }
             ColumnType::Json => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
+                let len = LittleEndian::read_u32(value_bytes(offset, size_of::<u32>())?);
                 offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
+                let s = String::from_utf8(value_bytes(offset, len as usize)?.to_vec())
                     .unwrap_or_default();
-                map.insert(column.name().to_string(), serde_json::from_str(&s).unwrap());
+                let value = serde_json::from_str(&s).map_err(|e| invalid(&e.to_string()))?;
+                map.insert(column.name().to_string(), value);
                 offset += len as usize;
             }
 
             ColumnType::Byte => {
                 map.insert(
                     column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(bytes[offset] as i8)),
+                    serde_json::Value::Number(serde_json::Number::from(
+                        value_bytes(offset, 1)?[0] as i8,
+                    )),
                 );
                 offset += size_of::<i8>();
             }
             ColumnType::UByte => {
                 map.insert(
                     column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(bytes[offset])),
+                    serde_json::Value::Number(serde_json::Number::from(value_bytes(offset, 1)?[0])),
                 );
                 offset += size_of::<u8>();
             }
 
             // TODO: handle other column types
-            _ => unreachable!(),
+            other => return Err(Error::UnsupportedColumnType(format!("{other:?}"))),
         }
     }
 
-    serde_json::Value::Object(map)
+    Ok(serde_json::Value::Object(map))
 }
 
 pub fn to_cj_feature(
@@ -455,12 +476,9 @@ pub fn to_cj_feature(
                     Some(all_geometries)
                 };
 
-                let attributes = if root_attr_schema.is_none() && co.columns().is_none() {
-                    None
-                } else {
-                    co.attributes().map(|a| {
-                        decode_attributes(&co.columns().unwrap_or(root_attr_schema.unwrap()), a)
-                    })
+                let attributes = match (co.columns().or(root_attr_schema), co.attributes()) {
+                    (Some(columns), Some(a)) => Some(try_decode_attributes(&columns, a)?),
+                    _ => None,
                 };
 
                 let children_roles = co
@@ -491,12 +509,26 @@ pub fn to_cj_feature(
         .vertices()
         .map_or(Vec::new(), |v| to_cj_vertices(v.iter().collect()));
 
-    cj.appearance = to_cj_appearance(feature.appearance());
+    cj.appearance = to_cj_appearance(feature.appearance())?;
 
     Ok(cj) // Return Result
 }
 
-fn to_cj_appearance(appearance: Option<Appearance>) -> Option<CjAppearance> {
+/// The components of a color
+fn to_cj_color<const N: usize>(
+    color: Option<flatbuffers::Vector<'_, f64>>,
+) -> Result<Option<[f64; N]>, Error> {
+    let Some(color) = color else { return Ok(None) };
+    let components: Vec<f64> = color.iter().collect();
+    let color = components
+        .try_into()
+        .map_err(|_| Error::InvalidAttributeValue {
+            msg: format!("color must be a vector of {N} elements"),
+        })?;
+    Ok(Some(color))
+}
+
+fn to_cj_appearance(appearance: Option<Appearance>) -> Result<Option<CjAppearance>, Error> {
     // Decode appearance if present
     if let Some(appearance) = appearance {
         let mut cj_appearance = CjAppearance {
@@ -512,27 +544,18 @@ fn to_cj_appearance(appearance: Option<Appearance>) -> Option<CjAppearance> {
             let cj_materials = materials
                 .iter()
                 .map(|m| {
-                    // Helper function to convert color vectors
-                    let convert_color = |color_opt: Option<flatbuffers::Vector<'_, f64>>| {
-                        color_opt.map(|c| {
-                            let color_vec: Vec<f64> = c.iter().collect();
-                            assert!(color_vec.len() == 3, "color must be a vector of 3 elements");
-                            [color_vec[0], color_vec[1], color_vec[2]]
-                        })
-                    };
-
-                    CjMaterial {
+                    Ok(CjMaterial {
                         name: m.name().to_string(),
                         ambient_intensity: m.ambient_intensity(),
-                        diffuse_color: convert_color(m.diffuse_color()),
-                        emissive_color: convert_color(m.emissive_color()),
-                        specular_color: convert_color(m.specular_color()),
+                        diffuse_color: to_cj_color(m.diffuse_color())?,
+                        emissive_color: to_cj_color(m.emissive_color())?,
+                        specular_color: to_cj_color(m.specular_color())?,
                         shininess: m.shininess(),
                         transparency: m.transparency(),
                         is_smooth: m.is_smooth(),
-                    }
+                    })
                 })
-                .collect();
+                .collect::<Result<_, Error>>()?;
 
             cj_appearance.materials = Some(cj_materials);
         }
@@ -542,7 +565,7 @@ fn to_cj_appearance(appearance: Option<Appearance>) -> Option<CjAppearance> {
             let cj_textures = textures
                 .iter()
                 .map(|t| {
-                    CjTexture {
+                    Ok(CjTexture {
                         image: t.image().to_string(),
                         texture_format: match t.type_() {
                             TextureFormat::PNG => CjTextFormat::Png,
@@ -563,14 +586,10 @@ fn to_cj_appearance(appearance: Option<Appearance>) -> Option<CjAppearance> {
                             TextureType::Typical => CjTextType::Typical,
                             _ => CjTextType::Unknown, // Default to Unknown
                         }),
-                        border_color: t.border_color().map(|c| {
-                            let color_vec: Vec<f64> = c.iter().collect();
-                            assert!(color_vec.len() == 4, "color must be a vector of 4 elements");
-                            [color_vec[0], color_vec[1], color_vec[2], color_vec[3]]
-                        }),
-                    }
+                        border_color: to_cj_color(t.border_color())?,
+                    })
                 })
-                .collect::<Vec<_>>();
+                .collect::<Result<Vec<_>, Error>>()?;
 
             cj_appearance.textures = Some(cj_textures);
         }
@@ -594,12 +613,25 @@ fn to_cj_appearance(appearance: Option<Appearance>) -> Option<CjAppearance> {
             cj_appearance.default_theme_material = Some(default_theme_material.to_string());
         }
 
-        Some(cj_appearance)
+        Ok(Some(cj_appearance))
     } else {
-        None
+        Ok(None)
     }
 }
 
+/// Checks that no count of a material or texture mapping exceeds the array it counts items of
+fn check_mapping(levels: &[Option<flatbuffers::Vector<'_, u32>>]) -> Result<(), Error> {
+    let length = |level: &Option<flatbuffers::Vector<'_, u32>>| level.map_or(0, |l| l.len());
+    for w in levels.windows(2) {
+        if w[0].iter().flatten().any(|n| n as usize > length(&w[1])) {
+            return Err(Error::InvalidAttributeValue {
+                msg: "the parts of a mapping exceed its arrays".to_string(),
+            });
+        }
+    }
+    Ok(())
+}
+
 pub(crate) fn decode_geometry(
     g: Geometry,
     semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
@@ -631,6 +663,9 @@ pub(crate) fn decode_geometry(
             g.type_(),
             GeometryType::MultiSolid | GeometryType::CompositeSolid
         );
+    let levels = [&solids[..], &shells, &surfaces, &strings, &indices];
+    let outermost = levels[..4].iter().position(|level| !level.is_empty());
+    check_counts(&levels[outermost.unwrap_or(4)..])?;
     let mut boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
     if single_solid {
         boundaries = CjBoundaries::Nested(vec![boundaries]);
@@ -640,20 +675,23 @@ pub(crate) fn decode_geometry(
     {
         let semantics_objects = semantics_objects.iter().collect::<Vec<_>>();
         let semantics = semantics.iter().collect::<Vec<_>>();
-        Some(decode_semantics(
+        Some(try_decode_semantics(
             &solids,
             &shells,
             g.type_(),
             semantics_objects,
             semantics,
             semantic_attr_schema,
-        ))
+        )?)
     } else {
         None
     };
 
     // Decode material mappings if present
     let mut material = if let Some(material_mappings) = g.material() {
+        for m in material_mappings.iter() {
+            check_mapping(&[m.solids(), m.shells(), m.vertices()])?;
+        }
         decode_materials(&material_mappings.iter().collect::<Vec<_>>())
     } else {
         None
@@ -661,6 +699,10 @@ pub(crate) fn decode_geometry(
 
     // Decode texture mappings if present
     let mut texture = if let Some(texture_mappings) = g.texture() {
+        for t in texture_mappings.iter() {
+            let (surfaces, strings) = (t.surfaces(), t.strings());
+            check_mapping(&[t.solids(), t.shells(), surfaces, strings, t.vertices()])?;
+        }
         decode_textures(&texture_mappings.iter().collect::<Vec<_>>())
     } else {
         None
diff --git a/src/rust/fcb_core/src/reader/geom_decoder.rs b/src/rust/fcb_core/src/reader/geom_decoder.rs
index 6fce837..08d8d30 100644
--- a/src/rust/fcb_core/src/reader/geom_decoder.rs
+++ b/src/rust/fcb_core/src/reader/geom_decoder.rs
@@ -6,12 +6,13 @@ use cjseq::{
 };
 
 use crate::{
+    error::Error,
     fb::{GeometryType, MaterialMapping, SemanticObject, SemanticSurfaceType, TextureMapping},
     Column,
 };
 use std::collections::HashMap;
 
-use super::deserializer::decode_attributes;
+use super::deserializer::try_decode_attributes;
 
 /// For semantics decoding, we only care about solids and shells.
 /// We stop recursing at d <= 2 which are surfaces, rings and points (meaning we just return semantic_indices).
@@ -21,6 +22,20 @@ struct PartLists<'a> {
     starts: [usize; 5], // parallel "start" indices
 }
 
+/// Checks that the counts of every level fit the number of items the next level has
+///
+/// `levels` lists the present arrays from the outermost to the innermost one.
+pub(crate) fn check_counts(levels: &[&[u32]]) -> Result<(), Error> {
+    let fits = |w: &[&[u32]]| w[0].iter().map(|n| *n as u64).sum::<u64>() <= w[1].len() as u64;
+    if levels.windows(2).all(fits) {
+        Ok(())
+    } else {
+        Err(Error::InvalidAttributeValue {
+            msg: "the parts of a geometry exceed its arrays".to_string(),
+        })
+    }
+}
+
 /// Decodes the flattened arrays back into a nested CityJSON boundaries structure.
 ///
 /// Uses cursor indices to track position in each array while rebuilding the
@@ -175,7 +190,7 @@ pub(crate) fn decode(
 pub(crate) fn decode_semantics_surfaces(
     semantics_objects: &[SemanticObject],
     semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
-) -> Vec<SemanticsSurface> {
+) -> Result<Vec<SemanticsSurface>, Error> {
     let surfaces = semantics_objects.iter().map(|s| {
         let surface_type_str = match s.type_() {
             // For extended semantic surfaces, use the extension_type
@@ -208,17 +223,19 @@ pub(crate) fn decode_semantics_surfaces(
         let children = s.children().map(|c| c.iter().collect::<Vec<_>>());
 
         let attributes = if let Some(schema) = &semantic_attr_schema {
-            s.attributes().map(|a| decode_attributes(schema, a))
+            s.attributes()
+                .map(|a| try_decode_attributes(schema, a))
+                .transpose()?
         } else {
             None
         };
 
-        SemanticsSurface {
+        Ok(SemanticsSurface {
             thetype: surface_type_str,
             parent: s.parent(),
             children,
             other: attributes,
-        }
+        })
     });
     surfaces.collect()
 }
@@ -330,15 +347,15 @@ fn decode_semantics_(
 /// # Returns
 ///
 /// Complete CityJSON semantics structure with surfaces and values
-pub(crate) fn decode_semantics(
+pub(crate) fn try_decode_semantics(
     solids: &[u32],
     shells: &[u32],
     geometry_type: GeometryType,
     semantics_objects: Vec<SemanticObject>,
     semantics_values: Vec<u32>,
     semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
-) -> Semantics {
-    let surfaces = decode_semantics_surfaces(&semantics_objects, semantic_attr_schema);
+) -> Result<Semantics, Error> {
+    let surfaces = decode_semantics_surfaces(&semantics_objects, semantic_attr_schema)?;
 
     let mut part_lists = PartLists {
         solids,
@@ -363,18 +380,43 @@ pub(crate) fn decode_semantics(
         for &val in &semantics_values {
             leaf.push(if val == u32::MAX { None } else { Some(val) });
         }
-        return Semantics {
+        return Ok(Semantics {
             surfaces,
             values: SemanticsValues::Indices(leaf),
-        };
+        });
+    }
+    if d == 4 {
+        check_counts(&[solids, shells, &semantics_values])?;
+    } else {
+        check_counts(&[shells, &semantics_values])?;
     }
 
     let result = decode_semantics_(d, None, None, &mut part_lists, &semantics_values);
 
-    Semantics {
+    Ok(Semantics {
         surfaces,
         values: result,
-    }
+    })
+}
+
+#[cfg(test)]
+fn decode_semantics(
+    solids: &[u32],
+    shells: &[u32],
+    geometry_type: GeometryType,
+    semantics_objects: Vec<SemanticObject>,
+    semantics_values: Vec<u32>,
+    schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
+) -> Semantics {
+    try_decode_semantics(
+        solids,
+        shells,
+        geometry_type,
+        semantics_objects,
+        semantics_values,
+        schema,
+    )
+    .unwrap()
 }
 
 impl GeometryType {
-- 
2.43.0


From e11edd1d1fc7746024971a16a537d11beb12cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 41/52] fix: leave out the index of an attribute that has
 nothing to index (writing panicked)

---
 src/rust/fcb_core/src/writer/attr_index.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index f89bd99..d629149 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -40,6 +40,11 @@ where
         }
     }
 
+    if entries.is_empty() {
+        return Err(Error::IndexCreationError(
+            "the attribute has no values that can be indexed".to_string(),
+        ));
+    }
     let index = MemoryIndex::<T>::build(&entries, branching_factor)?;
     let mut buf = Vec::new();
     index.serialize(&mut buf)?;
-- 
2.43.0


From 0da0678f6697f86bfe54caead721c3491ac06be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 42/52] fix: fail to decode a file with unreadable features
 instead of ending early with success

---
 src/rust/cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 2257fd1..eb66733 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -390,7 +390,7 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
     // Write features
     let feat_count = header.features_count();
     let mut feat_num = 0;
-    while let Ok(Some(feat_buf)) = fcb_reader.next() {
+    while let Some(feat_buf) = fcb_reader.next()? {
         let feature = feat_buf.cur_cj_feature()?;
         writeln!(writer, "{}", serde_json::to_string(&feature)?)?;
 
-- 
2.43.0


From 3327c13eb5ef08e5a3e92b7b9fb7dfd735bb0d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 43/52] fix: keep the attributes of semantic surfaces of
 geometry templates

---
 src/rust/cli/src/main.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index eb66733..59c6690 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -203,6 +203,17 @@ fn serialize(
                 }
             }
         }
+        for templates in cj.geometry_templates.iter() {
+            for geom in templates.templates.iter() {
+                if let Some(semantics) = geom.semantics.as_ref() {
+                    for sem_obj in semantics.surfaces.iter() {
+                        if let Some(other) = &sem_obj.other {
+                            schema.add_attributes(other);
+                        }
+                    }
+                }
+            }
+        }
         if schema.is_empty() {
             None
         } else {
-- 
2.43.0


From e6879854cd46a8bb74117e765d6b37bce043fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 44/52] fix: report output that cannot be written when the last
 of it is flushed

---
 src/rust/cli/src/main.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 59c6690..3fa1575 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -128,7 +128,7 @@ fn serialize(
     let writer = get_writer(output)?;
 
     let reader = BufReader::new(reader);
-    let writer = BufWriter::new(writer);
+    let mut writer = BufWriter::new(writer);
 
     // Parse the bbox if provided
     let bbox_parsed = if let Some(bbox_str) = bbox {
@@ -270,7 +270,8 @@ fn serialize(
     for feature in filtered_features.iter() {
         fcb.add_feature(feature)?;
     }
-    fcb.write(writer)?;
+    fcb.write(&mut writer)?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("Successfully encoded to FCB");
@@ -410,6 +411,7 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
             break;
         }
     }
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("Successfully decoded to CityJSON");
@@ -419,15 +421,16 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
 
 fn encode_cbor(input: &str, output: &str) -> Result<(), Error> {
     let reader = BufReader::new(get_reader(input)?);
-    let writer = BufWriter::new(get_writer(output)?);
+    let mut writer = BufWriter::new(get_writer(output)?);
 
     let value: serde_json::Value = serde_json::from_reader(reader)?;
-    serde_cbor::to_writer(writer, &value).map_err(|e| {
+    serde_cbor::to_writer(&mut writer, &value).map_err(|e| {
         Error::IoError(std::io::Error::new(
             std::io::ErrorKind::Other,
             format!("failed to encode to cbor: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to cbor");
@@ -459,6 +462,7 @@ fn encode_bson(input: &str, output: &str) -> Result<(), Error> {
             format!("failed to encode to bson: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to bson");
-- 
2.43.0


From b4c8fe0a1d5b2e934605ffa0b22dfa33a9e11cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:15 +0000
Subject: [PATCH 45/52] fix: keep empty surfaces and shells on the level they
 belong to

---
 src/rust/fcb_core/src/writer/geom_encoder.rs | 144 +++++++++----------
 1 file changed, 67 insertions(+), 77 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index 7c43266..c9ae445 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -233,9 +233,24 @@ pub(crate) fn encode_texture(
 ///
 /// The maximum depth encountered during encoding.
 fn encode_texture_values(values: &CjTextureValues, mapping: &mut TextureMapping) -> usize {
+    let depth = texture_depth(values);
+    encode_texture_level(values, depth, mapping);
+    depth
+}
+
+/// The number of levels of a texture array (1 for rings).
+fn texture_depth(values: &CjTextureValues) -> usize {
     match values {
+        CjTextureValues::Indices(_) => 1,
+        CjTextureValues::Nested(subs) => 1 + subs.iter().map(texture_depth).max().unwrap_or(0),
+    }
+}
+
+/// Encodes a part of the texture values that has `level` levels (1 for rings).
+fn encode_texture_level(values: &CjTextureValues, level: usize, mapping: &mut TextureMapping) {
+    let nested = match values {
         // Leaf node (indices)
-        CjTextureValues::Indices(indices) => {
+        CjTextureValues::Indices(indices) if level <= 1 => {
             // Record the number of indices in this ring
             mapping.strings.push(indices.len() as u32);
 
@@ -243,44 +258,29 @@ fn encode_texture_values(values: &CjTextureValues, mapping: &mut TextureMapping)
             mapping
                 .vertices
                 .extend(indices.iter().map(|i| i.map_or(u32::MAX, |v| v as u32)));
-
-            // Return the current depth level (1 for rings)
-            1 // ring-level
+            return;
         }
+        // an empty array has the same form on every level
+        CjTextureValues::Indices(_) => &[][..],
         // Nested structure
-        CjTextureValues::Nested(nested) => {
-            let mut max_depth = 0;
-
-            // Recursively encode each nested value and track the maximum depth
-            for sub in nested {
-                let d = encode_texture_values(sub, mapping);
-                max_depth = max_depth.max(d);
-            }
-
-            // Number of nested values at the current level
-            let length = nested.len();
+        CjTextureValues::Nested(nested) => nested,
+    };
 
-            // Interpret the `max_depth` to determine the current geometry type
-            match max_depth {
-                // max_depth = 1 indicates the children are rings, so this level represents surfaces
-                1 => {
-                    mapping.surfaces.push(length as u32);
-                }
-                // max_depth = 2 indicates the children are surfaces, so this level represents shells
-                2 => {
-                    mapping.shells.push(length as u32);
-                }
-                // max_depth = 3 indicates the children are shells, so this level represents solids
-                3 => {
-                    mapping.solids.push(length as u32);
-                }
-                // Any other depth is invalid and should be ignored
-                _ => {}
-            }
+    for sub in nested {
+        encode_texture_level(sub, level - 1, mapping);
+    }
 
-            // Return the updated depth level
-            max_depth + 1
-        }
+    // Number of nested values at the current level
+    let length = nested.len() as u32;
+    match level {
+        // the children are rings, so this level represents surfaces
+        2 => mapping.surfaces.push(length),
+        // the children are surfaces, so this level represents shells
+        3 => mapping.shells.push(length),
+        // the children are shells, so this level represents solids
+        4 => mapping.solids.push(length),
+        // Any other depth is invalid
+        _ => {}
     }
 }
 
@@ -293,63 +293,53 @@ fn encode_texture_values(values: &CjTextureValues, mapping: &mut TextureMapping)
 /// # Returns
 ///
 /// The maximum depth encountered during encoding.
-///
-/// # Panics
-///
-/// Panics if the `max_depth` is not 1, 2, or 3, indicating an invalid geometry nesting depth.
 fn encode_boundaries(boundaries: &CjBoundaries, wip_boundaries: &mut GMBoundaries) -> usize {
-    match boundaries {
+    let depth = boundaries_depth(boundaries);
+    encode_boundaries_level(boundaries, depth, wip_boundaries);
+    depth
+}
+
+/// Encodes a part of the boundaries that has `level` levels (1 for rings).
+fn encode_boundaries_level(
+    boundaries: &CjBoundaries,
+    level: usize,
+    wip_boundaries: &mut GMBoundaries,
+) {
+    let sub_boundaries = match boundaries {
         // ------------------
         // (1) Leaf (indices)
         // ------------------
-        CjBoundaries::Indices(indices) => {
+        CjBoundaries::Indices(indices) if level <= 1 => {
             // Extend the flat list of indices with the current ring's indices
             wip_boundaries.indices.extend_from_slice(indices);
 
             // Record the number of indices in the current ring
             wip_boundaries.strings.push(indices.len() as u32);
-
-            // Return the current depth level (1 for rings)
-            1 // ring-level
+            return;
         }
+        // an empty array has the same form on every level
+        CjBoundaries::Indices(_) => &[][..],
         // ------------------
         // (2) Nested
         // ------------------
-        CjBoundaries::Nested(sub_boundaries) => {
-            let mut max_depth = 0;
-
-            // Recursively encode each sub-boundary and track the maximum depth
-            for sub in sub_boundaries {
-                let d = encode_boundaries(sub, wip_boundaries);
-                max_depth = max_depth.max(d);
-            }
-
-            // Number of sub-boundaries at the current level
-            let length = sub_boundaries.len();
+        CjBoundaries::Nested(sub_boundaries) => sub_boundaries,
+    };
 
-            // Interpret the `max_depth` to determine the current geometry type
-            match max_depth {
-                // max_depth = 1 indicates the children are rings, so this level represents surfaces
-                1 => {
-                    wip_boundaries.surfaces.push(length as u32);
-                }
-                // max_depth = 2 indicates the children are surfaces, so this level represents shells
-                2 => {
-                    // Push the number of surfaces in this shell
-                    wip_boundaries.shells.push(length as u32);
-                }
-                // max_depth = 3 indicates the children are shells, so this level represents solids
-                3 => {
-                    // Push the number of shells in this solid
-                    wip_boundaries.solids.push(length as u32);
-                }
-                // Any other depth is invalid and should panic
-                _ => {}
-            }
+    for sub in sub_boundaries {
+        encode_boundaries_level(sub, level - 1, wip_boundaries);
+    }
 
-            // Return the updated depth level
-            max_depth + 1
-        }
+    // Number of sub-boundaries at the current level
+    let length = sub_boundaries.len() as u32;
+    match level {
+        // the children are rings, so this level represents surfaces
+        2 => wip_boundaries.surfaces.push(length),
+        // the children are surfaces, so this level represents shells
+        3 => wip_boundaries.shells.push(length),
+        // the children are shells, so this level represents solids
+        4 => wip_boundaries.solids.push(length),
+        // Any other depth is invalid
+        _ => {}
     }
 }
 
-- 
2.43.0


From 672c0cbd80b22f906b332bd2a0963cc5ac00b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:15 +0000
Subject: [PATCH 46/52] fix: refuse geometries and transforms that cannot be
 stored instead of writing unreadable files or panicking

---
 src/rust/fcb_core/src/writer/geom_check.rs | 122 +++++++++++++++++++++
 src/rust/fcb_core/src/writer/mod.rs        |  26 ++---
 2 files changed, 134 insertions(+), 14 deletions(-)
 create mode 100644 src/rust/fcb_core/src/writer/geom_check.rs

diff --git a/src/rust/fcb_core/src/writer/geom_check.rs b/src/rust/fcb_core/src/writer/geom_check.rs
new file mode 100644
index 0000000..39d9ace
--- /dev/null
+++ b/src/rust/fcb_core/src/writer/geom_check.rs
@@ -0,0 +1,122 @@
+use super::error::Error;
+use super::geom_encoder::encode;
+use cjseq::{Boundaries, Geometry, GeometryType, MaterialValues, SemanticsValues, TextureValues};
+
+/// Nested arrays of a geometry.
+enum Part<'a, T> {
+    Nested(&'a [T]),
+    /// The number of values, and whether all of them can be stored
+    Values(usize, bool),
+}
+
+fn storable(values: &[Option<usize>]) -> bool {
+    // u32::MAX stands for null
+    values.iter().flatten().all(|v| *v < u32::MAX as usize)
+}
+
+fn boundaries(b: &Boundaries) -> Part<'_, Boundaries> {
+    match b {
+        Boundaries::Nested(subs) => Part::Nested(subs),
+        Boundaries::Indices(i) => Part::Values(i.len(), true),
+    }
+}
+
+fn semantics(s: &SemanticsValues) -> Part<'_, SemanticsValues> {
+    match s {
+        SemanticsValues::Nested(subs) => Part::Nested(subs),
+        // null stands for a whole shell or solid as well
+        SemanticsValues::Indices(i) => {
+            Part::Values(i.iter().flatten().count(), !i.contains(&Some(u32::MAX)))
+        }
+    }
+}
+
+fn texture(t: &TextureValues) -> Part<'_, TextureValues> {
+    match t {
+        TextureValues::Nested(subs) => Part::Nested(subs),
+        TextureValues::Indices(i) => Part::Values(i.len(), storable(i)),
+    }
+}
+
+fn material(m: &MaterialValues) -> Part<'_, MaterialValues> {
+    match m {
+        MaterialValues::Nested(subs) => Part::Nested(subs),
+        MaterialValues::Indices(i) => Part::Values(i.len(), storable(i)),
+    }
+}
+
+fn depth<T>(value: &T, part: fn(&T) -> Part<'_, T>) -> usize {
+    match part(value) {
+        Part::Nested(subs) => 1 + subs.iter().map(|s| depth(s, part)).max().unwrap_or(0),
+        Part::Values(..) => 1,
+    }
+}
+
+/// All values are on the lowest of `level` levels; an empty array may be on any.
+fn even<T>(value: &T, level: usize, part: fn(&T) -> Part<'_, T>) -> bool {
+    match part(value) {
+        Part::Nested(subs) => subs.iter().all(|s| even(s, level - 1, part)),
+        Part::Values(n, ok) => ok && (n == 0 || level == 1),
+    }
+}
+
+fn fits<T>(value: &T, levels: usize, part: fn(&T) -> Part<'_, T>) -> bool {
+    let depth = depth(value, part);
+    depth <= levels && even(value, depth, part)
+}
+
+/// Refuses geometries that the format cannot represent.
+pub(super) fn check_geometry(geometry: &Geometry) -> Result<(), Error> {
+    if geometry.thetype == GeometryType::GeometryInstance {
+        let template = geometry.template.and_then(|t| u32::try_from(t).ok());
+        let point = matches!(&geometry.boundaries, Boundaries::Indices(i) if i.len() == 1);
+        if template.is_none() || geometry.transformation_matrix.is_none() || !point {
+            let msg = "a geometry instance needs a template, a matrix and a reference point";
+            return Err(Error::invalid_geometry(msg));
+        }
+    }
+    let levels = match geometry.thetype {
+        GeometryType::MultiPoint | GeometryType::GeometryInstance => 1,
+        GeometryType::MultiLineString => 2,
+        GeometryType::MultiSurface | GeometryType::CompositeSurface => 3,
+        GeometryType::Solid => 4,
+        GeometryType::MultiSolid | GeometryType::CompositeSolid => 5,
+    };
+    let empty = matches!(&geometry.boundaries, Boundaries::Indices(i) if i.is_empty());
+    if !empty && depth(&geometry.boundaries, boundaries) != levels
+        || !fits(&geometry.boundaries, levels, boundaries)
+    {
+        let msg = "the boundaries are not nested as the geometry type asks for";
+        return Err(Error::invalid_geometry(msg));
+    }
+    let textures = geometry.texture.iter().flat_map(|t| t.values());
+    let materials = geometry.material.iter().flat_map(|m| m.values());
+    if textures.into_iter().any(|t| !fits(&t.values, 5, texture))
+        || materials.into_iter().any(|m| {
+            m.values.as_ref().is_some_and(|v| !fits(v, 3, material))
+                || m.value.is_some_and(|v| u32::try_from(v).is_err())
+        })
+    {
+        let msg = "appearance values are nested unevenly or exceed 32 bits";
+        return Err(Error::invalid_geometry(msg));
+    }
+    if let Some(s) = &geometry.semantics {
+        if !fits(&s.values, 3, semantics) {
+            let msg = "semantic values are nested unevenly or exceed 32 bits";
+            return Err(Error::invalid_geometry(msg));
+        }
+        // the values of shells are found by the number of surfaces
+        let encoded = encode(&geometry.boundaries, Some(s), None, None);
+        let surfaces: u64 = encoded.boundaries.shells.iter().map(|n| *n as u64).sum();
+        let values = encoded.semantics.map_or(0, |s| s.values.len());
+        let solid = matches!(
+            geometry.thetype,
+            GeometryType::Solid | GeometryType::MultiSolid | GeometryType::CompositeSolid
+        );
+        if solid && (values as u64) < surfaces {
+            let msg = "there are fewer semantic values than surfaces";
+            return Err(Error::invalid_geometry(msg));
+        }
+    }
+    Ok(())
+}
diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 24010c5..5c4b022 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -2,11 +2,9 @@ use crate::packed_rtree::{calc_extent, hilbert_sort, NodeItem, PackedRTree};
 use crate::MAGIC_BYTES;
 use attr_index::build_attribute_index_for_attr;
 use attribute::AttributeSchema;
-use cjseq::{
-    Boundaries as CjBoundaries, CityJSON, CityJSONFeature, GeometryType as CjGeometryType,
-    Transform as CjTransform,
-};
+use cjseq::{CityJSON, CityJSONFeature, Transform as CjTransform};
 use feature_writer::{AttributeFeatureOffset, FeatureWriter};
+use geom_check::check_geometry;
 use header_writer::{HeaderWriter, HeaderWriterOptions};
 use serializer::AttributeIndexInfo;
 
@@ -18,6 +16,7 @@ mod attr_index;
 pub mod attribute;
 pub mod error;
 pub mod feature_writer;
+mod geom_check;
 pub mod geom_encoder;
 pub mod header_writer;
 pub mod serializer;
@@ -44,8 +43,7 @@ pub struct FcbWriter<'a> {
     attribute_index_entries: HashMap<usize, AttributeFeatureOffset>,
 }
 
-/// Refuses features that the format cannot represent: vertices are three 32-bit integers,
-/// a geometry instance has one template, one matrix and flat boundaries.
+/// Refuses features that the format cannot represent: vertices are three 32-bit integers.
 fn check_feature(feature: &CityJSONFeature) -> Result<()> {
     for v in &feature.vertices {
         if v.len() != 3 || v.iter().any(|c| i32::try_from(*c).is_err()) {
@@ -55,14 +53,7 @@ fn check_feature(feature: &CityJSONFeature) -> Result<()> {
     }
     let objects = feature.city_objects.values();
     for geometry in objects.filter_map(|co| co.geometry.as_ref()).flatten() {
-        if geometry.thetype == CjGeometryType::GeometryInstance
-            && (geometry.template.and_then(|t| u32::try_from(t).ok()).is_none()
-                || geometry.transformation_matrix.is_none()
-                || matches!(geometry.boundaries, CjBoundaries::Nested(_)))
-        {
-            let msg = "a geometry instance needs a template, a matrix and a reference point";
-            return Err(error::Error::invalid_geometry(msg).into());
-        }
+        check_geometry(geometry)?;
     }
     Ok(())
 }
@@ -95,6 +86,13 @@ impl<'a> FcbWriter<'a> {
         let attr_schema = attr_schema.unwrap_or_default();
 
         let transform = cj.transform.clone();
+        if transform.scale.len() != 3 || transform.translate.len() != 3 {
+            let msg = "the transform needs three scales and three translations";
+            return Err(error::Error::invalid_geometry(msg).into());
+        }
+        for geometry in cj.geometry_templates.iter().flat_map(|t| &t.templates) {
+            check_geometry(geometry)?;
+        }
         let header_writer = HeaderWriter::new(
             cj,
             header_option,
-- 
2.43.0


From 1dd736be14ba53d4d0ea95905950d28c55cb9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 47/52] fix: do not number two columns of an inferred schema
 alike when there are more attributes than column numbers

---
 src/rust/fcb_core/src/writer/attribute.rs | 8 +++++++-
 src/rust/fcb_core/src/writer/mod.rs       | 7 +++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 62af037..1bf2b9c 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -27,7 +27,13 @@ impl AttributeSchemaMethods for AttributeSchema {
                 continue;
             }
             if let Some(coltype) = guess_type(val) {
-                let next_index = self.len() as u16;
+                let Ok(next_index) = u16::try_from(self.len()) else {
+                    // no number is left for another column
+                    if let Some(column) = self.get_mut(key) {
+                        column.1 = common_type(column.1, coltype);
+                    }
+                    continue;
+                };
                 let column = self.entry(key.clone()).or_insert((next_index, coltype));
                 column.1 = common_type(column.1, coltype);
             }
diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 5c4b022..cd011e8 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -51,6 +51,13 @@ fn check_feature(feature: &CityJSONFeature) -> Result<()> {
             return Err(error::Error::invalid_geometry(msg).into());
         }
     }
+    let attributes = feature.city_objects.values().map(|co| co.attributes.as_ref());
+    for attributes in attributes.flatten().filter_map(|a| a.as_object()) {
+        if attributes.values().filter(|v| !v.is_null()).count() > usize::from(u16::MAX) + 1 {
+            let msg = format!("{} attributes of one object", attributes.len());
+            return Err(crate::error::Error::InvalidAttributeValue { msg }.into());
+        }
+    }
     let objects = feature.city_objects.values();
     for geometry in objects.filter_map(|co| co.geometry.as_ref()).flatten() {
         check_geometry(geometry)?;
-- 
2.43.0


From 31d7631546523a7f83a2435da6553e00895a6f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 48/52] fix: keep empty solids in material values, and null for
 a shell of empty surfaces in semantic values

---
 src/rust/fcb_core/src/writer/geom_encoder.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index c9ae445..be7445d 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -90,7 +90,8 @@ pub(crate) fn encode(
     // Encode semantics if provided
     let semantics = semantics.map(|s| {
         let mut values = s.values.clone();
-        expand_null_shells(&mut values, cj_boundaries, false);
+        let depth = boundaries_depth(cj_boundaries);
+        expand_null_shells(&mut values, cj_boundaries, depth, false);
         encode_semantics(&CjSemantics {
             values,
             surfaces: s.surfaces.clone(),
@@ -172,6 +173,9 @@ pub(crate) fn encode_material(
                                         );
                                     }
                                 }
+                            } else {
+                                // An empty solid
+                                material_values.solids.push(0);
                             }
                         }
                     } else {
@@ -353,11 +357,15 @@ fn boundaries_depth(boundaries: &CjBoundaries) -> usize {
 
 /// CityJSON allows `null` for a whole shell or solid without semantics. Gives such
 /// places one null per surface, so that the flattened values line up with the surfaces.
-fn expand_null_shells(values: &mut CjSemanticsValues, boundaries: &CjBoundaries, nested: bool) {
+fn expand_null_shells(
+    values: &mut CjSemanticsValues,
+    boundaries: &CjBoundaries,
+    depth: usize,
+    nested: bool,
+) {
     let CjBoundaries::Nested(subs) = boundaries else {
         return;
     };
-    let depth = boundaries_depth(boundaries);
     match values {
         CjSemanticsValues::Indices(indices) if indices.iter().all(Option::is_none) => match depth {
             0..=2 => {}
@@ -366,7 +374,7 @@ fn expand_null_shells(values: &mut CjSemanticsValues, boundaries: &CjBoundaries,
             _ => {
                 let mut shells = vec![CjSemanticsValues::Indices(vec![]); subs.len()];
                 for (value, sub) in shells.iter_mut().zip(subs) {
-                    expand_null_shells(value, sub, true);
+                    expand_null_shells(value, sub, depth - 1, true);
                 }
                 *values = CjSemanticsValues::Nested(shells);
             }
@@ -374,7 +382,7 @@ fn expand_null_shells(values: &mut CjSemanticsValues, boundaries: &CjBoundaries,
         CjSemanticsValues::Indices(_) => {}
         CjSemanticsValues::Nested(sub_values) => {
             for (value, sub) in sub_values.iter_mut().zip(subs) {
-                expand_null_shells(value, sub, true);
+                expand_null_shells(value, sub, depth - 1, true);
             }
         }
     }
-- 
2.43.0


From 774e4d9bb0140fad6c959642556495dbb19b29d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 49/52] fix: load the offsets of duplicate keys with a B+tree
 read over HTTP

Stree::from_http read the nodes only, so that find_exact on such a tree answered
a key that several entries share with the tagged reference instead of their offsets.
---
 src/rust/fcb_core/src/static_btree/stree.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 62b03e4..fa673b4 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -583,12 +583,27 @@ impl<K: Key> Stree<K> {
         for i in 0..self.num_nodes() {
             let bytes = client
                 .min_req_size(min_req_size)
-                .get_range(pos, size_of::<NodeItem<K>>())
+                .get_range(pos, NodeItem::<K>::SERIALIZED_SIZE)
                 .await?;
+            if bytes.len() < NodeItem::<K>::SERIALIZED_SIZE {
+                return Err(Error::IoError(std::io::ErrorKind::UnexpectedEof.into()));
+            }
             let n = NodeItem::from_bytes(bytes)?;
             self.node_items[i] = n;
             pos += NodeItem::<K>::SERIALIZED_SIZE;
         }
+        // the offsets of duplicate keys follow the nodes, those with the largest reference last
+        let leaves = &self.node_items[self.level_bounds[0].clone()];
+        let tagged = leaves.iter().filter(|n| (n.offset & PAYLOAD_TAG) != 0);
+        if let Some(last) = tagged.map(|n| (n.offset & PAYLOAD_MASK) as usize).max() {
+            let last_entry = pos
+                .checked_add(last)
+                .ok_or_else(|| Error::InvalidFormat("payload reference too large".to_string()))?;
+            let entry = read_http_payload_data(client, last_entry).await?;
+            let length = last + entry.serialized_size();
+            self.payload_data = client.get_range(pos, length).await?.to_vec();
+            self.payload_initialized = true;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 7d01bb9567a978654f2b2be93017c133cedd0fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 50/52] fix: boxes of features under a negative scale

The transform turned them round, minimum above maximum, so that no query found them.
---
 src/rust/fcb_core/src/writer/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index cd011e8..72f3122 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -162,11 +162,16 @@ impl<'a> FcbWriter<'a> {
         let scale_y = transform.scale[1];
         let translate_x = transform.translate[0];
         let translate_y = transform.translate[1];
+        // A negative scale turns the box round
+        let ends =
+            |min: f64, max: f64, scale: f64| if scale < 0.0 { (max, min) } else { (min, max) };
+        let (min_x, max_x) = ends(bbox.min_x, bbox.max_x, scale_x);
+        let (min_y, max_y) = ends(bbox.min_y, bbox.max_y, scale_y);
         NodeItem::new(
-            bbox.min_x * scale_x + translate_x,
-            bbox.min_y * scale_y + translate_y,
-            bbox.max_x * scale_x + translate_x,
-            bbox.max_y * scale_y + translate_y,
+            min_x * scale_x + translate_x,
+            min_y * scale_y + translate_y,
+            max_x * scale_x + translate_x,
+            max_y * scale_y + translate_y,
         )
     }
 
-- 
2.43.0


From 945a42a9203a9c7e558b36e70f7ca144b1d21fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:12 +0000
Subject: [PATCH 51/52] fix: name all the columns of the statistics in CSV

---
 src/rust/fcb_core/src/bin/stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/bin/stats.rs b/src/rust/fcb_core/src/bin/stats.rs
index b1301ec..391fa9a 100644
--- a/src/rust/fcb_core/src/bin/stats.rs
+++ b/src/rust/fcb_core/src/bin/stats.rs
@@ -431,7 +431,7 @@ fn output_table(stats: &[FileStats]) {
 }
 
 fn output_csv(stats: &[FileStats]) -> Result<()> {
-    println!("city,fcb_size,jsonl_size,compression,features,city_objects,vertices,vertices_per_object,attributes,avg_fcb_feature_size,avg_jsonl_feature_size,feature_compression");
+    println!("city,fcb_size,jsonl_size,compression,features,city_objects,vertices,vertices_per_object,vertices_per_feature,attributes,semantic_attributes,avg_fcb_feature_size,avg_jsonl_feature_size,feature_compression");
 
     for stat in stats {
         println!(
-- 
2.43.0


From e12a38a7b19a8fb4a8128cdef882738251a97187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 52/52] fix: no average feature size of a file without features
 in the statistics

---
 src/rust/fcb_core/src/bin/stats.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/bin/stats.rs b/src/rust/fcb_core/src/bin/stats.rs
index 391fa9a..668450e 100644
--- a/src/rust/fcb_core/src/bin/stats.rs
+++ b/src/rust/fcb_core/src/bin/stats.rs
@@ -134,7 +134,11 @@ fn analyze_fcb(path: &Path) -> Result<(u64, usize, usize, usize, usize, f64)> {
             break;
         }
     }
-    let avg_feature_size = total_feature_size as f64 / feature_count as f64;
+    let avg_feature_size = if feature_count > 0 {
+        total_feature_size as f64 / feature_count as f64
+    } else {
+        0.0
+    };
 
     Ok((
         feature_count,
-- 
2.43.0

