From 11516d86f4ecdac0039f568042ca24f66995757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 01/46] fix: store the number of features actually written in
 the header

---
 src/rust/fcb_core/src/writer/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 5d0ea56..2dbd137 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -262,6 +262,8 @@ impl<'a> FcbWriter<'a> {
 
         // write header with attribute indices metadata
         self.header_writer.attribute_indices_info = Some(attr_index_info);
+        // the header describes what is written, whatever count the caller expected
+        self.header_writer.header_options.feature_count = self.feat_offsets.len() as u64;
         let header_buf = self.header_writer.finish_to_header()?;
         out.write_all(&header_buf)?;
 
-- 
2.43.0


From da6fccce21884a909784da720414618dac051f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 02/46] fix: skip the index of an attribute without values
 instead of panicking

---
 src/rust/fcb_core/src/writer/attr_index.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index f8b70ca..3115657 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -36,6 +36,11 @@ where
         }
     }
 
+    // no value of this attribute: there is nothing to index
+    if entries.is_empty() {
+        return Err(Error::AttributeIndexNotFound);
+    }
+
     let index = MemoryIndex::<T>::build(&entries, branching_factor)?;
     let mut buf = Vec::new();
     index.serialize(&mut buf)?;
-- 
2.43.0


From 38edcae79078ccc35b11f6a69d5b3309812d0d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 03/46] fix: keep attribute values that their column cannot
 hold instead of storing 0 or panicking

---
 src/rust/fcb_core/src/writer/attribute.rs  | 23 +++++++++++++++++++++-
 src/rust/fcb_core/src/writer/serializer.rs | 12 ++++++++---
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 119b1c0..5a8440e 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -59,6 +59,27 @@ fn guess_type(value: &Value) -> Option<ColumnType> {
     }
 }
 
+/// Whether a column of this type can hold the value.
+pub(crate) fn fits(coltype: &ColumnType, val: &Value) -> bool {
+    let signed = |min: i64, max: i64| val.as_i64().is_some_and(|i| i >= min && i <= max);
+    let unsigned = |max: u64| val.as_u64().is_some_and(|u| u <= max);
+    match *coltype {
+        ColumnType::Bool => val.is_boolean(),
+        ColumnType::Byte => signed(i8::MIN as i64, i8::MAX as i64),
+        ColumnType::Short => signed(i16::MIN as i64, i16::MAX as i64),
+        ColumnType::Int => signed(i32::MIN as i64, i32::MAX as i64),
+        ColumnType::Long => val.is_i64(),
+        ColumnType::UByte => unsigned(u8::MAX as u64),
+        ColumnType::UShort => unsigned(u16::MAX as u64),
+        ColumnType::UInt => unsigned(u32::MAX as u64),
+        ColumnType::ULong => val.is_u64(),
+        ColumnType::Float | ColumnType::Double => val.is_number(),
+        ColumnType::String | ColumnType::DateTime | ColumnType::Binary => val.is_string(),
+        ColumnType::Json => true,
+        _ => false,
+    }
+}
+
 pub(crate) fn attr_size(coltype: &ColumnType, colval: &Value) -> usize {
     match *coltype {
         ColumnType::Byte => size_of::<i8>(),
@@ -108,7 +129,7 @@ pub(crate) fn encode_attributes_with_schema(attr: &Value, schema: &AttributeSche
             }
         };
 
-        if val.is_null() {
+        if val.is_null() || !fits(coltype, val) {
             continue;
         }
 
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 81800dd..6a33358 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -1,4 +1,6 @@
-use crate::attribute::{encode_attributes_with_schema, AttributeSchema, AttributeSchemaMethods};
+use crate::attribute::{
+    encode_attributes_with_schema, fits, AttributeSchema, AttributeSchemaMethods,
+};
 use crate::fb::{
     Appearance, AppearanceArgs, CityFeature, CityFeatureArgs, CityObject, CityObjectArgs,
     CityObjectType, Geometry, GeometryArgs, GeometryType, Material, MaterialArgs, SemanticObject,
@@ -1039,8 +1041,12 @@ pub(super) fn to_fcb_attribute<'a>(
     Option<AttributeSchema>,
 ) {
     let mut is_own_schema = false;
-    for (key, _) in attr.as_object().unwrap().iter() {
-        if !schema.contains_key(key) {
+    for (key, val) in attr.as_object().unwrap().iter() {
+        // a value that its column cannot hold needs a schema of its own, too
+        if !schema
+            .get(key)
+            .is_some_and(|(_, coltype)| val.is_null() || fits(coltype, val))
+        {
             is_own_schema = true;
         }
     }
-- 
2.43.0


From 8052e7f1f384ccb014af33f148f0195f84f29894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 04/46] fix: index only values an attribute really has, for
 every integer column type

---
 src/rust/fcb_core/src/writer/attr_index.rs |  2 +-
 src/rust/fcb_core/src/writer/attribute.rs  | 42 +++++++++++++++++-----
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index 3115657..eee62ce 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -242,7 +242,7 @@ pub(super) fn build_attribute_index_for_attr(
             },
             branching_factor,
         ),
-        ColumnType::Byte => build_index_generic::<u8, _>(
+        ColumnType::Byte => build_index_generic::<i8, _>(
             *schema_index,
             attribute_entries,
             |entry| {
diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 5a8440e..e916bef 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -227,7 +227,7 @@ pub enum AttributeIndexEntry {
     DateTime { index: u16, val: DateTime<Utc> },
     Short { index: u16, val: i16 },
     UShort { index: u16, val: u16 },
-    Byte { index: u16, val: u8 },
+    Byte { index: u16, val: i8 },
     UByte { index: u16, val: u8 },
     Json { index: u16, val: String },
     Binary { index: u16, val: String },
@@ -273,6 +273,10 @@ pub fn attribute_to_index_entries(
 
         let index_coltype = schema.get(attr);
         if let Some((index, coltype)) = index_coltype {
+            // an object without a value of the column's type has no entry in its index
+            if val.is_null() || !fits(coltype, val) {
+                continue;
+            }
             match *coltype {
                 ColumnType::Bool => {
                     let b = val.as_bool().unwrap_or(false);
@@ -333,20 +337,42 @@ pub fn attribute_to_index_entries(
                     let dt = match chrono::DateTime::parse_from_rfc3339(val.as_str().unwrap_or(""))
                     {
                         Ok(dt) => dt.to_utc(),
-                        Err(e) => {
-                            eprintln!("Failed to parse DateTime: {}", e);
-                            // Choose whether to skip, default, or handle differently
-                            // For example, default to 1970-01-01:
-                            DateTime::<Utc>::from_timestamp(0, 0).unwrap()
-                        }
+                        Err(_) => continue,
                     };
                     index_entries.push(AttributeIndexEntry::DateTime {
                         index: *index,
                         val: dt,
                     });
                 }
+                ColumnType::Short => {
+                    let i = val.as_i64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::Short {
+                        index: *index,
+                        val: i as i16,
+                    });
+                }
+                ColumnType::UShort => {
+                    let i = val.as_u64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::UShort {
+                        index: *index,
+                        val: i as u16,
+                    });
+                }
+                ColumnType::Byte => {
+                    let i = val.as_i64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::Byte {
+                        index: *index,
+                        val: i as i8,
+                    });
+                }
+                ColumnType::UByte => {
+                    let i = val.as_u64().unwrap_or(0);
+                    index_entries.push(AttributeIndexEntry::UByte {
+                        index: *index,
+                        val: i as u8,
+                    });
+                }
                 _ => {
-                    //Byte, Ubyte,
                     println!("Attribute {} is not supported for indexing", attr);
                 }
             }
-- 
2.43.0


From b253cfd9dca340e28981e1ccdb99598d695f6356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 05/46] fix: keep the library's debugging output out of
 standard output

---
 src/rust/fcb_core/src/http_reader/mod.rs           | 8 ++++----
 src/rust/fcb_core/src/reader/attr_query.rs         | 2 +-
 src/rust/fcb_core/src/static_btree/query/stream.rs | 6 +++---
 src/rust/fcb_core/src/static_btree/stree.rs        | 4 ++--
 src/rust/fcb_core/src/writer/attr_index.rs         | 2 +-
 src/rust/fcb_core/src/writer/attribute.rs          | 4 ++--
 src/rust/fcb_core/src/writer/serializer.rs         | 4 ++--
 7 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index a9deae9..8dc37e2 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -297,7 +297,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             count
         );
 
-        println!("http_ranges: {:?}", http_ranges);
+        log::debug!("http_ranges: {:?}", http_ranges);
         Ok(AsyncFeatureIter {
             client: self.client,
             fbs: self.fbs,
@@ -442,7 +442,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                 }
 
                 _ => {
-                    println!("Unsupported column type: {:?}", col.type_());
+                    log::debug!("Unsupported column type: {:?}", col.type_());
                     return Err(Error::UnsupportedColumnType(col.name().to_string()));
                 }
             }
@@ -680,13 +680,13 @@ impl SelectAttr {
         &mut self,
         client: &mut AsyncBufferedHttpRangeClient<T>,
     ) -> Result<Option<Bytes>> {
-        println!("self.range_pos: {:?}", self.range_pos);
+        log::debug!("self.range_pos: {:?}", self.range_pos);
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
         let mut feature_buffer = BytesMut::from(client.get_range(range.start(), 4).await?);
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        println!("feature_size: {:?}", feature_size);
+        log::debug!("feature_size: {:?}", feature_size);
         feature_buffer.put(client.get_range(range.start() + 4, feature_size).await?);
         self.range_pos += 1;
         Ok(Some(feature_buffer.freeze()))
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index ebf8bd4..04aa362 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -133,7 +133,7 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                 _ => return Err(Error::UnsupportedColumnType(col.name().to_string())),
             }
         } else {
-            println!("  - Skipping index for field: {}", col.name());
+            log::debug!("  - Skipping index for field: {}", col.name());
         }
     }
     Ok(())
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 0628140..edb0c86 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -410,9 +410,9 @@ impl StreamMultiIndex {
             let index_start = start_position + index_range.start as u64;
             // set cursor to the start of the index
             reader.seek(SeekFrom::Start(index_start))?;
-            println!("index_start: {}", index_start);
-            println!("start_position: {}", start_position);
-            println!("query condition: {:?}", cond);
+            log::debug!("index_start: {}", index_start);
+            log::debug!("start_position: {}", start_position);
+            log::debug!("query condition: {:?}", cond);
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
             if result_set.is_empty() {
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 239a5de..9942b13 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -1644,11 +1644,11 @@ impl<K: Key> Stree<K> {
                 if item.key >= lower && item.key <= upper {
                     let off = item.offset;
 
-                    println!("off: {:?}", off);
+                    log::debug!("off: {:?}", off);
 
                     if (off & PAYLOAD_TAG) != 0 {
                         let rel = (off & PAYLOAD_MASK) as usize;
-                        println!("rel: {:?}", rel);
+                        log::debug!("rel: {:?}", rel);
                         // Add as indirect reference to be resolved in batch
                         payload_refs.push(PayloadRef::Indirect(rel));
                     } else {
diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index eee62ce..398d4cd 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -307,7 +307,7 @@ pub(super) fn build_attribute_index_for_attr(
             branching_factor,
         ),
         _ => {
-            println!("Unsupported column type for indexing: {:?}", coltype);
+            log::debug!("Unsupported column type for indexing: {:?}", coltype);
             Err(Error::UnsupportedColumnType(format!("{:?}", coltype)))
         }
     }
diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index e916bef..d1df6ed 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -266,7 +266,7 @@ pub fn attribute_to_index_entries(
         let val: &Value = match map.get(attr) {
             Some(val) => val,
             None => {
-                println!("Attribute {} not found in schema", attr);
+                log::debug!("Attribute {} not found in schema", attr);
                 continue;
             }
         };
@@ -373,7 +373,7 @@ pub fn attribute_to_index_entries(
                     });
                 }
                 _ => {
-                    println!("Attribute {} is not supported for indexing", attr);
+                    log::debug!("Attribute {} is not supported for indexing", attr);
                 }
             }
         }
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 6a33358..def91db 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -273,11 +273,11 @@ pub(super) fn to_reference_system<'a>(
     let authority = Some(fbb.create_string(&ref_system.authority));
 
     let version = ref_system.version.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse version: {}", e);
+        log::debug!("failed to parse version: {}", e);
         0
     });
     let code = ref_system.code.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse code: {}", e);
+        log::debug!("failed to parse code: {}", e);
         0
     });
 
-- 
2.43.0


From d8e6e3d44167e047ddbdb63f2b002a04ce1a4ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 06/46] fix: read single-member solids, their materials and
 textures back with the nesting they had

---
 src/rust/fcb_core/src/reader/deserializer.rs | 13 ++-
 src/rust/fcb_core/src/reader/geom_decoder.rs | 99 ++++++++++++++++++++
 2 files changed, 110 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index c447cb8..202a645 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -3,7 +3,10 @@ use std::{collections::HashMap, mem::size_of};
 use crate::{
     error::Error,
     fb::*,
-    geom_decoder::{decode, decode_materials, decode_semantics, decode_textures},
+    geom_decoder::{
+        decode, decode_materials, decode_semantics, decode_textures, fit_boundaries, fit_materials,
+        fit_textures,
+    },
 };
 use byteorder::{ByteOrder, LittleEndian};
 use cjseq::{
@@ -590,7 +593,11 @@ pub(crate) fn decode_geometry(
         .boundaries()
         .map(|v| v.iter().collect::<Vec<_>>())
         .unwrap_or_default();
-    let boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
+    let boundaries = fit_boundaries(
+        decode(&solids, &shells, &surfaces, &strings, &indices),
+        g.type_(),
+        &solids,
+    );
     let semantics: Option<CjSemantics> = if let (Some(semantics_objects), Some(semantics)) =
         (g.semantics_objects(), g.semantics())
     {
@@ -611,6 +618,7 @@ pub(crate) fn decode_geometry(
     // Decode material mappings if present
     let material = if let Some(material_mappings) = g.material() {
         decode_materials(&material_mappings.iter().collect::<Vec<_>>())
+            .map(|themes| fit_materials(themes, g.type_()))
     } else {
         None
     };
@@ -618,6 +626,7 @@ pub(crate) fn decode_geometry(
     // Decode texture mappings if present
     let texture = if let Some(texture_mappings) = g.texture() {
         decode_textures(&texture_mappings.iter().collect::<Vec<_>>())
+            .map(|themes| fit_textures(themes, g.type_()))
     } else {
         None
     };
diff --git a/src/rust/fcb_core/src/reader/geom_decoder.rs b/src/rust/fcb_core/src/reader/geom_decoder.rs
index 4799eb9..6c7a378 100644
--- a/src/rust/fcb_core/src/reader/geom_decoder.rs
+++ b/src/rust/fcb_core/src/reader/geom_decoder.rs
@@ -850,6 +850,105 @@ pub(crate) fn decode_textures(
     Some(textures)
 }
 
+fn is_multi_solid(geometry_type: GeometryType) -> bool {
+    matches!(
+        geometry_type,
+        GeometryType::MultiSolid | GeometryType::CompositeSolid
+    )
+}
+
+/// The count arrays do not tell a Solid from a MultiSolid or CompositeSolid with a single
+/// member, and `decode` assumes the former; put the level of the only member back.
+pub(crate) fn fit_boundaries(
+    boundaries: CjBoundaries,
+    geometry_type: GeometryType,
+    solids: &[u32],
+) -> CjBoundaries {
+    if is_multi_solid(geometry_type) && solids.len() == 1 {
+        CjBoundaries::Nested(vec![boundaries])
+    } else {
+        boundaries
+    }
+}
+
+/// Gives decoded material values the nesting their geometry type asks for (one array per shell
+/// for a Solid, one more level for a MultiSolid or CompositeSolid), which the count arrays alone
+/// do not determine when there is a single member.
+pub(crate) fn fit_materials(
+    themes: HashMap<String, CjMaterialReference>,
+    geometry_type: GeometryType,
+) -> HashMap<String, CjMaterialReference> {
+    let fit = |values: CjMaterialValues| match values {
+        CjMaterialValues::Nested(mut members)
+            if geometry_type == GeometryType::Solid
+                && members.len() == 1
+                && matches!(members[0], CjMaterialValues::Nested(_)) =>
+        {
+            members.remove(0)
+        }
+        CjMaterialValues::Nested(shells)
+            if is_multi_solid(geometry_type)
+                && shells
+                    .iter()
+                    .all(|shell| matches!(shell, CjMaterialValues::Indices(_))) =>
+        {
+            CjMaterialValues::Nested(vec![CjMaterialValues::Nested(shells)])
+        }
+        values => values,
+    };
+    themes
+        .into_iter()
+        .map(|(theme, reference)| {
+            let reference = CjMaterialReference {
+                value: reference.value,
+                values: reference.values.map(fit),
+            };
+            (theme, reference)
+        })
+        .collect()
+}
+
+/// Gives decoded texture values the nesting their geometry type asks for, which the count arrays
+/// alone do not determine when there is a single member.
+pub(crate) fn fit_textures(
+    themes: HashMap<String, CjTextureReference>,
+    geometry_type: GeometryType,
+) -> HashMap<String, CjTextureReference> {
+    fn depth(values: &CjTextureValues) -> usize {
+        match values {
+            CjTextureValues::Indices(_) => 1,
+            CjTextureValues::Nested(members) => {
+                1 + members.iter().map(depth).max().unwrap_or_default()
+            }
+        }
+    }
+    let fit = |values: CjTextureValues| {
+        let levels = depth(&values);
+        match values {
+            CjTextureValues::Nested(mut members)
+                if geometry_type == GeometryType::MultiLineString
+                    && levels == 3
+                    && members.len() == 1 =>
+            {
+                members.remove(0)
+            }
+            values if is_multi_solid(geometry_type) && levels == 4 => {
+                CjTextureValues::Nested(vec![values])
+            }
+            values => values,
+        }
+    };
+    themes
+        .into_iter()
+        .map(|(theme, reference)| {
+            let reference = CjTextureReference {
+                values: fit(reference.values),
+            };
+            (theme, reference)
+        })
+        .collect()
+}
+
 #[cfg(test)]
 mod tests {
     use crate::{
-- 
2.43.0


From 8ab161de027f4b3b51f88749b14c2f4235fac14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 07/46] fix: decode every column type, and report attributes
 that cannot be decoded instead of panicking

---
 src/rust/fcb_core/src/reader/deserializer.rs | 193 +++++++------------
 1 file changed, 73 insertions(+), 120 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 202a645..30799d5 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -120,10 +120,12 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
         c.iter()
             .map(|c| {
                 let i = c.index();
-                MetaColumn {
+                Ok(MetaColumn {
                     index: i,
                     name: c.name().to_string(),
                     _type: match c.type_() {
+                        ColumnType::Byte => MetaColumnType::Byte,
+                        ColumnType::UByte => MetaColumnType::UByte,
                         ColumnType::Int => MetaColumnType::Int,
                         ColumnType::UInt => MetaColumnType::UInt,
                         ColumnType::Bool => MetaColumnType::Bool,
@@ -137,7 +139,7 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                         ColumnType::UShort => MetaColumnType::UShort,
                         ColumnType::Long => MetaColumnType::Long,
                         ColumnType::ULong => MetaColumnType::ULong,
-                        _ => unreachable!(),
+                        _ => return Err(Error::UnsupportedColumnType(c.name().to_string())),
                     },
                     title: c.title().map(|t| t.to_string()),
                     description: c.description().map(|d| d.to_string()),
@@ -153,15 +155,14 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                             .map(|attr_indices| attr_indices.iter().any(|i| i.index() == c.index()))
                             .unwrap_or(false),
                     ),
-                }
+                })
             })
-            .collect::<Vec<_>>()
+            .collect::<Result<Vec<_>, Error>>()
     });
-    if columns.is_none() {
-        return Err(Error::MissingRequiredField("columns".to_string()));
-    }
+    let columns =
+        columns.ok_or_else(|| Error::MissingRequiredField("columns".to_string()))??;
     Ok(Meta {
-        columns: columns.unwrap(),
+        columns,
         feature_count: header.features_count(),
     })
 }
@@ -249,135 +250,90 @@ pub(crate) fn to_cj_co_type(co_type: CityObjectType, extension_type: Option<&str
     }
 }
 
+/// Decodes attributes stored by the writer.
+///
+/// # Panics
+///
+/// Panics if the bytes do not hold attributes of these columns, see [`try_decode_attributes`].
 pub fn decode_attributes(
     columns: &flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>,
     attributes: flatbuffers::Vector<'_, u8>,
 ) -> serde_json::Value {
-    if attributes.is_empty() {
-        return serde_json::Value::Object(serde_json::Map::new());
+    try_decode_attributes(columns, attributes).expect("attributes of these columns")
+}
+
+/// Decodes attributes, or fails if the bytes do not hold attributes of these columns.
+pub fn try_decode_attributes(
+    columns: &flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>,
+    attributes: flatbuffers::Vector<'_, u8>,
+) -> Result<serde_json::Value, Error> {
+    fn take<'b>(bytes: &mut &'b [u8], len: usize) -> Result<&'b [u8], Error> {
+        if bytes.len() < len {
+            return Err(Error::InvalidAttributeValue {
+                msg: "attribute value is cut short".to_string(),
+            });
+        }
+        let (head, tail) = bytes.split_at(len);
+        *bytes = tail;
+        Ok(head)
+    }
+    fn take_text(bytes: &mut &[u8]) -> Result<String, Error> {
+        let len = LittleEndian::read_u32(take(bytes, size_of::<u32>())?) as usize;
+        Ok(String::from_utf8(take(bytes, len)?.to_vec()).unwrap_or_default())
     }
 
     let mut map = serde_json::Map::new();
-    let bytes = attributes.bytes();
-    let mut offset = 0;
-    while offset < bytes.len() {
-        let col_index = LittleEndian::read_u16(&bytes[offset..offset + size_of::<u16>()]) as u16;
-        offset += size_of::<u16>();
-        if col_index >= columns.len() as u16 {
-            panic!("column index out of range"); //TODO: handle this as an error
-        }
-        let column = columns.iter().find(|c| c.index() == col_index);
-        if column.is_none() {
-            panic!("column not found"); //TODO: handle this as an error
-        }
-        let column = column.unwrap();
-        match column.type_() {
-            ColumnType::Int => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i32(
-                        &bytes[offset..offset + size_of::<i32>()],
-                    ))),
-                );
-                offset += size_of::<i32>();
-            }
-            ColumnType::UInt => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u32(
-                        &bytes[offset..offset + size_of::<u32>()],
-                    ))),
-                );
-                offset += size_of::<u32>();
-            }
-            ColumnType::Bool => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Bool(bytes[offset] != 0),
-                );
-                offset += size_of::<u8>();
-            }
+    let mut bytes = attributes.bytes();
+    while !bytes.is_empty() {
+        let col_index = LittleEndian::read_u16(take(&mut bytes, size_of::<u16>())?);
+        let column = columns
+            .iter()
+            .find(|c| c.index() == col_index)
+            .ok_or_else(|| Error::InvalidAttributeValue {
+                msg: format!("no column with index {col_index}"),
+            })?;
+        let value = match column.type_() {
+            ColumnType::Byte => Some((take(&mut bytes, size_of::<i8>())?[0] as i8).into()),
+            ColumnType::UByte => Some(take(&mut bytes, size_of::<u8>())?[0].into()),
+            ColumnType::Bool => Some((take(&mut bytes, size_of::<u8>())?[0] != 0).into()),
             ColumnType::Short => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i16(
-                        &bytes[offset..offset + size_of::<i16>()],
-                    ))),
-                );
-                offset += size_of::<i16>();
+                Some(LittleEndian::read_i16(take(&mut bytes, size_of::<i16>())?).into())
             }
             ColumnType::UShort => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u16(
-                        &bytes[offset..offset + size_of::<u16>()],
-                    ))),
-                );
-                offset += size_of::<u16>();
+                Some(LittleEndian::read_u16(take(&mut bytes, size_of::<u16>())?).into())
+            }
+            ColumnType::Int => {
+                Some(LittleEndian::read_i32(take(&mut bytes, size_of::<i32>())?).into())
+            }
+            ColumnType::UInt => {
+                Some(LittleEndian::read_u32(take(&mut bytes, size_of::<u32>())?).into())
             }
             ColumnType::Long => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i64(
-                        &bytes[offset..offset + size_of::<i64>()],
-                    ))),
-                );
-                offset += size_of::<i64>();
+                Some(LittleEndian::read_i64(take(&mut bytes, size_of::<i64>())?).into())
             }
             ColumnType::ULong => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u64(
-                        &bytes[offset..offset + size_of::<u64>()],
-                    ))),
-                );
-                offset += size_of::<u64>();
+                Some(LittleEndian::read_u64(take(&mut bytes, size_of::<u64>())?).into())
             }
             ColumnType::Float => {
-                let f = LittleEndian::read_f32(&bytes[offset..offset + size_of::<f32>()]);
-                if let Some(num) = serde_json::Number::from_f64(f as f64) {
-                    map.insert(column.name().to_string(), serde_json::Value::Number(num));
-                }
-                offset += size_of::<f32>();
+                let f = LittleEndian::read_f32(take(&mut bytes, size_of::<f32>())?);
+                serde_json::Number::from_f64(f as f64).map(serde_json::Value::Number)
             }
             ColumnType::Double => {
-                let f = LittleEndian::read_f64(&bytes[offset..offset + size_of::<f64>()]);
-                if let Some(num) = serde_json::Number::from_f64(f) {
-                    map.insert(column.name().to_string(), serde_json::Value::Number(num));
-                }
-                offset += size_of::<f64>();
-            }
-            ColumnType::String => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
-                offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
-                    .unwrap_or_default();
-                map.insert(column.name().to_string(), serde_json::Value::String(s));
-                offset += len as usize;
-            }
-            ColumnType::DateTime => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
-                offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
-                    .unwrap_or_default();
-                map.insert(column.name().to_string(), serde_json::Value::String(s));
-                offset += len as usize;
+                let f = LittleEndian::read_f64(take(&mut bytes, size_of::<f64>())?);
+                serde_json::Number::from_f64(f).map(serde_json::Value::Number)
             }
-            ColumnType::Json => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
-                offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
-                    .unwrap_or_default();
-                map.insert(column.name().to_string(), serde_json::from_str(&s).unwrap());
-                offset += len as usize;
+            ColumnType::String | ColumnType::DateTime | ColumnType::Binary => {
+                Some(serde_json::Value::String(take_text(&mut bytes)?))
             }
-
-            // TODO: handle other column types
-            _ => unreachable!(),
+            ColumnType::Json => Some(serde_json::from_str(&take_text(&mut bytes)?)?),
+            _ => return Err(Error::UnsupportedColumnType(column.name().to_string())),
+        };
+        if let Some(value) = value {
+            map.insert(column.name().to_string(), value);
         }
     }
 
-    serde_json::Value::Object(map)
+    Ok(serde_json::Value::Object(map))
 }
 
 pub fn to_cj_feature(
@@ -430,12 +386,9 @@ pub fn to_cj_feature(
                     Some(all_geometries)
                 };
 
-                let attributes = if root_attr_schema.is_none() && co.columns().is_none() {
-                    None
-                } else {
-                    co.attributes().map(|a| {
-                        decode_attributes(&co.columns().unwrap_or(root_attr_schema.unwrap()), a)
-                    })
+                let attributes = match (co.columns().or(root_attr_schema), co.attributes()) {
+                    (Some(columns), Some(a)) => Some(try_decode_attributes(&columns, a)?),
+                    _ => None,
                 };
 
                 let children_roles = co
-- 
2.43.0


From ce0e0334037cf84f4525c708839c4e806e7a12a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 08/46] fix: keep the appearance of the dataset, and its
 templates when it has no metadata

---
 src/rust/fcb_core/src/reader/deserializer.rs | 182 ++++++++++---------
 src/rust/fcb_core/src/writer/serializer.rs   |   3 +
 2 files changed, 97 insertions(+), 88 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 30799d5..aae1abc 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -92,6 +92,11 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
         title: header.title().map(|t| t.to_string()),
     });
 
+    cj.appearance = header
+        .appearance()
+        .map(|appearance| to_cj_appearance(&appearance))
+        .transpose()?;
+
     // Decode Geometry Templates if present
     if let (Some(fb_templates), Some(fb_vertices)) =
         (header.templates(), header.templates_vertices())
@@ -421,105 +426,106 @@ pub fn to_cj_feature(
 
     // Decode appearance if present
     if let Some(appearance) = feature.appearance() {
-        let mut cj_appearance = CjAppearance {
-            materials: None,
-            textures: None,
-            vertices_texture: None,
-            default_theme_texture: None,
-            default_theme_material: None,
-        };
+        cj.appearance = Some(to_cj_appearance(&appearance)?);
+    }
 
-        // Decode materials
-        if let Some(materials) = appearance.materials() {
-            let cj_materials = materials
-                .iter()
-                .map(|m| {
-                    // Helper function to convert color vectors
-                    let convert_color = |color_opt: Option<flatbuffers::Vector<'_, f64>>| {
-                        color_opt.map(|c| {
-                            let color_vec: Vec<f64> = c.iter().collect();
-                            assert!(color_vec.len() == 3, "color must be a vector of 3 elements");
-                            [color_vec[0], color_vec[1], color_vec[2]]
-                        })
-                    };
-
-                    CjMaterial {
-                        name: m.name().to_string(),
-                        ambient_intensity: m.ambient_intensity(),
-                        diffuse_color: convert_color(m.diffuse_color()),
-                        emissive_color: convert_color(m.emissive_color()),
-                        specular_color: convert_color(m.specular_color()),
-                        shininess: m.shininess(),
-                        transparency: m.transparency(),
-                        is_smooth: m.is_smooth(),
-                    }
-                })
-                .collect();
+    Ok(cj) // Return Result
+}
 
-            cj_appearance.materials = Some(cj_materials);
-        }
+fn to_color<const N: usize>(color: flatbuffers::Vector<'_, f64>) -> Result<[f64; N], Error> {
+    color
+        .iter()
+        .collect::<Vec<_>>()
+        .try_into()
+        .map_err(|c: Vec<f64>| Error::InvalidAttributeValue {
+            msg: format!("color must be a vector of {N} elements, found {}", c.len()),
+        })
+}
 
-        // Decode textures
-        if let Some(textures) = appearance.textures() {
-            let cj_textures = textures
-                .iter()
-                .map(|t| {
-                    CjTexture {
-                        image: t.image().to_string(),
-                        texture_format: match t.type_() {
-                            TextureFormat::PNG => CjTextFormat::Png,
-                            TextureFormat::JPG => CjTextFormat::Jpg,
-                            _ => CjTextFormat::Png, // Default to PNG
-                        },
-                        wrap_mode: t.wrap_mode().map(|w| match w {
-                            WrapMode::None => CjWrapMode::None,
-                            WrapMode::Wrap => CjWrapMode::Wrap,
-                            WrapMode::Mirror => CjWrapMode::Mirror,
-                            WrapMode::Clamp => CjWrapMode::Clamp,
-                            WrapMode::Border => CjWrapMode::Border,
-                            _ => CjWrapMode::None, // Default to None
-                        }),
-                        texture_type: t.texture_type().map(|t| match t {
-                            TextureType::Unknown => CjTextType::Unknown,
-                            TextureType::Specific => CjTextType::Specific,
-                            TextureType::Typical => CjTextType::Typical,
-                            _ => CjTextType::Unknown, // Default to Unknown
-                        }),
-                        border_color: t.border_color().map(|c| {
-                            let color_vec: Vec<f64> = c.iter().collect();
-                            assert!(color_vec.len() == 4, "color must be a vector of 4 elements");
-                            [color_vec[0], color_vec[1], color_vec[2], color_vec[3]]
-                        }),
-                    }
+pub(crate) fn to_cj_appearance(appearance: &Appearance) -> Result<CjAppearance, Error> {
+    let mut cj_appearance = CjAppearance {
+        materials: None,
+        textures: None,
+        vertices_texture: None,
+        default_theme_texture: None,
+        default_theme_material: None,
+    };
+
+    // Decode materials
+    if let Some(materials) = appearance.materials() {
+        let cj_materials = materials
+            .iter()
+            .map(|m| {
+                Ok(CjMaterial {
+                    name: m.name().to_string(),
+                    ambient_intensity: m.ambient_intensity(),
+                    diffuse_color: m.diffuse_color().map(to_color).transpose()?,
+                    emissive_color: m.emissive_color().map(to_color).transpose()?,
+                    specular_color: m.specular_color().map(to_color).transpose()?,
+                    shininess: m.shininess(),
+                    transparency: m.transparency(),
+                    is_smooth: m.is_smooth(),
                 })
-                .collect::<Vec<_>>();
+            })
+            .collect::<Result<_, Error>>()?;
 
-            cj_appearance.textures = Some(cj_textures);
-        }
+        cj_appearance.materials = Some(cj_materials);
+    }
 
-        // Decode vertices_texture
-        if let Some(vertices_texture) = appearance.vertices_texture() {
-            cj_appearance.vertices_texture = Some(
-                vertices_texture
-                    .iter()
-                    .map(|v| [v.u(), v.v()])
-                    .collect::<Vec<_>>(),
-            );
-        }
+    // Decode textures
+    if let Some(textures) = appearance.textures() {
+        let cj_textures = textures
+            .iter()
+            .map(|t| {
+                Ok(CjTexture {
+                    image: t.image().to_string(),
+                    texture_format: match t.type_() {
+                        TextureFormat::PNG => CjTextFormat::Png,
+                        TextureFormat::JPG => CjTextFormat::Jpg,
+                        _ => CjTextFormat::Png, // Default to PNG
+                    },
+                    wrap_mode: t.wrap_mode().map(|w| match w {
+                        WrapMode::None => CjWrapMode::None,
+                        WrapMode::Wrap => CjWrapMode::Wrap,
+                        WrapMode::Mirror => CjWrapMode::Mirror,
+                        WrapMode::Clamp => CjWrapMode::Clamp,
+                        WrapMode::Border => CjWrapMode::Border,
+                        _ => CjWrapMode::None, // Default to None
+                    }),
+                    texture_type: t.texture_type().map(|t| match t {
+                        TextureType::Unknown => CjTextType::Unknown,
+                        TextureType::Specific => CjTextType::Specific,
+                        TextureType::Typical => CjTextType::Typical,
+                        _ => CjTextType::Unknown, // Default to Unknown
+                    }),
+                    border_color: t.border_color().map(to_color).transpose()?,
+                })
+            })
+            .collect::<Result<Vec<_>, Error>>()?;
 
-        // Decode default themes
-        if let Some(default_theme_texture) = appearance.default_theme_texture() {
-            cj_appearance.default_theme_texture = Some(default_theme_texture.to_string());
-        }
+        cj_appearance.textures = Some(cj_textures);
+    }
 
-        if let Some(default_theme_material) = appearance.default_theme_material() {
-            cj_appearance.default_theme_material = Some(default_theme_material.to_string());
-        }
+    // Decode vertices_texture
+    if let Some(vertices_texture) = appearance.vertices_texture() {
+        cj_appearance.vertices_texture = Some(
+            vertices_texture
+                .iter()
+                .map(|v| [v.u(), v.v()])
+                .collect::<Vec<_>>(),
+        );
+    }
 
-        cj.appearance = Some(cj_appearance);
+    // Decode default themes
+    if let Some(default_theme_texture) = appearance.default_theme_texture() {
+        cj_appearance.default_theme_texture = Some(default_theme_texture.to_string());
     }
 
-    Ok(cj) // Return Result
+    if let Some(default_theme_material) = appearance.default_theme_material() {
+        cj_appearance.default_theme_material = Some(default_theme_material.to_string());
+    }
+
+    Ok(cj_appearance)
 }
 
 pub(crate) fn decode_geometry(
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index def91db..75a6d66 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -219,6 +219,9 @@ pub(super) fn to_fcb_header<'a>(
                 geographical_extent: geographical_extent_from_options.as_ref(),
                 version,
                 attribute_index,
+                appearance,
+                templates,
+                templates_vertices,
                 extensions,
                 ..Default::default()
             },
-- 
2.43.0


From ac4148812258711c17488c5713660c18bf0fa4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 09/46] fix: refuse a header that fails verification

---
 src/rust/fcb_core/src/reader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 522fefc..06234e3 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -108,7 +108,7 @@ impl<R: Read> FcbReader<R> {
         reader.read_exact(&mut header_buf[4..])?;
 
         if verify {
-            let _header = size_prefixed_root_as_header(&header_buf);
+            let _header = size_prefixed_root_as_header(&header_buf)?;
         }
 
         Ok(FcbReader {
-- 
2.43.0


From 28756d3fbebe52ad4d01b8472b403725e904fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 10/46] fix: report read failures instead of ending or
 falsifying an iteration

---
 src/rust/fcb_core/src/reader/attr_query.rs   |   8 +-
 src/rust/fcb_core/src/reader/deserializer.rs |   3 +-
 src/rust/fcb_core/src/reader/mod.rs          | 203 +++++++++++--------
 3 files changed, 126 insertions(+), 88 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 04aa362..d8e65a6 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -404,7 +404,7 @@ impl<R: Read + Seek> FcbReader<R> {
         self.reader
             .seek(SeekFrom::Start(attr_index_start_pos + attr_index_size))?;
 
-        Ok(FeatureIter::<R, Seekable>::new(
+        FeatureIter::<R, Seekable>::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -412,7 +412,7 @@ impl<R: Read + Seek> FcbReader<R> {
             Some(result_vec),
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -482,7 +482,7 @@ impl<R: Read> FcbReader<R> {
         let total_feat_count = result.len() as u64;
 
         // Create and return the FeatureIter
-        Ok(FeatureIter::<R, NotSeekable>::new(
+        FeatureIter::<R, NotSeekable>::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -490,6 +490,6 @@ impl<R: Read> FcbReader<R> {
             Some(result),
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index aae1abc..79e79fb 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -164,8 +164,7 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
             })
             .collect::<Result<Vec<_>, Error>>()
     });
-    let columns =
-        columns.ok_or_else(|| Error::MissingRequiredField("columns".to_string()))??;
+    let columns = columns.ok_or_else(|| Error::MissingRequiredField("columns".to_string()))??;
     Ok(Meta {
         columns,
         feature_count: header.features_count(),
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 06234e3..d55740e 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -73,6 +73,14 @@ pub mod reader_trait {
 }
 use reader_trait::*;
 
+/// Discards bytes from a reader, failing if it ends before that many could be read.
+fn skip(reader: &mut impl Read, len: u64) -> Result<(), Error> {
+    if io::copy(&mut reader.take(len), &mut io::sink())? < len {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(())
+}
+
 impl<R: Read> FcbReader<R> {
     pub fn open(reader: R) -> Result<FcbReader<R>, Error> {
         let reader = Self::read_header(reader, true)?;
@@ -124,7 +132,7 @@ impl<R: Read> FcbReader<R> {
     pub fn select_all_seq(mut self) -> Result<FeatureIter<R, NotSeekable>, Error> {
         let index_size = self.attr_index_size() + self.rtree_index_size();
         // discard bufer of index
-        io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?;
+        skip(&mut self.reader, index_size)?;
         let feature_offset = FeatureOffset {
             magic_bytes: 8,
             header: 4 + self.buffer.header_buf.len() as u64,
@@ -132,7 +140,7 @@ impl<R: Read> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -140,7 +148,7 @@ impl<R: Read> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query_seq(mut self, query: Query) -> Result<FeatureIter<R, NotSeekable>, Error> {
@@ -152,7 +160,7 @@ impl<R: Read> FcbReader<R> {
         let index = PackedRTree::from_buf(
             &mut self.reader,
             header.features_count() as usize,
-            header.index_node_size(),
+            PackedRTree::DEFAULT_NODE_SIZE,
         )?;
         let list = index.search(query)?;
         debug_assert!(
@@ -161,7 +169,7 @@ impl<R: Read> FcbReader<R> {
         );
         // skip attribute index
         let index_size = self.attr_index_size();
-        io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?;
+        skip(&mut self.reader, index_size)?;
         let feature_offset = FeatureOffset {
             magic_bytes: 8,
             header: 4 + self.buffer.header_buf.len() as u64,
@@ -169,7 +177,7 @@ impl<R: Read> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -177,7 +185,7 @@ impl<R: Read> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -193,7 +201,7 @@ impl<R: Read + Seek> FcbReader<R> {
         let index_size = self.attr_index_size() + self.rtree_index_size();
         self.reader.seek(SeekFrom::Current(index_size as i64))?;
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -201,7 +209,7 @@ impl<R: Read + Seek> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query(mut self, query: Query) -> Result<FeatureIter<R, Seekable>, Error> {
@@ -230,7 +238,7 @@ impl<R: Read + Seek> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -238,7 +246,7 @@ impl<R: Read + Seek> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -298,33 +306,12 @@ impl<R: Read> FallibleStreamingIterator for FeatureIter<R, NotSeekable> {
         if self.advance_finished() {
             return Ok(());
         }
-        if let Some(filter) = &self.item_filter {
-            let item = &filter[self.feat_no];
-            if item.offset as u64 > self.cur_pos {
-                if self.state == State::ReadFirstFeatureSize {
-                    self.state = State::Reading;
-                }
-                // skip features
-                let seek_bytes = item.offset as u64 - self.cur_pos;
-                io::copy(&mut (&mut self.reader).take(seek_bytes), &mut io::sink())?;
-                self.cur_pos += seek_bytes;
-            }
+        let result = self.skip_to_selected().and_then(|_| self.read_feature());
+        if result.is_err() {
+            // the position in the source is unknown from here on
+            self.state = State::Finished;
         }
-
-        if let Some(attr_filter) = &self.item_attr_filter {
-            let item_offset = attr_filter[self.feat_no];
-            // only skip if we haven't reached the attribute offset yet
-            if item_offset > self.cur_pos {
-                if self.state == State::ReadFirstFeatureSize {
-                    self.state = State::Reading;
-                }
-                let seek_bytes = item_offset - self.cur_pos;
-                io::copy(&mut (&mut self.reader).take(seek_bytes), &mut io::sink())?;
-                self.cur_pos += seek_bytes;
-            }
-        }
-
-        self.read_feature()
+        result
     }
 
     fn get(&self) -> Option<&FcbBuffer> {
@@ -344,6 +331,26 @@ impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable> {
         if self.advance_finished() {
             return Ok(());
         }
+        let result = self.skip_to_selected().and_then(|_| self.read_feature());
+        if result.is_err() {
+            // the position in the source is unknown from here on
+            self.state = State::Finished;
+        }
+        result
+    }
+
+    fn get(&self) -> Option<&FcbBuffer> {
+        self.iter_get()
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter_size_hint()
+    }
+}
+
+impl<R: Read> FeatureIter<R, NotSeekable> {
+    /// Moves the source to the next selected feature
+    fn skip_to_selected(&mut self) -> Result<(), Error> {
         if let Some(filter) = &self.item_filter {
             let item = &filter[self.feat_no];
             if item.offset as u64 > self.cur_pos {
@@ -352,35 +359,27 @@ impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable> {
                 }
                 // skip features
                 let seek_bytes = item.offset as u64 - self.cur_pos;
-                self.reader.seek(SeekFrom::Current(seek_bytes as i64))?;
+                skip(&mut self.reader, seek_bytes)?;
                 self.cur_pos += seek_bytes;
             }
         }
 
         if let Some(attr_filter) = &self.item_attr_filter {
-            if self.state == State::ReadFirstFeatureSize {
-                self.state = State::Reading;
-            }
             let item_offset = attr_filter[self.feat_no];
-            self.reader.seek(SeekFrom::Start(
-                self.feature_offset.total_size() + item_offset,
-            ))?;
-            self.cur_pos = item_offset;
+            // only skip if we haven't reached the attribute offset yet
+            if item_offset > self.cur_pos {
+                if self.state == State::ReadFirstFeatureSize {
+                    self.state = State::Reading;
+                }
+                let seek_bytes = item_offset - self.cur_pos;
+                skip(&mut self.reader, seek_bytes)?;
+                self.cur_pos += seek_bytes;
+            }
         }
 
-        self.read_feature()
-    }
-
-    fn get(&self) -> Option<&FcbBuffer> {
-        self.iter_get()
-    }
-
-    fn size_hint(&self) -> (usize, Option<usize>) {
-        self.iter_size_hint()
+        Ok(())
     }
-}
 
-impl<R: Read> FeatureIter<R, NotSeekable> {
     pub fn cur_feature(&self) -> CityFeature {
         self.buffer.feature()
     }
@@ -410,6 +409,35 @@ impl<R: Read> FeatureIter<R, NotSeekable> {
 }
 
 impl<R: Read + Seek> FeatureIter<R, Seekable> {
+    /// Moves the source to the next selected feature
+    fn skip_to_selected(&mut self) -> Result<(), Error> {
+        if let Some(filter) = &self.item_filter {
+            let item = &filter[self.feat_no];
+            if item.offset as u64 > self.cur_pos {
+                if self.state == State::ReadFirstFeatureSize {
+                    self.state = State::Reading;
+                }
+                // skip features
+                let seek_bytes = item.offset as u64 - self.cur_pos;
+                self.reader.seek(SeekFrom::Current(seek_bytes as i64))?;
+                self.cur_pos += seek_bytes;
+            }
+        }
+
+        if let Some(attr_filter) = &self.item_attr_filter {
+            if self.state == State::ReadFirstFeatureSize {
+                self.state = State::Reading;
+            }
+            let item_offset = attr_filter[self.feat_no];
+            self.reader.seek(SeekFrom::Start(
+                self.feature_offset.total_size() + item_offset,
+            ))?;
+            self.cur_pos = item_offset;
+        }
+
+        Ok(())
+    }
+
     pub fn cur_feature(&self) -> CityFeature {
         self.buffer.feature()
     }
@@ -452,7 +480,7 @@ impl<R: Read, S> FeatureIter<R, S> {
         item_attr_filter: Option<Vec<Offset>>,
         feature_offset: FeatureOffset,
         total_feat_count: u64,
-    ) -> FeatureIter<R, S> {
+    ) -> Result<FeatureIter<R, S>, Error> {
         let mut iter = FeatureIter {
             reader,
             verify,
@@ -468,27 +496,25 @@ impl<R: Read, S> FeatureIter<R, S> {
             total_feat_count,
         };
 
-        if iter.read_feature_size() {
+        iter.count = match (&iter.item_filter, &iter.item_attr_filter) {
+            (Some(list), _) => Some(list.len()),
+            (None, Some(list)) => Some(list.len()),
+            (None, None) => {
+                let feat_count = iter.buffer.header().features_count() as usize;
+                (feat_count > 0).then_some(feat_count)
+            }
+        };
+
+        if iter.count == Some(0) {
+            iter.state = State::Finished;
+        } else if iter.read_feature_size()? {
             iter.state = State::Finished;
+            iter.count = Some(0);
         } else {
             iter.state = State::ReadFirstFeatureSize
         }
 
-        iter.count = match &iter.item_filter {
-            Some(list) => Some(list.len()),
-            None => {
-                let feat_count = iter.buffer.header().features_count() as usize;
-                if feat_count > 0 {
-                    Some(feat_count)
-                } else if iter.state == State::Finished {
-                    Some(0)
-                } else {
-                    None
-                }
-            }
-        };
-
-        iter
+        Ok(iter)
     }
 
     pub fn header(&self) -> Header {
@@ -525,12 +551,20 @@ impl<R: Read, S> FeatureIter<R, S> {
     }
 
     /// Read feature size and return true if end of dataset reached
-    fn read_feature_size(&mut self) -> bool {
-        self.buffer.features_buf.resize(4, 0);
-        self.cur_pos += 4;
-        self.reader
-            .read_exact(&mut self.buffer.features_buf)
-            .is_err()
+    fn read_feature_size(&mut self) -> Result<bool, Error> {
+        self.buffer.features_buf.clear();
+        (&mut self.reader)
+            .take(4)
+            .read_to_end(&mut self.buffer.features_buf)?;
+        match self.buffer.features_buf.len() {
+            4 => {
+                self.cur_pos += 4;
+                Ok(false)
+            }
+            // without a known number of features, they end with the source
+            0 if self.count.is_none() => Ok(true),
+            _ => Err(io::Error::from(io::ErrorKind::UnexpectedEof).into()),
+        }
     }
 
     fn read_feature(&mut self) -> Result<(), Error> {
@@ -539,7 +573,7 @@ impl<R: Read, S> FeatureIter<R, S> {
                 self.state = State::Reading;
             }
             State::Reading => {
-                if self.read_feature_size() {
+                if self.read_feature_size()? {
                     self.state = State::Finished;
                     return Ok(());
                 }
@@ -557,8 +591,13 @@ impl<R: Read, S> FeatureIter<R, S> {
         }
         let sbuf = &self.buffer.features_buf;
         let feature_size = u32::from_le_bytes([sbuf[0], sbuf[1], sbuf[2], sbuf[3]]) as usize;
-        self.buffer.features_buf.resize(feature_size + 4, 0);
-        self.reader.read_exact(&mut self.buffer.features_buf[4..])?;
+        // the size is not to be trusted before that many bytes have arrived
+        (&mut self.reader)
+            .take(feature_size as u64)
+            .read_to_end(&mut self.buffer.features_buf)?;
+        if self.buffer.features_buf.len() != feature_size + 4 {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         if self.verify {
             let _feature = size_prefixed_root_as_city_feature(&self.buffer.features_buf)?;
         }
-- 
2.43.0


From 943c645c260a10f77f17bc6d73920bda74706bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 11/46] fix: search the spatial index with the node size the
 file was written with

---
 src/rust/fcb_core/src/http_reader/mod.rs | 2 +-
 src/rust/fcb_core/src/reader/mod.rs      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 8dc37e2..60c5ed6 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -209,7 +209,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             header_len,
             attr_index_size,
             count,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
             query,
             combine_request_threshold,
         )
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index d55740e..d44e17c 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -160,7 +160,7 @@ impl<R: Read> FcbReader<R> {
         let index = PackedRTree::from_buf(
             &mut self.reader,
             header.features_count() as usize,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
         )?;
         let list = index.search(query)?;
         debug_assert!(
@@ -221,7 +221,7 @@ impl<R: Read + Seek> FcbReader<R> {
         let list = PackedRTree::stream_search(
             &mut self.reader,
             header.features_count() as usize,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
             query,
         )?;
         debug_assert!(
-- 
2.43.0


From 7fff6286fddd83e288c5edd8406eb3fd5eaa56d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 12/46] fix: query indices on long, json and binary columns

---
 src/rust/fcb_core/src/http_reader/mod.rs   | 21 +++++++++-
 src/rust/fcb_core/src/reader/attr_query.rs | 46 ++++++++++++++++++++--
 2 files changed, 63 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 60c5ed6..866baa4 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -410,6 +410,16 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                     );
                     multi_index.add_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = HttpIndex::<i64>::new(
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                        index_begin,
+                        feature_begin,
+                        1024 * 1024, // combine_request_threshold
+                    );
+                    multi_index.add_index(col.name().to_string(), index);
+                }
                 ColumnType::ULong => {
                     let index = HttpIndex::<u64>::new(
                         attr_info.num_unique_items() as usize,
@@ -440,7 +450,16 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                     );
                     multi_index.add_index(col.name().to_string(), index);
                 }
-
+                ColumnType::Json | ColumnType::Binary => {
+                    let index = HttpIndex::<FixedStringKey<100>>::new(
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                        index_begin,
+                        feature_begin,
+                        1024 * 1024, // combine_request_threshold
+                    );
+                    multi_index.add_index(col.name().to_string(), index);
+                }
                 _ => {
                     log::debug!("Unsupported column type: {:?}", col.type_());
                     return Err(Error::UnsupportedColumnType(col.name().to_string()));
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index d8e65a6..9580e3e 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -27,9 +27,11 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
     query: &AttrQuery,
     attr_info: &AttributeIndex,
 ) -> Result<()> {
-    let length = attr_info.length();
-    let mut buf = vec![0; length as usize];
-    data.read_exact(&mut buf)?;
+    let length = attr_info.length() as u64;
+    let mut buf = Vec::new();
+    if data.by_ref().take(length).read_to_end(&mut buf)? as u64 != length {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
     let mut buf = Cursor::new(buf);
     if let Some(col) = columns.iter().find(|col| col.index() == attr_info.index()) {
         if query.iter().any(|(name, _, _)| col.name() == name) {
@@ -106,6 +108,14 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                     )?;
                     multi_index.add_u32_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = MemoryIndex::<i64>::from_buf(
+                        &mut buf,
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                    )?;
+                    multi_index.add_i64_index(col.name().to_string(), index);
+                }
                 ColumnType::ULong => {
                     let index = MemoryIndex::<u64>::from_buf(
                         &mut buf,
@@ -130,6 +140,14 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                     )?;
                     multi_index.add_u8_index(col.name().to_string(), index);
                 }
+                ColumnType::Json | ColumnType::Binary => {
+                    let index = MemoryIndex::<FixedStringKey<100>>::from_buf(
+                        &mut buf,
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                    )?;
+                    multi_index.add_string_index100(col.name().to_string(), index);
+                }
                 _ => return Err(Error::UnsupportedColumnType(col.name().to_string())),
             }
         } else {
@@ -243,6 +261,15 @@ pub fn add_indices_to_multi_stream_index<R: Read + Seek>(
                 );
                 multi_index.add_u32_index(col.name().to_string(), index, attr_info.length() as u64);
             }
+            ColumnType::Long => {
+                let index = StreamIndex::<i64>::new(
+                    attr_info.num_unique_items() as usize,
+                    attr_info.branching_factor(),
+                    index_begin,
+                    attr_info.length() as u64,
+                );
+                multi_index.add_i64_index(col.name().to_string(), index, attr_info.length() as u64);
+            }
             ColumnType::ULong => {
                 let index = StreamIndex::<u64>::new(
                     attr_info.num_unique_items() as usize,
@@ -270,6 +297,19 @@ pub fn add_indices_to_multi_stream_index<R: Read + Seek>(
                 );
                 multi_index.add_u8_index(col.name().to_string(), index, attr_info.length() as u64);
             }
+            ColumnType::Json | ColumnType::Binary => {
+                let index = StreamIndex::<FixedStringKey<100>>::new(
+                    attr_info.num_unique_items() as usize,
+                    attr_info.branching_factor(),
+                    index_begin,
+                    attr_info.length() as u64,
+                );
+                multi_index.add_string_index100(
+                    col.name().to_string(),
+                    index,
+                    attr_info.length() as u64,
+                );
+            }
             _ => return Err(Error::UnsupportedColumnType(col.name().to_string())),
         }
         // }
-- 
2.43.0


From 9657460719ea7346e0dc7642d4a85c0bf8a0ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 13/46] fix: deliver a feature once and find its column by
 index in attribute queries

---
 src/rust/fcb_core/src/reader/attr_query.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 9580e3e..8f25b87 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -15,7 +15,7 @@ use crate::{AttributeIndex, Column, FeatureOffset};
 
 use super::{
     reader_trait::{NotSeekable, Seekable},
-    FcbReader, FeatureIter,
+    skip, FcbReader, FeatureIter,
 };
 
 pub type AttrQuery = Vec<(String, Operator, KeyType)>;
@@ -429,6 +429,8 @@ impl<R: Read + Seek> FcbReader<R> {
         // Sort the results
         let mut result_vec: Vec<u64> = result.into_iter().collect();
         result_vec.sort();
+        // several objects of one feature can match
+        result_vec.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
@@ -466,6 +468,8 @@ impl<R: Read> FcbReader<R> {
         let attr_index_entries = header
             .attribute_index()
             .ok_or(Error::AttributeIndexNotFound)?;
+        let mut attr_index_entries: Vec<&AttributeIndex> = attr_index_entries.iter().collect();
+        attr_index_entries.sort_by_key(|attr| attr.index());
         let columns: Vec<Column> = header
             .columns()
             .ok_or(Error::NoColumnsInHeader)?
@@ -474,7 +478,7 @@ impl<R: Read> FcbReader<R> {
 
         // Instead of seeking, read and discard the rtree index bytes; we know the correct offset for that.
         let rtree_offset = self.rtree_index_size();
-        io::copy(&mut (&mut self.reader).take(rtree_offset), &mut io::sink())?;
+        skip(&mut self.reader, rtree_offset)?;
 
         // Since we can't use StreamableMultiIndex with a non-seekable reader,
         // we'll still use MultiIndex but optimize the process to minimize memory usage
@@ -485,7 +489,12 @@ impl<R: Read> FcbReader<R> {
 
         for attr_info in attr_index_entries.iter() {
             let column_idx = attr_info.index();
-            let field_name = columns[column_idx as usize].name().to_string();
+            let field_name = columns
+                .iter()
+                .find(|c| c.index() == column_idx)
+                .ok_or(Error::AttributeIndexNotFound)?
+                .name()
+                .to_string();
 
             // Only process this attribute if it's used in the query
             if query_fields.contains(&field_name) {
@@ -499,10 +508,7 @@ impl<R: Read> FcbReader<R> {
             } else {
                 // Skip this attribute index if not needed
                 let index_size = attr_info.length();
-                io::copy(
-                    &mut (&mut self.reader).take(index_size as u64),
-                    &mut io::sink(),
-                )?;
+                skip(&mut self.reader, index_size as u64)?;
             }
         }
 
@@ -510,6 +516,8 @@ impl<R: Read> FcbReader<R> {
         let query_obj = build_query(&query);
         let mut result = multi_index.query(&query_obj.conditions)?;
         result.sort();
+        // several objects of one feature can match
+        result.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
-- 
2.43.0


From d38dbf13cabe6bd2dee83ad63409afab111ded2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 14/46] fix: answer attribute queries whose bound is a
 separator or the largest key of the index

and keep a feature that matches through another of its objects
---
 .../fcb_core/src/static_btree/query/http.rs   | 100 +++++++---
 .../fcb_core/src/static_btree/query/memory.rs |  39 ++--
 .../fcb_core/src/static_btree/query/stream.rs |  68 ++++---
 .../fcb_core/src/static_btree/query/types.rs  |  22 +++
 src/rust/fcb_core/src/static_btree/stree.rs   | 178 ++++++++++++++++--
 5 files changed, 317 insertions(+), 90 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index 83fcb2f..adafaa7 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{subtract, Operator, QueryCondition};
 use crate::static_btree::stree::http::HttpSearchResultItem;
 use crate::static_btree::stree::Stree;
 use async_trait::async_trait;
@@ -98,6 +98,28 @@ impl<K: Key> HttpIndex<K> {
     }
 }
 
+impl<K: Key> HttpIndex<K> {
+    /// Find all items in [start..end] via HTTP, the items of both bounds included
+    async fn find_closed_range<T: AsyncHttpRangeClient>(
+        &self,
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        start: K,
+        end: K,
+    ) -> Result<Vec<HttpSearchResultItem>> {
+        Stree::http_stream_find_closed_range(
+            client,
+            self.index_begin,
+            self.feature_begin,
+            self.num_items,
+            self.branching_factor,
+            start,
+            end,
+            self.combine_request_threshold,
+        )
+        .await
+    }
+}
+
 /// Trait for HTTP indices with heterogeneous key support
 #[cfg(not(target_arch = "wasm32"))]
 #[async_trait]
@@ -154,29 +176,37 @@ macro_rules! impl_typed_http_search_index {
                     Operator::Eq => self.find_exact(client, key.clone()).await?,
                     Operator::Ne => {
                         let all = self
-                            .find_range(
+                            .find_closed_range(
                                 client,
-                                Some(<$key_type>::min_value()),
-                                Some(<$key_type>::max_value()),
+                                <$key_type>::min_value(),
+                                <$key_type>::max_value(),
                             )
                             .await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        let equal = self.find_exact(client, key).await?;
+                        subtract(all, &equal, |item| item.range.start())
                     }
                     Operator::Gt => {
-                        let mut v = self.find_range(client, Some(key.clone()), None).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        let results = self
+                            .find_closed_range(client, key.clone(), <$key_type>::max_value())
+                            .await?;
+                        let equal = self.find_exact(client, key).await?;
+                        subtract(results, &equal, |item| item.range.start())
                     }
                     Operator::Lt => {
-                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        let results = self
+                            .find_closed_range(client, <$key_type>::min_value(), key.clone())
+                            .await?;
+                        let equal = self.find_exact(client, key).await?;
+                        subtract(results, &equal, |item| item.range.start())
+                    }
+                    Operator::Ge => {
+                        self.find_closed_range(client, key, <$key_type>::max_value())
+                            .await?
+                    }
+                    Operator::Le => {
+                        self.find_closed_range(client, <$key_type>::min_value(), key)
+                            .await?
                     }
-                    Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
-                    Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
                 };
                 Ok(results)
             }
@@ -207,29 +237,37 @@ macro_rules! impl_typed_http_search_index {
                     Operator::Eq => self.find_exact(client, key.clone()).await?,
                     Operator::Ne => {
                         let all = self
-                            .find_range(
+                            .find_closed_range(
                                 client,
-                                Some(<$key_type>::min_value()),
-                                Some(<$key_type>::max_value()),
+                                <$key_type>::min_value(),
+                                <$key_type>::max_value(),
                             )
                             .await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        let equal = self.find_exact(client, key).await?;
+                        subtract(all, &equal, |item| item.range.start())
                     }
                     Operator::Gt => {
-                        let mut v = self.find_range(client, Some(key.clone()), None).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        let results = self
+                            .find_closed_range(client, key.clone(), <$key_type>::max_value())
+                            .await?;
+                        let equal = self.find_exact(client, key).await?;
+                        subtract(results, &equal, |item| item.range.start())
                     }
                     Operator::Lt => {
-                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        let results = self
+                            .find_closed_range(client, <$key_type>::min_value(), key.clone())
+                            .await?;
+                        let equal = self.find_exact(client, key).await?;
+                        subtract(results, &equal, |item| item.range.start())
+                    }
+                    Operator::Ge => {
+                        self.find_closed_range(client, key, <$key_type>::max_value())
+                            .await?
+                    }
+                    Operator::Le => {
+                        self.find_closed_range(client, <$key_type>::min_value(), key)
+                            .await?
                     }
-                    Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
-                    Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
                 };
                 Ok(results)
             }
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 0f6759d..74f1f4e 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -6,7 +6,7 @@ use std::io::{Read, Write};
 use crate::static_btree::entry::Entry;
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, SearchIndex};
+use crate::static_btree::query::types::{subtract, Operator, SearchIndex};
 use crate::static_btree::stree::Stree;
 
 use super::types::QueryCondition;
@@ -60,6 +60,12 @@ impl<K: Key> MemoryIndex<K> {
     pub fn payload_size(&self) -> usize {
         self.stree.payload_size()
     }
+
+    /// Find matches within a range, the items of both bounds included
+    fn find_closed_range(&self, start: K, end: K) -> Result<Vec<u64>> {
+        let results = self.stree.find_closed_range(start, end)?;
+        Ok(results.into_iter().map(|item| item.offset as u64).collect())
+    }
 }
 
 impl<K: Key> SearchIndex<K> for MemoryIndex<K> {
@@ -118,29 +124,24 @@ macro_rules! impl_typed_search_index {
                 match condition.operator {
                     Operator::Eq => self.find_exact(key),
                     Operator::Ne => {
-                        let min = <$key_type>::min_value();
-                        let max = <$key_type>::max_value();
-                        let all_items = self.find_range(Some(min), Some(max))?;
-                        let matching_items = self.find_exact(key)?;
-                        Ok(all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect())
+                        let all = self.find_closed_range(
+                            <$key_type>::min_value(),
+                            <$key_type>::max_value(),
+                        )?;
+                        Ok(subtract(all, &self.find_exact(key)?, |offset| *offset))
                     }
                     Operator::Gt => {
-                        let mut results = self.find_range(Some(key.clone()), None)?;
-                        let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        Ok(results)
+                        let results =
+                            self.find_closed_range(key.clone(), <$key_type>::max_value())?;
+                        Ok(subtract(results, &self.find_exact(key)?, |offset| *offset))
                     }
                     Operator::Lt => {
-                        let mut results = self.find_range(None, Some(key.clone()))?;
-                        let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        Ok(results)
+                        let results =
+                            self.find_closed_range(<$key_type>::min_value(), key.clone())?;
+                        Ok(subtract(results, &self.find_exact(key)?, |offset| *offset))
                     }
-                    Operator::Ge => self.find_range(Some(key), None),
-                    Operator::Le => self.find_range(None, Some(key)),
+                    Operator::Ge => self.find_closed_range(key, <$key_type>::max_value()),
+                    Operator::Le => self.find_closed_range(<$key_type>::min_value(), key),
                 }
             }
         }
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index edb0c86..f24af86 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -9,7 +9,7 @@ use ordered_float::OrderedFloat;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{subtract, Operator, QueryCondition};
 use crate::static_btree::stree::Stree;
 
 /// Stream-based index for file access
@@ -122,6 +122,27 @@ impl<K: Key> StreamIndex<K> {
     }
 }
 
+impl<K: Key> StreamIndex<K> {
+    /// Find matches within a range using a reader, the items of both bounds included
+    fn find_closed_range_with_reader<R: Read + Seek + ?Sized>(
+        &self,
+        reader: &mut R,
+        start: K,
+        end: K,
+    ) -> Result<Vec<u64>> {
+        let start_position = reader.stream_position()?;
+        let results = Stree::stream_find_closed_range(
+            reader,
+            self.num_items,
+            self.branching_factor,
+            start,
+            end,
+        )?;
+        reader.seek(SeekFrom::Start(start_position))?;
+        Ok(results.into_iter().map(|item| item.offset as u64).collect())
+    }
+}
+
 /// Trait alias for objects that implement Read and Seek, to allow trait objects
 pub trait ReadSeek: Read + Seek {}
 impl<T: Read + Seek> ReadSeek for T {}
@@ -161,33 +182,38 @@ macro_rules! impl_typed_stream_search_index {
                 let items = match condition.operator {
                     Operator::Eq => self.find_exact_with_reader(reader, key)?,
                     Operator::Ne => {
-                        let all_items = self.find_range_with_reader(
+                        let all = self.find_closed_range_with_reader(
                             reader,
-                            Some(<$key_type>::min_value()),
-                            Some(<$key_type>::max_value()),
+                            <$key_type>::min_value(),
+                            <$key_type>::max_value(),
                         )?;
-                        let matching_items = self.find_exact_with_reader(reader, key.clone())?;
-                        all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect()
+                        let equal = self.find_exact_with_reader(reader, key)?;
+                        subtract(all, &equal, |offset| *offset)
                     }
                     Operator::Gt => {
-                        let mut results =
-                            self.find_range_with_reader(reader, Some(key.clone()), None)?;
-                        let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        results
+                        let results = self.find_closed_range_with_reader(
+                            reader,
+                            key.clone(),
+                            <$key_type>::max_value(),
+                        )?;
+                        let equal = self.find_exact_with_reader(reader, key)?;
+                        subtract(results, &equal, |offset| *offset)
                     }
                     Operator::Lt => {
-                        let mut results =
-                            self.find_range_with_reader(reader, None, Some(key.clone()))?;
-                        let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        results
+                        let results = self.find_closed_range_with_reader(
+                            reader,
+                            <$key_type>::min_value(),
+                            key.clone(),
+                        )?;
+                        let equal = self.find_exact_with_reader(reader, key)?;
+                        subtract(results, &equal, |offset| *offset)
+                    }
+                    Operator::Ge => {
+                        self.find_closed_range_with_reader(reader, key, <$key_type>::max_value())?
+                    }
+                    Operator::Le => {
+                        self.find_closed_range_with_reader(reader, <$key_type>::min_value(), key)?
                     }
-                    Operator::Ge => self.find_range_with_reader(reader, Some(key), None)?,
-                    Operator::Le => self.find_range_with_reader(reader, None, Some(key))?,
                 };
                 reader.seek(SeekFrom::Start(start_position))?;
                 Ok(items)
diff --git a/src/rust/fcb_core/src/static_btree/query/types.rs b/src/rust/fcb_core/src/static_btree/query/types.rs
index 51921c1..130c217 100644
--- a/src/rust/fcb_core/src/static_btree/query/types.rs
+++ b/src/rust/fcb_core/src/static_btree/query/types.rs
@@ -1,6 +1,7 @@
 use crate::static_btree::error::Result;
 use crate::static_btree::key::Key;
 use crate::static_btree::key::KeyType;
+use std::collections::BTreeMap;
 
 /// Comparison operators for queries
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -65,6 +66,27 @@ impl Default for Query {
     }
 }
 
+/// Removes one of `items` for each of the `excluded` ones. An item stays when it is there for
+/// more keys than the excluded one.
+pub(crate) fn subtract<T, Id: Ord>(
+    mut items: Vec<T>,
+    excluded: &[T],
+    id: impl Fn(&T) -> Id,
+) -> Vec<T> {
+    let mut left = BTreeMap::<Id, usize>::new();
+    for item in excluded {
+        *left.entry(id(item)).or_default() += 1;
+    }
+    items.retain(|item| match left.get_mut(&id(item)) {
+        Some(count) if *count > 0 => {
+            *count -= 1;
+            false
+        }
+        _ => true,
+    });
+    items
+}
+
 /// Core trait for index searching capabilities
 pub trait SearchIndex<K: Key> {
     /// Find exact matches for a key
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 9942b13..6c6588a 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -380,6 +380,18 @@ pub struct SearchResultItem {
     pub index: usize,
 }
 
+/// The node to the right of a separator, holding the keys from the separator on.
+/// The last separator of a level can be a sentinel, which has no right child: the
+/// node to its left then holds the largest keys.
+fn right_child(left_child: usize, node_size: usize, children_level: &Range<usize>) -> usize {
+    let right_child = left_child + node_size;
+    if right_child < children_level.end {
+        right_child
+    } else {
+        left_child
+    }
+}
+
 /// S-Tree
 #[derive(Debug, Clone)]
 pub struct Stree<K: Key> {
@@ -763,16 +775,23 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        let child = right_child(
+                            node_items[index].offset as usize,
+                            node_size,
+                            &self.level_bounds[level - 1],
+                        );
+                        queue.push_back((child, level - 1));
                     }
                     Err(index) => {
                         if index == 0 {
                             queue.push_back((node_items[0].offset as usize, level - 1));
                         } else if index == node_items.len() {
-                            queue.push_back((
-                                node_items[node_items.len() - 1].offset as usize + node_size,
-                                level - 1,
-                            ));
+                            let child = right_child(
+                                node_items[node_items.len() - 1].offset as usize,
+                                node_size,
+                                &self.level_bounds[level - 1],
+                            );
+                            queue.push_back((child, level - 1));
                         } else {
                             queue.push_back((node_items[index].offset as usize, level - 1));
                         }
@@ -860,16 +879,23 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        let child = right_child(
+                            node_items[index].offset as usize,
+                            node_size,
+                            &level_bounds[level - 1],
+                        );
+                        queue.push_back((child, level - 1));
                     }
                     Err(index) => {
                         if index == 0 {
                             queue.push_back((node_items[0].offset as usize, level - 1));
                         } else if index == node_items.len() {
-                            queue.push_back((
-                                node_items[node_items.len() - 1].offset as usize + node_size,
-                                level - 1,
-                            ));
+                            let child = right_child(
+                                node_items[node_items.len() - 1].offset as usize,
+                                node_size,
+                                &level_bounds[level - 1],
+                            );
+                            queue.push_back((child, level - 1));
                         } else {
                             queue.push_back((node_items[index].offset as usize, level - 1));
                         }
@@ -918,7 +944,25 @@ impl<K: Key> Stree<K> {
     /// Special cases:
     /// - If lower > upper, returns an empty result (invalid range)
     /// - If lower == upper, delegates to find_exact for consistent behavior
+    /// An upper bound that is the first key of a leaf node is not part of the result, see
+    /// [`Stree::find_closed_range`].
     pub fn find_range(&self, lower: K, upper: K) -> Result<Vec<SearchResultItem>> {
+        self.find_range_up_to(lower, upper, 1)
+    }
+
+    /// Finds all items with keys in the specified range [lower, upper], both bounds included
+    pub fn find_closed_range(&self, lower: K, upper: K) -> Result<Vec<SearchResultItem>> {
+        self.find_range_up_to(lower, upper, 2)
+    }
+
+    /// Searches up to `last_nodes` leaf nodes from the partition point of the upper bound.
+    /// An upper bound that is a separator is the first key of the second one.
+    fn find_range_up_to(
+        &self,
+        lower: K,
+        upper: K,
+        last_nodes: usize,
+    ) -> Result<Vec<SearchResultItem>> {
         let leaf_nodes_offset = self
             .level_bounds
             .first()
@@ -949,7 +993,7 @@ impl<K: Key> Stree<K> {
 
         // Calculate the actual range within the leaf level
         let start_idx = max(lower_idx, leaf_start);
-        let end_idx = min(upper_idx + node_size, leaf_end);
+        let end_idx = min(upper_idx + last_nodes * node_size, leaf_end);
 
         // Process all leaf nodes from lower to upper bound
         let mut current_idx = start_idx;
@@ -993,6 +1037,28 @@ impl<K: Key> Stree<K> {
         branching_factor: u16,
         lower: K,
         upper: K,
+    ) -> Result<Vec<SearchResultItem>> {
+        Self::stream_find_range_up_to(data, num_items, branching_factor, lower, upper, 1)
+    }
+
+    /// See [`Stree::find_closed_range`]
+    pub fn stream_find_closed_range<R: Read + Seek + ?Sized>(
+        data: &mut R,
+        num_items: usize,
+        branching_factor: u16,
+        lower: K,
+        upper: K,
+    ) -> Result<Vec<SearchResultItem>> {
+        Self::stream_find_range_up_to(data, num_items, branching_factor, lower, upper, 2)
+    }
+
+    fn stream_find_range_up_to<R: Read + Seek + ?Sized>(
+        data: &mut R,
+        num_items: usize,
+        branching_factor: u16,
+        lower: K,
+        upper: K,
+        last_nodes: usize,
     ) -> Result<Vec<SearchResultItem>> {
         let node_size = branching_factor as usize - 1;
         let level_bounds = Stree::<K>::generate_level_bounds(num_items, branching_factor);
@@ -1033,7 +1099,7 @@ impl<K: Key> Stree<K> {
 
         // Calculate the actual range within the leaf level
         let start_idx = max(lower_idx, leaf_start);
-        let end_idx = min(upper_idx + node_size, leaf_end);
+        let end_idx = min(upper_idx + last_nodes * node_size, leaf_end);
 
         let index_base: u64 = data.stream_position()?;
 
@@ -1111,7 +1177,11 @@ impl<K: Key> Stree<K> {
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
+                        node_index = right_child(
+                            node_items[node_items.len() - 1].offset as usize,
+                            node_size,
+                            &self.level_bounds[level - 1],
+                        );
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
@@ -1166,7 +1236,11 @@ impl<K: Key> Stree<K> {
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
+                        node_index = right_child(
+                            node_items[node_items.len() - 1].offset as usize,
+                            node_size,
+                            &level_bounds[level - 1],
+                        );
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
@@ -1276,22 +1350,30 @@ impl<K: Key> Stree<K> {
             } else {
                 let result = node_items
                     .binary_search_by(|item: &NodeItem<K>| item.key.cmp(&search_entry.key));
+                let children_level = node_range.level - 1;
                 let mut _offset = 0;
                 match result {
                     Ok(idx) => {
-                        _offset = node_items[idx].offset as usize + node_size;
+                        _offset = right_child(
+                            node_items[idx].offset as usize,
+                            node_size,
+                            &level_bounds[children_level],
+                        );
                     }
                     Err(idx) => {
                         if idx == 0 {
                             _offset = node_items[0].offset as usize;
                         } else if idx == node_items.len() {
-                            _offset = node_items[node_items.len() - 1].offset as usize + node_size;
+                            _offset = right_child(
+                                node_items[node_items.len() - 1].offset as usize,
+                                node_size,
+                                &level_bounds[children_level],
+                            );
                         } else {
                             _offset = node_items[idx].offset as usize;
                         }
                     }
                 }
-                let children_level = node_range.level - 1;
                 let mut children_nodes = _offset..(_offset + node_size);
                 if children_level == 0 {
                     // These children are leaf nodes.
@@ -1423,7 +1505,11 @@ impl<K: Key> Stree<K> {
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
+                        node_index = right_child(
+                            node_items[node_items.len() - 1].offset as usize,
+                            node_size,
+                            &level_bounds[level - 1],
+                        );
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
@@ -1542,6 +1628,60 @@ impl<K: Key> Stree<K> {
         lower: K,
         upper: K,
         combine_request_threshold: usize,
+    ) -> Result<Vec<HttpSearchResultItem>> {
+        Self::http_stream_find_range_up_to(
+            client,
+            index_begin,
+            feature_begin,
+            num_items,
+            branching_factor,
+            lower,
+            upper,
+            combine_request_threshold,
+            1,
+        )
+        .await
+    }
+
+    /// See [`Stree::find_closed_range`]
+    #[cfg(feature = "http")]
+    #[allow(clippy::too_many_arguments)]
+    pub async fn http_stream_find_closed_range<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        index_begin: usize,
+        feature_begin: usize,
+        num_items: usize,
+        branching_factor: u16,
+        lower: K,
+        upper: K,
+        combine_request_threshold: usize,
+    ) -> Result<Vec<HttpSearchResultItem>> {
+        Self::http_stream_find_range_up_to(
+            client,
+            index_begin,
+            feature_begin,
+            num_items,
+            branching_factor,
+            lower,
+            upper,
+            combine_request_threshold,
+            2,
+        )
+        .await
+    }
+
+    #[cfg(feature = "http")]
+    #[allow(clippy::too_many_arguments)]
+    async fn http_stream_find_range_up_to<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        index_begin: usize,
+        feature_begin: usize,
+        num_items: usize,
+        branching_factor: u16,
+        lower: K,
+        upper: K,
+        combine_request_threshold: usize,
+        last_nodes: usize,
     ) -> Result<Vec<HttpSearchResultItem>> {
         debug!("http_stream_find_range starts: index_begin: {index_begin}, feature_begin: {feature_begin}, num_items: {num_items}, branching_factor: {branching_factor}, lower: {lower:?}, upper: {upper:?}");
 
@@ -1620,7 +1760,7 @@ impl<K: Key> Stree<K> {
 
         // Calculate the actual range within the leaf level
         let start_idx = max(lower_idx, leaf_start);
-        let end_idx = min(upper_idx + node_size, leaf_end);
+        let end_idx = min(upper_idx + last_nodes * node_size, leaf_end);
 
         // Collect payload references instead of immediately resolving them
         let mut payload_refs = Vec::new();
-- 
2.43.0


From 0d6640a91e5b37921cb58a4cda3ff81729510759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 15/46] fix: find dates before 1970 in attribute queries

---
 src/rust/fcb_core/src/static_btree/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 9b1c20a..5864ec3 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -241,7 +241,7 @@ impl Min for bool {
 
 impl Min for DateTime<Utc> {
     fn min_value() -> Self {
-        Utc.timestamp_opt(0, 0).single().unwrap()
+        DateTime::<Utc>::MIN_UTC
     }
 }
 
-- 
2.43.0


From ac866df1e9dffb926c04836415dc392936740a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 16/46] fix: report invalid keys and failed key writes instead
 of panicking or ignoring them

---
 src/rust/fcb_core/src/static_btree/key.rs     | 16 ++++++----------
 src/rust/fcb_core/src/static_btree/payload.rs |  3 ++-
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 5864ec3..e85ef44 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -375,7 +375,7 @@ impl Key for bool {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&[*self as u8]).map_err(Error::from);
+        writer.write_all(&[*self as u8]).map_err(Error::from)?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
@@ -409,10 +409,8 @@ impl Key for DateTime<Utc> {
     fn read_from<R: Read>(reader: &mut R) -> Result<Self> {
         let secs = reader.read_i64::<LittleEndian>()?;
         let nanos = reader.read_u32::<LittleEndian>()?;
-        let ndt =
-            chrono::NaiveDateTime::from_timestamp_opt(secs, nanos).expect("invalid datetime value");
-        let dt = DateTime::<Utc>::from_utc(ndt, Utc);
-        Ok(dt)
+        DateTime::<Utc>::from_timestamp(secs, nanos)
+            .ok_or_else(|| Error::KeyDeserializationError("invalid datetime value".to_string()))
     }
 
     #[inline]
@@ -421,10 +419,8 @@ impl Key for DateTime<Utc> {
         array.copy_from_slice(&bytes[0..Self::SERIALIZED_SIZE]);
         let secs = i64::from_le_bytes(array[0..8].try_into().unwrap());
         let nanos = u32::from_le_bytes(array[8..12].try_into().unwrap());
-        let ndt =
-            chrono::NaiveDateTime::from_timestamp_opt(secs, nanos).expect("invalid datetime value");
-        let dt = DateTime::<Utc>::from_utc(ndt, Utc);
-        Ok(dt)
+        DateTime::<Utc>::from_timestamp(secs, nanos)
+            .ok_or_else(|| Error::KeyDeserializationError("invalid datetime value".to_string()))
     }
 }
 
@@ -448,7 +444,7 @@ impl<const N: usize> Key for FixedStringKey<N> {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&self.0).map_err(Error::from);
+        writer.write_all(&self.0).map_err(Error::from)?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
diff --git a/src/rust/fcb_core/src/static_btree/payload.rs b/src/rust/fcb_core/src/static_btree/payload.rs
index 550e753..0df9636 100644
--- a/src/rust/fcb_core/src/static_btree/payload.rs
+++ b/src/rust/fcb_core/src/static_btree/payload.rs
@@ -52,7 +52,8 @@ impl PayloadEntry {
     pub fn deserialize<R: Read + Seek + ?Sized>(data: &mut R) -> Result<(Self, usize)> {
         // [count, offset1, offset2, ...]
         let count = data.read_u32::<LittleEndian>()?;
-        let mut offsets = Vec::with_capacity(count as usize);
+        // the count is not to be trusted before that many offsets have been read
+        let mut offsets = Vec::new();
         for _ in 0..count {
             offsets.push(data.read_u64::<LittleEndian>()?);
         }
-- 
2.43.0


From 420c55caf3024a3195b8add9df784b24145b3f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 17/46] fix: accept a last feature found in any part of the
 spatial index over HTTP, and report short responses

---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 33 ++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index afdbf5c..2012ee3 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -18,7 +18,7 @@ pub use error::Error;
 use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
 use std::cmp::min;
 use std::collections::VecDeque;
-use std::io::{Cursor, Read, Seek, SeekFrom, Write};
+use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
 use std::mem::size_of;
 use std::ops::Range;
 
@@ -180,9 +180,13 @@ impl NodeItem {
 }
 
 /// Read full capacity of vec from data stream
-fn read_node_vec(node_items: &mut Vec<NodeItem>, mut data: impl Read) -> Result<(), Error> {
+fn read_node_vec(
+    node_items: &mut Vec<NodeItem>,
+    length: usize,
+    mut data: impl Read,
+) -> Result<(), Error> {
     node_items.clear();
-    for _ in 0..node_items.capacity() {
+    for _ in 0..length {
         node_items.push(NodeItem::from_reader(&mut data)?);
     }
     Ok(())
@@ -199,7 +203,7 @@ fn read_node_items<R: Read + Seek>(
     data.seek(SeekFrom::Start(
         base + (node_index * size_of::<NodeItem>()) as u64,
     ))?;
-    read_node_vec(&mut node_items, data)?;
+    read_node_vec(&mut node_items, length, data)?;
     Ok(node_items)
 }
 
@@ -218,8 +222,15 @@ async fn read_http_node_items<T: AsyncHttpRangeClient>(
         .get_range(begin, length)
         .await?;
 
+    if bytes.len() != length {
+        return Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "the response ends before the requested index nodes do",
+        )
+        .into());
+    }
+
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
     for node_item_bytes in bytes.chunks(size_of::<NodeItem>()) {
         node_items.push(NodeItem::from_bytes(node_item_bytes)?);
     }
@@ -408,8 +419,8 @@ impl PackedRTree {
         }
     }
 
-    fn read_data(&mut self, data: impl Read) -> Result<(), Error> {
-        read_node_vec(&mut self.node_items, data)?;
+    fn read_data(&mut self, num_nodes: usize, data: impl Read) -> Result<(), Error> {
+        read_node_vec(&mut self.node_items, num_nodes, data)?;
         for node in &self.node_items {
             self.extent.expand(node)
         }
@@ -475,12 +486,13 @@ impl PackedRTree {
             .end;
         let mut tree = PackedRTree {
             extent: NodeItem::create(0),
-            node_items: Vec::with_capacity(num_nodes),
+            // grows as nodes arrive: their number is not to be trusted before that
+            node_items: Vec::new(),
             num_leaf_nodes: num_items,
             branching_factor: node_size,
             level_bounds,
         };
-        tree.read_data(data)?;
+        tree.read_data(num_nodes, data)?;
         Ok(tree)
     }
 
@@ -980,7 +992,6 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1089,7 +1100,6 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1228,7 +1238,6 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 }
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
                                 HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 }
-- 
2.43.0


From 2e56bec0f8accda069a6add71d0466cb1041df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 18/46] fix: report short HTTP responses and deliver a feature
 whose request failed on the next attempt

---
 src/rust/fcb_core/src/http_reader/mod.rs | 97 +++++++++++++-----------
 1 file changed, 52 insertions(+), 45 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 866baa4..89e9016 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -41,6 +41,30 @@ mod mock_http_range_client;
 // If a single huge feature requires, we'll necessarily exceed this limit.
 const DEFAULT_HTTP_FETCH_SIZE: usize = 1_048_576; // 1MB
 
+/// Get the bytes of a range, failing if the response ends before all of them have arrived
+async fn get_exact<T: AsyncHttpRangeClient>(
+    client: &mut AsyncBufferedHttpRangeClient<T>,
+    begin: usize,
+    length: usize,
+) -> Result<&[u8]> {
+    let bytes = client.get_range(begin, length).await?;
+    if bytes.len() < length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
+/// Get the size prefixed feature which starts at the given position
+async fn get_feature<T: AsyncHttpRangeClient>(
+    client: &mut AsyncBufferedHttpRangeClient<T>,
+    pos: usize,
+) -> Result<Bytes> {
+    let mut feature_buffer = BytesMut::from(get_exact(client, pos, 4).await?);
+    let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
+    feature_buffer.put(get_exact(client, pos + 4, feature_size).await?);
+    Ok(feature_buffer.freeze())
+}
+
 /// FlatCityBuf dataset HTTP reader
 pub struct HttpFcbReader<T: AsyncHttpRangeClient + Send + Sync> {
     client: AsyncBufferedHttpRangeClient<T>,
@@ -99,13 +123,13 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         client.set_min_req_size(min_req_size);
         debug!("fetching header. min_req_size: {min_req_size} (assumed_header_size: {assumed_header_size}, prefetched_index_bytes: {prefetch_index_bytes})");
         let mut read_bytes = 0;
-        let bytes = client.get_range(read_bytes, MAGIC_BYTES_SIZE).await?; // to get magic bytes
+        let bytes = get_exact(&mut client, read_bytes, MAGIC_BYTES_SIZE).await?; // to get magic bytes
         if !check_magic_bytes(bytes) {
             return Err(Error::MissingMagicBytes);
         }
 
         read_bytes += MAGIC_BYTES_SIZE;
-        let mut bytes = BytesMut::from(client.get_range(read_bytes, HEADER_SIZE_SIZE).await?);
+        let mut bytes = BytesMut::from(get_exact(&mut client, read_bytes, HEADER_SIZE_SIZE).await?);
         read_bytes += HEADER_SIZE_SIZE;
 
         let header_size = LittleEndian::read_u32(&bytes) as usize;
@@ -114,7 +138,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             return Err(Error::IllegalHeaderSize(header_size));
         }
 
-        bytes.put(client.get_range(read_bytes, header_size).await?);
+        bytes.put(get_exact(&mut client, read_bytes, header_size).await?);
         read_bytes += header_size;
 
         let header_buf = bytes.to_vec();
@@ -123,13 +147,12 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         let _header = size_prefixed_root_as_header(&header_buf)?;
 
         trace!("completed: opening http reader");
-        Ok(HttpFcbReader {
-            client,
-            fbs: FcbBuffer {
-                header_buf,
-                features_buf: Vec::new(),
-            },
-        })
+        let fbs = FcbBuffer {
+            header_buf,
+            features_buf: Vec::new(),
+        };
+
+        Ok(HttpFcbReader { client, fbs })
     }
 
     pub fn header(&self) -> Header {
@@ -153,19 +176,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         let header = self.fbs.header();
         header
             .attribute_index()
-            .map(|attr_index| {
-                attr_index
-                    .iter()
-                    .try_fold(0, |acc, ai| {
-                        let len = ai.length() as usize;
-                        if len > usize::MAX - acc {
-                            Err(Error::AttributeIndexSizeOverflow)
-                        } else {
-                            Ok(acc + len)
-                        }
-                    }) // sum of all attribute index lengths
-                    .unwrap_or(0)
-            })
+            .map(|attr_index| attr_index.iter().map(|ai| ai.length() as usize).sum())
             .unwrap_or(0)
     }
 
@@ -280,17 +291,19 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             .query(&mut self.client, &query.conditions)
             .await?;
 
-        let count = result.len();
-
         // println!("result: {:?}", result);
 
-        let http_ranges: Vec<HttpRange> = result
+        let mut http_ranges: Vec<HttpRange> = result
             .into_iter()
             .map(|item| match item.range {
                 AttrHttpRange::Range(range) => HttpRange::Range(range.start..range.end),
                 AttrHttpRange::RangeFrom(range) => HttpRange::RangeFrom(range.start..),
             })
             .collect();
+        // read the features in the order in which they are stored, each of them once
+        http_ranges.sort_by_key(|range| range.start());
+        http_ranges.dedup_by_key(|range| range.start());
+        let count = http_ranges.len();
 
         trace!(
             "completed: select_attr_query via http reader, matched features: {}",
@@ -546,15 +559,13 @@ impl SelectAll {
         if self.features_left == 0 {
             return Ok(None);
         }
-        self.features_left -= 1;
 
-        let mut feature_buffer = BytesMut::from(client.get_range(self.pos, 4).await?);
-        self.pos += 4;
-        let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(self.pos, feature_size).await?);
-        self.pos += feature_size;
+        // a feature which could not be fetched is still left
+        let feature_buffer = get_feature(client, self.pos).await?;
+        self.features_left -= 1;
+        self.pos += feature_buffer.len();
 
-        Ok(Some(feature_buffer.freeze()))
+        Ok(Some(feature_buffer))
     }
 }
 
@@ -674,17 +685,15 @@ impl FeatureBatch {
     ) -> Result<Option<Bytes>> {
         let request_size = self.request_size();
         client.set_min_req_size(request_size);
-        let Some(feature_range) = self.feature_ranges.pop_front() else {
+        let Some(feature_range) = self.feature_ranges.front() else {
             return Ok(None);
         };
 
-        let mut pos = feature_range.start();
-        let mut feature_buffer = BytesMut::from(client.get_range(pos, 4).await?);
-        pos += 4;
-        let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(pos, feature_size).await?);
+        // a feature which could not be fetched is still to be delivered
+        let feature_buffer = get_feature(client, feature_range.start()).await?;
+        self.feature_ranges.pop_front();
 
-        Ok(Some(feature_buffer.freeze()))
+        Ok(Some(feature_buffer))
     }
 }
 
@@ -703,12 +712,10 @@ impl SelectAttr {
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
-        let mut feature_buffer = BytesMut::from(client.get_range(range.start(), 4).await?);
-        let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        log::debug!("feature_size: {:?}", feature_size);
-        feature_buffer.put(client.get_range(range.start() + 4, feature_size).await?);
+        let feature_buffer = get_feature(client, range.start()).await?;
+        log::debug!("feature_size: {:?}", feature_buffer.len());
         self.range_pos += 1;
-        Ok(Some(feature_buffer.freeze()))
+        Ok(Some(feature_buffer))
     }
 }
 
-- 
2.43.0


From dc11a106c8f65bd94b52c47c65c6d40e4c56de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 19/46] fix: refuse a header which describes impossible
 indices, without allocating by its sizes

---
 src/rust/fcb_core/src/http_reader/mod.rs    |  1 +
 src/rust/fcb_core/src/reader/city_buffer.rs | 22 ++++++++++++
 src/rust/fcb_core/src/reader/mod.rs         | 40 ++++++++++-----------
 3 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 89e9016..dce2daa 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -151,6 +151,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             header_buf,
             features_buf: Vec::new(),
         };
+        fbs.check_indices()?;
 
         Ok(HttpFcbReader { client, fbs })
     }
diff --git a/src/rust/fcb_core/src/reader/city_buffer.rs b/src/rust/fcb_core/src/reader/city_buffer.rs
index 7eb2cc1..7085c18 100644
--- a/src/rust/fcb_core/src/reader/city_buffer.rs
+++ b/src/rust/fcb_core/src/reader/city_buffer.rs
@@ -1,6 +1,7 @@
 use crate::deserializer::to_cj_feature;
 use crate::error::Error;
 use crate::fb::*;
+use crate::packed_rtree::Error as PackedRtreeError;
 use cjseq::CityJSONFeature;
 
 use super::deserializer::to_meta;
@@ -16,6 +17,27 @@ impl FcbBuffer {
         unsafe { size_prefixed_root_as_header_unchecked(&self.header_buf) }
     }
 
+    /// Checks that the header describes indices which can exist
+    pub(crate) fn check_indices(&self) -> Result<(), Error> {
+        let header = self.header();
+        let feat_count = header.features_count();
+        if header.index_node_size() == 1 {
+            return Err(PackedRtreeError::from("node size must be at least 2").into());
+        }
+        // the size of the index in bytes has to fit in a file offset
+        if header.index_node_size() > 0 && feat_count > i64::MAX as u64 / 128 {
+            return Err(PackedRtreeError::from("number of features too large").into());
+        }
+        if let Some(attr_index) = header.attribute_index() {
+            if attr_index.iter().any(|ai| ai.branching_factor() < 2) {
+                return Err(Error::IndexCreationError(
+                    "branching factor must be at least 2".to_string(),
+                ));
+            }
+        }
+        Ok(())
+    }
+
     pub fn feature(&self) -> CityFeature {
         unsafe { size_prefixed_root_as_city_feature_unchecked(&self.features_buf) }
     }
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index d44e17c..25a62e6 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -110,22 +110,30 @@ impl<R: Read> FcbReader<R> {
             return Err(Error::IllegalHeaderSize(header_size));
         }
 
-        let mut header_buf = Vec::with_capacity(header_size + 4); // 4 bytes for size prefix
-        header_buf.extend_from_slice(&size_buf);
-        header_buf.resize(header_buf.capacity(), 0);
-        reader.read_exact(&mut header_buf[4..])?;
+        let mut header_buf = size_buf.to_vec(); // 4 bytes for size prefix
+
+        // the size is not to be trusted before that many bytes have arrived
+        (&mut reader)
+            .take(header_size as u64)
+            .read_to_end(&mut header_buf)?;
+        if header_buf.len() != header_size + 4 {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
 
         if verify {
             let _header = size_prefixed_root_as_header(&header_buf)?;
         }
 
+        let buffer = FcbBuffer {
+            header_buf,
+            features_buf: Vec::new(),
+        };
+        buffer.check_indices()?;
+
         Ok(FcbReader {
             reader,
             verify,
-            buffer: FcbBuffer {
-                header_buf,
-                features_buf: Vec::new(),
-            },
+            buffer,
         })
     }
 
@@ -275,20 +283,8 @@ impl<R: Read> FcbReader<R> {
         let header = self.buffer.header();
         header
             .attribute_index()
-            .map(|attr_index| {
-                attr_index
-                    .iter()
-                    .try_fold(0u32, |acc, ai| {
-                        let len = ai.length();
-                        if len > u32::MAX - acc {
-                            Err(Error::AttributeIndexSizeOverflow)
-                        } else {
-                            Ok(acc + len)
-                        }
-                    })
-                    .unwrap_or(0)
-            })
-            .unwrap_or(0) as u64
+            .map(|attr_index| attr_index.iter().map(|ai| ai.length() as u64).sum())
+            .unwrap_or(0)
     }
 }
 
-- 
2.43.0


From 337623342d046ff54d9c3e85766de95a21cda7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 20/46] fix: read attribute indices over HTTP exactly, whatever
 the size of their entries and the end of the file

---
 src/rust/fcb_core/src/static_btree/stree.rs | 73 +++++++++++++--------
 1 file changed, 47 insertions(+), 26 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 6c6588a..f40f8b3 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -3,6 +3,8 @@ use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::Key;
 use crate::static_btree::payload::PayloadEntry;
 #[cfg(feature = "http")]
+use byteorder::{LittleEndian, ReadBytesExt};
+#[cfg(feature = "http")]
 use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
 use log::{debug, info};
 use std::cmp::{max, min};
@@ -90,8 +92,11 @@ async fn read_http_node_items<K: Key, T: AsyncHttpRangeClient>(
         .get_range(begin, length)
         .await?;
 
+    if bytes.len() != length {
+        return Err(unexpected_end());
+    }
+
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
     for node_item_bytes in bytes.chunks(NodeItem::<K>::SERIALIZED_SIZE) {
         let node_item = NodeItem::from_reader(&mut Cursor::new(node_item_bytes))?;
         node_items.push(node_item);
@@ -99,21 +104,29 @@ async fn read_http_node_items<K: Key, T: AsyncHttpRangeClient>(
     Ok(node_items)
 }
 
+/// The response ends before the requested part of the index does
+#[cfg(feature = "http")]
+fn unexpected_end() -> Error {
+    std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()
+}
+
+/// Read a payload entry: the number of offsets, which tells its size, and the offsets
 #[cfg(feature = "http")]
 async fn read_http_payload_data<T: AsyncHttpRangeClient>(
     client: &mut AsyncBufferedHttpRangeClient<T>,
     offset: usize,
 ) -> Result<PayloadEntry> {
-    let temp_buffered_count_bytes_size = DEFAULT_MIN_REQ_SIZE; //This is hueristic, we don't know the size of the payload. TODO: find a better way
-
     debug!("sending request to fetch payload, offset {offset:?}");
 
-    let payload_data = client
-        .get_range(offset, temp_buffered_count_bytes_size)
-        .await?;
-    let mut buf = Cursor::new(payload_data);
+    let count = client.get_range(offset, size_of::<u32>()).await?;
+    let count = Cursor::new(count).read_u32::<LittleEndian>()? as usize;
 
-    let (payload_entry, _) = PayloadEntry::deserialize(&mut buf)?;
+    let length = size_of::<u32>() + count * size_of::<Offset>();
+    let payload_data = client.get_range(offset, length).await?;
+    if payload_data.len() != length {
+        return Err(unexpected_end());
+    }
+    let (payload_entry, _) = PayloadEntry::deserialize(&mut Cursor::new(payload_data))?;
     Ok(payload_entry)
 }
 
@@ -195,6 +208,22 @@ pub async fn prefetch_payload<T: AsyncHttpRangeClient>(
     Ok(cache)
 }
 
+/// Prefetch payload data without going past the start of the features, before which all
+/// payload sections end: a request which starts where the file ends would fail
+#[cfg(feature = "http")]
+async fn prefetch_payload_before<T: AsyncHttpRangeClient>(
+    client: &mut AsyncBufferedHttpRangeClient<T>,
+    payload_section_start: usize,
+    chunk_size: usize,
+    feature_begin: usize,
+) -> Result<PayloadCache> {
+    let chunk_size = chunk_size.min(feature_begin.saturating_sub(payload_section_start));
+    if chunk_size == 0 {
+        return Ok(PayloadCache::new());
+    }
+    prefetch_payload(client, payload_section_start, chunk_size).await
+}
+
 /// Read a payload entry from the payload cache if available, otherwise fetch it from HTTP
 #[cfg(feature = "http")]
 async fn read_payload_entry<T: AsyncHttpRangeClient>(
@@ -331,28 +360,16 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
         // Add a margin to account for variable-sized payload entries
         let fetch_size = (end - start) + DEFAULT_MIN_REQ_SIZE;
 
-        let payload_data = client.get_range(start, fetch_size).await?;
+        client.set_min_req_size(fetch_size);
 
         // Process each requested offset within this range
         for &offset in payload_offsets_to_fetch
             .iter()
             .filter(|&&o| o >= start && o <= end)
         {
-            let relative_offset = offset - start;
-
-            // Make sure we have enough data
-            if relative_offset < payload_data.len() {
-                let mut buf = Cursor::new(&payload_data[relative_offset..]);
-                match PayloadEntry::deserialize(&mut buf) {
-                    Ok((entry, _)) => {
-                        fetched_payloads.insert(offset, entry);
-                    }
-                    Err(e) => {
-                        debug!("error deserializing payload at offset {}: {:?}", offset, e);
-                        // Continue with other offsets on error
-                    }
-                }
-            }
+            let entry = read_http_payload_data(client, offset).await?;
+            fetched_payloads.insert(offset, entry);
+            client.set_min_req_size(DEFAULT_MIN_REQ_SIZE);
         }
     }
 
@@ -1318,7 +1335,9 @@ impl<K: Key> Stree<K> {
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
         // Prefetch a chunk of payload data
-        let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
+        let payload_cache =
+            prefetch_payload_before(client, payload_data_start, prefetch_size, feature_begin)
+                .await?;
 
         while let Some(node_range) = queue.pop_front() {
             debug!("next: {node_range:?}. {} items left in queue", queue.len());
@@ -1721,7 +1740,9 @@ impl<K: Key> Stree<K> {
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
         // Prefetch a chunk of payload data
-        let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
+        let payload_cache =
+            prefetch_payload_before(client, payload_data_start, prefetch_size, feature_begin)
+                .await?;
 
         debug!("http_stream_find_range - index_begin: {index_begin}, feature_begin: {feature_begin}, num_items: {num_items}, branching_factor: {branching_factor}, level_bounds: {level_bounds:?}, lower: {lower:?}, upper: {upper:?}");
 
-- 
2.43.0


From dbf00de04117557c949535fc9fccfcad937d4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 21/46] fix: flush the output before reporting a written file

---
 src/rust/fcb_core/src/writer/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 2dbd137..fd19789 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -271,6 +271,8 @@ impl<'a> FcbWriter<'a> {
         out.write_all(&rtree_buf)?;
         out.write_all(&attr_index_buf)?;
         out.write_all(&sorted_feature_buf)?;
+        // bytes which a buffering output still holds are not written yet
+        out.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 77d7072e435470bac5debbef902f2be33038086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 22/46] fix: report damaged geometry and semantics content
 instead of panicking

---
 src/rust/fcb_core/src/reader/deserializer.rs | 21 ++++-
 src/rust/fcb_core/src/reader/geom_decoder.rs | 90 +++++++++++++++++---
 2 files changed, 94 insertions(+), 17 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 79e79fb..00d1448 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -4,8 +4,8 @@ use crate::{
     error::Error,
     fb::*,
     geom_decoder::{
-        decode, decode_materials, decode_semantics, decode_textures, fit_boundaries, fit_materials,
-        fit_textures,
+        check_counts, check_mapping_counts, decode, decode_materials, decode_textures,
+        fit_boundaries, fit_materials, fit_textures, try_decode_semantics,
     },
 };
 use byteorder::{ByteOrder, LittleEndian};
@@ -551,6 +551,7 @@ pub(crate) fn decode_geometry(
         .boundaries()
         .map(|v| v.iter().collect::<Vec<_>>())
         .unwrap_or_default();
+    check_counts(&[&solids, &shells, &surfaces, &strings, &indices])?;
     let boundaries = fit_boundaries(
         decode(&solids, &shells, &surfaces, &strings, &indices),
         g.type_(),
@@ -561,20 +562,23 @@ pub(crate) fn decode_geometry(
     {
         let semantics_objects = semantics_objects.iter().collect::<Vec<_>>();
         let semantics = semantics.iter().collect::<Vec<_>>();
-        Some(decode_semantics(
+        Some(try_decode_semantics(
             &solids,
             &shells,
             g.type_(),
             semantics_objects,
             semantics,
             semantic_attr_schema,
-        ))
+        )?)
     } else {
         None
     };
 
     // Decode material mappings if present
     let material = if let Some(material_mappings) = g.material() {
+        for m in material_mappings.iter() {
+            check_mapping_counts(&[m.solids(), m.shells(), m.vertices()])?;
+        }
         decode_materials(&material_mappings.iter().collect::<Vec<_>>())
             .map(|themes| fit_materials(themes, g.type_()))
     } else {
@@ -583,6 +587,15 @@ pub(crate) fn decode_geometry(
 
     // Decode texture mappings if present
     let texture = if let Some(texture_mappings) = g.texture() {
+        for t in texture_mappings.iter() {
+            check_mapping_counts(&[
+                t.solids(),
+                t.shells(),
+                t.surfaces(),
+                t.strings(),
+                t.vertices(),
+            ])?;
+        }
         decode_textures(&texture_mappings.iter().collect::<Vec<_>>())
             .map(|themes| fit_textures(themes, g.type_()))
     } else {
diff --git a/src/rust/fcb_core/src/reader/geom_decoder.rs b/src/rust/fcb_core/src/reader/geom_decoder.rs
index 6c7a378..978fd38 100644
--- a/src/rust/fcb_core/src/reader/geom_decoder.rs
+++ b/src/rust/fcb_core/src/reader/geom_decoder.rs
@@ -11,7 +11,8 @@ use crate::{
 };
 use std::collections::HashMap;
 
-use super::deserializer::decode_attributes;
+use super::deserializer::try_decode_attributes;
+use crate::error::Error;
 
 /// For semantics decoding, we only care about solids and shells.
 /// We stop recursing at d <= 2 which are surfaces, rings and points (meaning we just return semantic_indices).
@@ -21,6 +22,32 @@ struct PartLists<'a> {
     starts: [usize; 5], // parallel "start" indices
 }
 
+/// Checks that each level of counts describes no more items than the next level holds.
+///
+/// # Arguments
+///
+/// * `levels` - Flattened arrays from the outermost to the innermost, levels which are absent are
+///   empty
+pub(crate) fn check_counts(levels: &[&[u32]]) -> Result<(), Error> {
+    let mut present = levels.iter().skip_while(|level| level.is_empty());
+    let Some(mut counts) = present.next() else {
+        return Ok(());
+    };
+    for items in present {
+        let described: u64 = counts.iter().map(|&count| count as u64).sum();
+        if described > items.len() as u64 {
+            return Err(Error::InvalidAttributeValue {
+                msg: format!(
+                    "geometry describes {described} parts, found {}",
+                    items.len()
+                ),
+            });
+        }
+        counts = items;
+    }
+    Ok(())
+}
+
 /// Decodes the flattened arrays back into a nested CityJSON boundaries structure.
 ///
 /// Uses cursor indices to track position in each array while rebuilding the
@@ -175,7 +202,7 @@ pub(crate) fn decode(
 pub(crate) fn decode_semantics_surfaces(
     semantics_objects: &[SemanticObject],
     semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
-) -> Vec<SemanticsSurface> {
+) -> Result<Vec<SemanticsSurface>, Error> {
     let surfaces = semantics_objects.iter().map(|s| {
         let surface_type_str = match s.type_() {
             // For extended semantic surfaces, use the extension_type
@@ -208,17 +235,19 @@ pub(crate) fn decode_semantics_surfaces(
         let children = s.children().map(|c| c.iter().collect::<Vec<_>>());
 
         let attributes = if let Some(schema) = &semantic_attr_schema {
-            s.attributes().map(|a| decode_attributes(schema, a))
+            s.attributes()
+                .map(|a| try_decode_attributes(schema, a))
+                .transpose()?
         } else {
             None
         };
 
-        SemanticsSurface {
+        Ok(SemanticsSurface {
             thetype: surface_type_str,
             parent: s.parent(),
             children,
             other: attributes,
-        }
+        })
     });
     surfaces.collect()
 }
@@ -329,16 +358,17 @@ fn decode_semantics_(
 ///
 /// # Returns
 ///
-/// Complete CityJSON semantics structure with surfaces and values
-pub(crate) fn decode_semantics(
+/// Complete CityJSON semantics structure with surfaces and values, or an error if the parts do not
+/// fit together
+pub(crate) fn try_decode_semantics(
     solids: &[u32],
     shells: &[u32],
     geometry_type: GeometryType,
     semantics_objects: Vec<SemanticObject>,
     semantics_values: Vec<u32>,
     semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
-) -> Semantics {
-    let surfaces = decode_semantics_surfaces(&semantics_objects, semantic_attr_schema);
+) -> Result<Semantics, Error> {
+    let surfaces = decode_semantics_surfaces(&semantics_objects, semantic_attr_schema)?;
 
     let mut part_lists = PartLists {
         solids,
@@ -363,18 +393,39 @@ pub(crate) fn decode_semantics(
         for &val in &semantics_values {
             leaf.push(if val == u32::MAX { None } else { Some(val) });
         }
-        return Semantics {
+        return Ok(Semantics {
             surfaces,
             values: SemanticsValues::Indices(leaf),
-        };
+        });
     }
+    check_counts(&[if d == 4 { solids } else { &[] }, shells, &semantics_values])?;
 
     let result = decode_semantics_(d, None, None, &mut part_lists, &semantics_values);
 
-    Semantics {
+    Ok(Semantics {
         surfaces,
         values: result,
-    }
+    })
+}
+
+#[cfg(test)]
+pub(crate) fn decode_semantics(
+    solids: &[u32],
+    shells: &[u32],
+    geometry_type: GeometryType,
+    semantics_objects: Vec<SemanticObject>,
+    semantics_values: Vec<u32>,
+    semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
+) -> Semantics {
+    try_decode_semantics(
+        solids,
+        shells,
+        geometry_type,
+        semantics_objects,
+        semantics_values,
+        semantic_attr_schema,
+    )
+    .expect("consistent semantics")
 }
 
 impl GeometryType {
@@ -405,6 +456,19 @@ impl GeometryType {
     }
 }
 
+/// Checks the counts of material and texture mappings, in which any level may be absent.
+pub(crate) fn check_mapping_counts(
+    levels: &[Option<flatbuffers::Vector<'_, u32>>],
+) -> Result<(), Error> {
+    let levels = levels
+        .iter()
+        .flatten()
+        .map(|level| level.iter().collect::<Vec<_>>())
+        .filter(|level| !level.is_empty())
+        .collect::<Vec<_>>();
+    check_counts(&levels.iter().map(Vec::as_slice).collect::<Vec<_>>())
+}
+
 /// Decodes FlatBuffers material mappings into CityJSON material references.
 ///
 /// # Arguments
-- 
2.43.0


From 2073c754bf5875f7bb9ea18a084f41c7fe7cddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 23/46] fix: report damaged search trees instead of panicking
 or allocating by their sizes

---
 src/rust/fcb_core/src/http_reader/mod.rs    |  19 ++-
 src/rust/fcb_core/src/packed_rtree/mod.rs   | 151 +++++++++++---------
 src/rust/fcb_core/src/reader/city_buffer.rs |   5 +
 src/rust/fcb_core/src/reader/mod.rs         |  23 +--
 src/rust/fcb_core/src/static_btree/stree.rs | 142 +++++++++++-------
 5 files changed, 204 insertions(+), 136 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index dce2daa..4e7d09b 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -226,11 +226,13 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             combine_request_threshold,
         )
         .await?;
-        debug_assert!(
-            list.windows(2)
-                .all(|w| w[0].range.start() < w[1].range.start()),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
+        // Since the tree is traversed breadth first, list should be sorted by construction.
+        if !list
+            .windows(2)
+            .all(|w| w[0].range.start() < w[1].range.start())
+        {
+            return Err(crate::packed_rtree::Error::from("features out of order").into());
+        }
 
         let count = list.len();
         let feature_batches = FeatureBatch::make_batches(list, combine_request_threshold).await?;
@@ -622,14 +624,17 @@ impl FeatureBatch {
             let previous_item = latest_batch.back().expect("we never push an empty batch");
 
             let HttpRange::Range(Range { end: prev_end, .. }) = previous_item else {
-                debug_assert!(false, "This shouldn't happen. Only the very last feature is expected to have an unknown length");
+                // This shouldn't happen, unless the index is damaged. Only the very last feature is
+                // expected to have an unknown length.
                 let mut new_batch = VecDeque::new();
                 new_batch.push_back(search_result_item.range);
                 batched_ranges.push(new_batch);
                 continue;
             };
 
-            let wasted_bytes = search_result_item.range.start() - prev_end;
+            let Some(wasted_bytes) = search_result_item.range.start().checked_sub(*prev_end) else {
+                return Err(crate::packed_rtree::Error::from("features out of order").into());
+            };
             if wasted_bytes < combine_request_threshold {
                 if wasted_bytes == 0 {
                     trace!("adjacent feature");
diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index 2012ee3..4208129 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -169,8 +169,8 @@ impl NodeItem {
         }
 
         // Calculate closest point on the bbox
-        let closest_x = x.clamp(self.min_x, self.max_x);
-        let closest_y = y.clamp(self.min_y, self.max_y);
+        let closest_x = x.max(self.min_x).min(self.max_x);
+        let closest_y = y.max(self.min_y).min(self.max_y);
 
         // Calculate squared distance
         let dx = x - closest_x;
@@ -179,6 +179,38 @@ impl NodeItem {
     }
 }
 
+/// The index of the first child of a node, which is in the level below it unless the index is
+/// damaged
+fn first_child(node_item: &NodeItem, children_level: &Range<usize>) -> Result<usize, Error> {
+    usize::try_from(node_item.offset)
+        .ok()
+        .filter(|index| children_level.contains(index))
+        .ok_or(Error::from("child outside of its level"))
+}
+
+/// Where the feature of a leaf node is in the file. It ends where the next one starts, if that is
+/// known.
+#[cfg(feature = "http")]
+fn feature_range(
+    feature_begin: usize,
+    node_item: &NodeItem,
+    next_node_item: Option<&NodeItem>,
+) -> Result<HttpRange, Error> {
+    let position = |node_item: &NodeItem| {
+        usize::try_from(node_item.offset)
+            .ok()
+            .and_then(|offset| feature_begin.checked_add(offset))
+            .filter(|position| i64::try_from(*position).is_ok())
+            .ok_or(Error::from("feature outside of the file"))
+    };
+    let start = position(node_item)?;
+    match next_node_item.map(position).transpose()? {
+        Some(end) if end < start => Err(Error::from("features out of order")),
+        Some(end) => Ok(HttpRange::Range(start..end)),
+        None => Ok(HttpRange::RangeFrom(start..)),
+    }
+}
+
 /// Read full capacity of vec from data stream
 fn read_node_vec(
     node_items: &mut Vec<NodeItem>,
@@ -199,7 +231,8 @@ fn read_node_items<R: Read + Seek>(
     node_index: usize,
     length: usize,
 ) -> Result<Vec<NodeItem>, Error> {
-    let mut node_items = Vec::with_capacity(length);
+    // grows as nodes arrive: their number is not to be trusted before that
+    let mut node_items = Vec::new();
     data.seek(SeekFrom::Start(
         base + (node_index * size_of::<NodeItem>()) as u64,
     ))?;
@@ -552,7 +585,8 @@ impl PackedRTree {
                                 index: pos - leaf_nodes_offset,
                             });
                         } else {
-                            queue.push_back((node_item.offset as usize, level - 1));
+                            let child = first_child(node_item, &self.level_bounds[level - 1])?;
+                            queue.push_back((child, level - 1));
                         }
                     }
                 }
@@ -587,7 +621,8 @@ impl PackedRTree {
                                 index: pos - leaf_nodes_offset,
                             });
                         } else {
-                            queue.push_back((node_item.offset as usize, level - 1));
+                            let child = first_child(node_item, &self.level_bounds[level - 1])?;
+                            queue.push_back((child, level - 1));
                         }
                     }
                 }
@@ -681,7 +716,7 @@ impl PackedRTree {
                             // Add this node to the queue with its minimum distance
                             queue.push(Reverse(QueueItem {
                                 distance: dist,
-                                node_index: node_item.offset as usize,
+                                node_index: first_child(node_item, &self.level_bounds[level - 1])?,
                                 level: level - 1,
                             }));
                         }
@@ -741,9 +776,9 @@ impl PackedRTree {
                             let offset = node_item.offset as usize;
                             results.push(SearchResultItem { offset, index });
                         } else {
-                            let offset = node_item.offset as usize;
                             let prev_level = level - 1;
-                            queue.push_back((offset, prev_level));
+                            let child = first_child(node_item, &level_bounds[prev_level])?;
+                            queue.push_back((child, prev_level));
                         }
                     }
                 }
@@ -780,9 +815,9 @@ impl PackedRTree {
                             let offset = node_item.offset as usize;
                             results.push(SearchResultItem { offset, index });
                         } else {
-                            let offset = node_item.offset as usize;
                             let prev_level = level - 1;
-                            queue.push_back((offset, prev_level));
+                            let child = first_child(node_item, &level_bounds[prev_level])?;
+                            queue.push_back((child, prev_level));
                         }
                     }
                 }
@@ -879,7 +914,7 @@ impl PackedRTree {
                             // Add this node to the queue with its minimum distance
                             queue.push(Reverse(QueueItem {
                                 distance: dist,
-                                node_index: node_item.offset as usize,
+                                node_index: first_child(node_item, &level_bounds[level - 1])?,
                                 level: level - 1,
                             }));
                         }
@@ -985,21 +1020,16 @@ impl PackedRTree {
 
                         if node_range.level == 0 {
                             // leaf node
-                            let start = feature_begin + node_item.offset as usize;
-                            if let Some(next_node_item) = &node_items.get(node_pos + 1) {
-                                let end = feature_begin + next_node_item.offset as usize;
-                                results.push(HttpSearchResultItem {
-                                    range: HttpRange::Range(start..end),
-                                });
-                            } else {
-                                results.push(HttpSearchResultItem {
-                                    range: HttpRange::RangeFrom(start..),
-                                });
-                            }
+                            let next_node_item = node_items.get(node_pos + 1);
+                            results.push(HttpSearchResultItem {
+                                range: feature_range(feature_begin, node_item, next_node_item)?,
+                            });
                         } else {
                             let children_level = node_range.level - 1;
-                            let mut children_nodes = node_item.offset as usize
-                                ..(node_item.offset + branching_factor as u64) as usize;
+                            let first_child =
+                                first_child(node_item, &level_bounds[children_level])?;
+                            let mut children_nodes =
+                                first_child..first_child + branching_factor as usize;
                             if children_level == 0 {
                                 // These children are leaf nodes.
                                 //
@@ -1040,15 +1070,13 @@ impl PackedRTree {
                                     // we skip that computation.
                                     //
                                     // But let's make sure we're in the state we think we are:
-                                    debug_assert_eq!(
-                                        children_range.nodes.start + 1,
-                                        tail.nodes.end,
-                                        "we only ever fetch one extra node"
-                                    );
-                                    debug_assert_eq!(
-                                        children_level, 0,
-                                        "extra node fetching only happens with leaf nodes"
-                                    );
+                                    // we only ever fetch one extra node
+                                    let is_extra_node =
+                                        children_range.nodes.start + 1 == tail.nodes.end;
+                                    // extra node fetching only happens with leaf nodes
+                                    if !is_extra_node || children_level != 0 {
+                                        return Err(Error::from("children out of order"));
+                                    }
                                     0
                                 }
                             };
@@ -1093,21 +1121,16 @@ impl PackedRTree {
 
                         if node_range.level == 0 {
                             // leaf node
-                            let start = feature_begin + node_item.offset as usize;
-                            if let Some(next_node_item) = &node_items.get(node_pos + 1) {
-                                let end = feature_begin + next_node_item.offset as usize;
-                                results.push(HttpSearchResultItem {
-                                    range: HttpRange::Range(start..end),
-                                });
-                            } else {
-                                results.push(HttpSearchResultItem {
-                                    range: HttpRange::RangeFrom(start..),
-                                });
-                            }
+                            let next_node_item = node_items.get(node_pos + 1);
+                            results.push(HttpSearchResultItem {
+                                range: feature_range(feature_begin, node_item, next_node_item)?,
+                            });
                         } else {
                             let children_level = node_range.level - 1;
-                            let mut children_nodes = node_item.offset as usize
-                                ..(node_item.offset + branching_factor as u64) as usize;
+                            let first_child =
+                                first_child(node_item, &level_bounds[children_level])?;
+                            let mut children_nodes =
+                                first_child..first_child + branching_factor as usize;
                             if children_level == 0 {
                                 children_nodes.end += 1;
                             }
@@ -1136,15 +1159,13 @@ impl PackedRTree {
                                     (children_range.nodes.start - tail.nodes.end)
                                         * size_of::<NodeItem>()
                                 } else {
-                                    debug_assert_eq!(
-                                        children_range.nodes.start + 1,
-                                        tail.nodes.end,
-                                        "we only ever fetch one extra node"
-                                    );
-                                    debug_assert_eq!(
-                                        children_level, 0,
-                                        "extra node fetching only happens with leaf nodes"
-                                    );
+                                    // we only ever fetch one extra node
+                                    let is_extra_node =
+                                        children_range.nodes.start + 1 == tail.nodes.end;
+                                    // extra node fetching only happens with leaf nodes
+                                    if !is_extra_node || children_level != 0 {
+                                        return Err(Error::from("children out of order"));
+                                    }
                                     0
                                 }
                             };
@@ -1230,17 +1251,9 @@ impl PackedRTree {
                             let centroid_dist = node_item.centroid_distance_squared(x, y);
 
                             // Create range for the result
-                            let start = feature_begin + node_item.offset as usize;
-                            let result = if let Some(next_node_item) = &node_items.get(node_pos + 1)
-                            {
-                                let end = feature_begin + next_node_item.offset as usize;
-                                HttpSearchResultItem {
-                                    range: HttpRange::Range(start..end),
-                                }
-                            } else {
-                                HttpSearchResultItem {
-                                    range: HttpRange::RangeFrom(start..),
-                                }
+                            let next_node_item = node_items.get(node_pos + 1);
+                            let result = HttpSearchResultItem {
+                                range: feature_range(feature_begin, node_item, next_node_item)?,
                             };
 
                             match nearest {
@@ -1253,8 +1266,10 @@ impl PackedRTree {
                         } else {
                             // Not a leaf node - add children to the queue
                             let children_level = next.level - 1;
-                            let mut children_nodes = node_item.offset as usize
-                                ..(node_item.offset + branching_factor as u64) as usize;
+                            let first_child =
+                                first_child(node_item, &level_bounds[children_level])?;
+                            let mut children_nodes =
+                                first_child..first_child + branching_factor as usize;
 
                             if children_level == 0 {
                                 children_nodes.end += 1;
diff --git a/src/rust/fcb_core/src/reader/city_buffer.rs b/src/rust/fcb_core/src/reader/city_buffer.rs
index 7085c18..966d14e 100644
--- a/src/rust/fcb_core/src/reader/city_buffer.rs
+++ b/src/rust/fcb_core/src/reader/city_buffer.rs
@@ -34,6 +34,11 @@ impl FcbBuffer {
                     "branching factor must be at least 2".to_string(),
                 ));
             }
+            if attr_index.iter().any(|ai| ai.num_unique_items() == 0) {
+                return Err(Error::IndexCreationError(
+                    "attribute index must not be empty".to_string(),
+                ));
+            }
         }
         Ok(())
     }
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 25a62e6..d3ddfc5 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -73,6 +73,17 @@ pub mod reader_trait {
 }
 use reader_trait::*;
 
+/// Checks that selected features are in the order in which they are stored. Since the tree is
+/// traversed breadth first, they should be by construction.
+fn check_selection(list: &[packed_rtree::SearchResultItem]) -> Result<(), Error> {
+    let sorted = list.windows(2).all(|w| w[0].offset < w[1].offset);
+    let in_range = list.iter().all(|item| i64::try_from(item.offset).is_ok());
+    if !sorted || !in_range {
+        return Err(packed_rtree::Error::from("features out of order").into());
+    }
+    Ok(())
+}
+
 /// Discards bytes from a reader, failing if it ends before that many could be read.
 fn skip(reader: &mut impl Read, len: u64) -> Result<(), Error> {
     if io::copy(&mut reader.take(len), &mut io::sink())? < len {
@@ -171,10 +182,7 @@ impl<R: Read> FcbReader<R> {
             header.index_node_size(),
         )?;
         let list = index.search(query)?;
-        debug_assert!(
-            list.windows(2).all(|w| w[0].offset < w[1].offset),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
+        check_selection(&list)?;
         // skip attribute index
         let index_size = self.attr_index_size();
         skip(&mut self.reader, index_size)?;
@@ -232,10 +240,7 @@ impl<R: Read + Seek> FcbReader<R> {
             header.index_node_size(),
             query,
         )?;
-        debug_assert!(
-            list.windows(2).all(|w| w[0].offset < w[1].offset),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
+        check_selection(&list)?;
         // skip index
         self.reader
             .seek(SeekFrom::Current(self.attr_index_size() as i64))?;
@@ -426,7 +431,7 @@ impl<R: Read + Seek> FeatureIter<R, Seekable> {
             }
             let item_offset = attr_filter[self.feat_no];
             self.reader.seek(SeekFrom::Start(
-                self.feature_offset.total_size() + item_offset,
+                self.feature_offset.total_size().saturating_add(item_offset),
             ))?;
             self.cur_pos = item_offset;
         }
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index f40f8b3..a8a0595 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -52,9 +52,13 @@ impl<K: Key> NodeItem<K> {
 }
 
 /// Read full capacity of vec from data stream
-fn read_node_vec<K: Key>(node_items: &mut Vec<NodeItem<K>>, mut data: impl Read) -> Result<()> {
+fn read_node_vec<K: Key>(
+    node_items: &mut Vec<NodeItem<K>>,
+    length: usize,
+    mut data: impl Read,
+) -> Result<()> {
     node_items.clear();
-    for _ in 0..node_items.capacity() {
+    for _ in 0..length {
         node_items.push(NodeItem::from_reader(&mut data)?);
     }
     Ok(())
@@ -67,11 +71,12 @@ fn read_node_items<K: Key, R: Read + Seek + ?Sized>(
     node_index: usize,
     length: usize,
 ) -> Result<Vec<NodeItem<K>>> {
-    let mut node_items = Vec::with_capacity(length);
+    // grows as nodes arrive: their number is not to be trusted before that
+    let mut node_items = Vec::new();
     data.seek(SeekFrom::Start(
         base + (node_index * NodeItem::<K>::SERIALIZED_SIZE) as u64,
     ))?;
-    read_node_vec(&mut node_items, data)?;
+    read_node_vec(&mut node_items, length, data)?;
     Ok(node_items)
 }
 
@@ -251,6 +256,16 @@ enum PayloadRef {
     Indirect(usize),
 }
 
+/// Position of a feature in the file
+#[cfg(feature = "http")]
+fn feature_position(feature_begin: usize, offset: Offset) -> Result<usize> {
+    usize::try_from(offset)
+        .ok()
+        .and_then(|offset| feature_begin.checked_add(offset))
+        .filter(|position| i64::try_from(*position).is_ok())
+        .ok_or_else(|| Error::InvalidFormat("feature outside of the file".to_string()))
+}
+
 /// Batch resolve multiple payload references in a single HTTP request
 #[cfg(feature = "http")]
 async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
@@ -276,7 +291,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
         match payload_ref {
             PayloadRef::Direct(offset) => {
                 // Direct offsets can be added to results immediately
-                let start = feature_begin + offset as usize;
+                let start = feature_position(feature_begin, offset)?;
                 results.push(HttpSearchResultItem {
                     range: HttpRange::RangeFrom(start..),
                 });
@@ -291,7 +306,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
                         match cache.get_entry(abs_offset) {
                             Ok(entry) => {
                                 for offset in entry.offsets {
-                                    let start = feature_begin + offset as usize;
+                                    let start = feature_position(feature_begin, offset)?;
                                     results.push(HttpSearchResultItem {
                                         range: HttpRange::RangeFrom(start..),
                                     });
@@ -377,7 +392,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
     for &offset in &payload_offsets_to_fetch {
         if let Some(entry) = fetched_payloads.get(&offset) {
             for offset in &entry.offsets {
-                let start = feature_begin + *offset as usize;
+                let start = feature_position(feature_begin, *offset)?;
                 results.push(HttpSearchResultItem {
                     range: HttpRange::RangeFrom(start..),
                 });
@@ -397,15 +412,28 @@ pub struct SearchResultItem {
     pub index: usize,
 }
 
+/// The node which an item points to, which is in the level below it unless the index is damaged
+fn left_child<K: Key>(item: &NodeItem<K>, children_level: &Range<usize>) -> Result<usize> {
+    usize::try_from(item.offset)
+        .ok()
+        .filter(|index| children_level.contains(index))
+        .ok_or_else(|| Error::InvalidFormat("child outside of its level".to_string()))
+}
+
 /// The node to the right of a separator, holding the keys from the separator on.
 /// The last separator of a level can be a sentinel, which has no right child: the
 /// node to its left then holds the largest keys.
-fn right_child(left_child: usize, node_size: usize, children_level: &Range<usize>) -> usize {
+fn right_child<K: Key>(
+    item: &NodeItem<K>,
+    node_size: usize,
+    children_level: &Range<usize>,
+) -> Result<usize> {
+    let left_child = left_child(item, children_level)?;
     let right_child = left_child + node_size;
     if right_child < children_level.end {
-        right_child
+        Ok(right_child)
     } else {
-        left_child
+        Ok(left_child)
     }
 }
 
@@ -617,8 +645,8 @@ impl<K: Key> Stree<K> {
         Ok(())
     }
 
-    fn read_data(&mut self, data: impl Read) -> Result<()> {
-        read_node_vec(&mut self.node_items, data)?;
+    fn read_data(&mut self, num_nodes: usize, data: impl Read) -> Result<()> {
+        read_node_vec(&mut self.node_items, num_nodes, data)?;
         Ok(())
     }
 
@@ -650,6 +678,13 @@ impl<K: Key> Stree<K> {
         self.node_items.len()
     }
 
+    /// The payload section from a payload entry on
+    fn payload_from(&self, rel: usize) -> Result<&[u8]> {
+        self.payload_data
+            .get(rel..)
+            .ok_or_else(|| Error::InvalidFormat("payload outside of its section".to_string()))
+    }
+
     pub fn build(nodes: &[NodeItem<K>], branching_factor: u16) -> Result<Stree<K>> {
         let branching_factor = branching_factor.clamp(2u16, 65535u16);
         // sort nodes by key
@@ -718,7 +753,8 @@ impl<K: Key> Stree<K> {
             .expect("Btree has at least one level when node_size >= 2 and num_items > 0")
             .end;
         let mut tree = Stree::<K> {
-            node_items: Vec::with_capacity(num_nodes),
+            // grows as nodes arrive: their number is not to be trusted before that
+            node_items: Vec::new(),
             num_leaf_nodes: num_items,
             branching_factor,
             level_bounds,
@@ -726,7 +762,7 @@ impl<K: Key> Stree<K> {
             payload_initialized: false,
         };
         // Read node items (index)
-        tree.read_data(&mut data)?;
+        tree.read_data(num_nodes, &mut data)?;
         // Read any remaining bytes as payload data
         let mut payload = Vec::new();
         data.read_to_end(&mut payload)?;
@@ -793,24 +829,27 @@ impl<K: Key> Stree<K> {
                 match search_result {
                     Ok(index) => {
                         let child = right_child(
-                            node_items[index].offset as usize,
+                            &node_items[index],
                             node_size,
                             &self.level_bounds[level - 1],
-                        );
+                        )?;
                         queue.push_back((child, level - 1));
                     }
                     Err(index) => {
                         if index == 0 {
-                            queue.push_back((node_items[0].offset as usize, level - 1));
+                            let child = left_child(&node_items[0], &self.level_bounds[level - 1])?;
+                            queue.push_back((child, level - 1));
                         } else if index == node_items.len() {
                             let child = right_child(
-                                node_items[node_items.len() - 1].offset as usize,
+                                &node_items[node_items.len() - 1],
                                 node_size,
                                 &self.level_bounds[level - 1],
-                            );
+                            )?;
                             queue.push_back((child, level - 1));
                         } else {
-                            queue.push_back((node_items[index].offset as usize, level - 1));
+                            let child =
+                                left_child(&node_items[index], &self.level_bounds[level - 1])?;
+                            queue.push_back((child, level - 1));
                         }
                     }
                 }
@@ -826,7 +865,7 @@ impl<K: Key> Stree<K> {
                         if self.payload_initialized && (off & PAYLOAD_TAG) != 0 {
                             let rel = (off & PAYLOAD_MASK) as usize;
                             let (entry, _) = PayloadEntry::deserialize(&mut Cursor::new(
-                                &self.payload_data[rel..],
+                                self.payload_from(rel)?,
                             ))?;
                             for o in entry.offsets {
                                 results.push(SearchResultItem {
@@ -896,25 +935,24 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        let child = right_child(
-                            node_items[index].offset as usize,
-                            node_size,
-                            &level_bounds[level - 1],
-                        );
+                        let child =
+                            right_child(&node_items[index], node_size, &level_bounds[level - 1])?;
                         queue.push_back((child, level - 1));
                     }
                     Err(index) => {
                         if index == 0 {
-                            queue.push_back((node_items[0].offset as usize, level - 1));
+                            let child = left_child(&node_items[0], &level_bounds[level - 1])?;
+                            queue.push_back((child, level - 1));
                         } else if index == node_items.len() {
                             let child = right_child(
-                                node_items[node_items.len() - 1].offset as usize,
+                                &node_items[node_items.len() - 1],
                                 node_size,
                                 &level_bounds[level - 1],
-                            );
+                            )?;
                             queue.push_back((child, level - 1));
                         } else {
-                            queue.push_back((node_items[index].offset as usize, level - 1));
+                            let child = left_child(&node_items[index], &level_bounds[level - 1])?;
+                            queue.push_back((child, level - 1));
                         }
                     }
                 }
@@ -1026,7 +1064,7 @@ impl<K: Key> Stree<K> {
                     if self.payload_initialized && (off & PAYLOAD_TAG) != 0 {
                         let rel = (off & PAYLOAD_MASK) as usize;
                         let (entry, _) =
-                            PayloadEntry::deserialize(&mut Cursor::new(&self.payload_data[rel..]))?;
+                            PayloadEntry::deserialize(&mut Cursor::new(self.payload_from(rel)?))?;
                         for o in entry.offsets {
                             results.push(SearchResultItem {
                                 offset: o as usize,
@@ -1183,26 +1221,26 @@ impl<K: Key> Stree<K> {
                 Ok(index) => {
                     // Exact match found, go to the corresponding child
                     // For an exact match, we go to the child node pointed to by this entry
-                    node_index = node_items[index].offset as usize;
+                    node_index = left_child(&node_items[index], &self.level_bounds[level - 1])?;
                 }
                 Err(index) => {
                     // No exact match, determine appropriate child based on comparison
                     if index == 0 {
                         // Key is smaller than all keys in this node
                         // Go to the leftmost child
-                        node_index = node_items[0].offset as usize;
+                        node_index = left_child(&node_items[0], &self.level_bounds[level - 1])?;
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
                         node_index = right_child(
-                            node_items[node_items.len() - 1].offset as usize,
+                            &node_items[node_items.len() - 1],
                             node_size,
                             &self.level_bounds[level - 1],
-                        );
+                        )?;
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
-                        node_index = node_items[index].offset as usize;
+                        node_index = left_child(&node_items[index], &self.level_bounds[level - 1])?;
                     }
                 }
             }
@@ -1242,26 +1280,26 @@ impl<K: Key> Stree<K> {
                 Ok(index) => {
                     // Exact match found, go to the corresponding child
                     // For an exact match, we go to the child node pointed to by this entry
-                    node_index = node_items[index].offset as usize;
+                    node_index = left_child(&node_items[index], &level_bounds[level - 1])?;
                 }
                 Err(index) => {
                     // No exact match, determine appropriate child based on comparison
                     if index == 0 {
                         // Key is smaller than all keys in this node
                         // Go to the leftmost child
-                        node_index = node_items[0].offset as usize;
+                        node_index = left_child(&node_items[0], &level_bounds[level - 1])?;
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
                         node_index = right_child(
-                            node_items[node_items.len() - 1].offset as usize,
+                            &node_items[node_items.len() - 1],
                             node_size,
                             &level_bounds[level - 1],
-                        );
+                        )?;
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
-                        node_index = node_items[index].offset as usize;
+                        node_index = left_child(&node_items[index], &level_bounds[level - 1])?;
                     }
                 }
             }
@@ -1374,22 +1412,22 @@ impl<K: Key> Stree<K> {
                 match result {
                     Ok(idx) => {
                         _offset = right_child(
-                            node_items[idx].offset as usize,
+                            &node_items[idx],
                             node_size,
                             &level_bounds[children_level],
-                        );
+                        )?;
                     }
                     Err(idx) => {
                         if idx == 0 {
-                            _offset = node_items[0].offset as usize;
+                            _offset = left_child(&node_items[0], &level_bounds[children_level])?;
                         } else if idx == node_items.len() {
                             _offset = right_child(
-                                node_items[node_items.len() - 1].offset as usize,
+                                &node_items[node_items.len() - 1],
                                 node_size,
                                 &level_bounds[children_level],
-                            );
+                            )?;
                         } else {
-                            _offset = node_items[idx].offset as usize;
+                            _offset = left_child(&node_items[idx], &level_bounds[children_level])?;
                         }
                     }
                 }
@@ -1511,7 +1549,7 @@ impl<K: Key> Stree<K> {
             match node_items.binary_search_by(|item: &NodeItem<K>| item.key.cmp(&key)) {
                 Ok(index) => {
                     // Exact match found, go to the corresponding child
-                    node_index = node_items[index].offset as usize;
+                    node_index = left_child(&node_items[index], &level_bounds[level - 1])?;
                 }
 
                 Err(index) => {
@@ -1520,19 +1558,19 @@ impl<K: Key> Stree<K> {
                     if index == 0 {
                         // Key is smaller than all keys in this node
                         // Go to the leftmost child
-                        node_index = node_items[0].offset as usize;
+                        node_index = left_child(&node_items[0], &level_bounds[level - 1])?;
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
                         node_index = right_child(
-                            node_items[node_items.len() - 1].offset as usize,
+                            &node_items[node_items.len() - 1],
                             node_size,
                             &level_bounds[level - 1],
-                        );
+                        )?;
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
-                        node_index = node_items[index].offset as usize;
+                        node_index = left_child(&node_items[index], &level_bounds[level - 1])?;
                     }
                 }
             }
-- 
2.43.0


From 27935461d4348b7cb29ef7b2d6f7716502372b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:39 +0000
Subject: [PATCH 24/46] fix: the largest date-time key of an index is the
 largest date-time

Keys after 9999-12-31T23:59:59.999999999Z were left out of every range without an upper bound.
---
 src/rust/fcb_core/src/static_btree/key.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index e85ef44..7533ee7 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -1,6 +1,6 @@
 use crate::static_btree::error::{Error, Result};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
-use chrono::{DateTime, TimeZone, Utc};
+use chrono::{DateTime, Utc};
 use ordered_float::OrderedFloat; // Import OrderedFloat
 use std::fmt::Debug;
 use std::io::{Read, Write};
@@ -158,10 +158,7 @@ impl Max for bool {
 // Implement Max for DateTime<Utc>
 impl Max for DateTime<Utc> {
     fn max_value() -> Self {
-        // A date far in the future (year 9999)
-        Utc.timestamp_opt(253402300799, 999_999_999)
-            .single()
-            .unwrap()
+        DateTime::<Utc>::MAX_UTC
     }
 }
 
-- 
2.43.0


From e40d48bb2ea6039fe99d5dd42576b9dca34f9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:01 +0000
Subject: [PATCH 25/46] fix: a B+tree index loaded without its payload section
 refuses lookups that need it

It returned the tagged reference to the payload as if it were an offset.
---
 src/rust/fcb_core/src/static_btree/stree.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index a8a0595..7619cee 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -766,10 +766,8 @@ impl<K: Key> Stree<K> {
         // Read any remaining bytes as payload data
         let mut payload = Vec::new();
         data.read_to_end(&mut payload)?;
-        if !payload.is_empty() {
-            tree.payload_data = payload;
-            tree.payload_initialized = true;
-        }
+        tree.payload_data = payload;
+        tree.payload_initialized = true;
         Ok(tree)
     }
 
-- 
2.43.0


From 9758828308d549a936749857e77916c2a109edce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 26/46] fix: ser keeps its diagnostics out of the file written
 to standard output

---
 src/rust/cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index a8e25e7..f3f874a 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -253,7 +253,7 @@ fn serialize(
         geographical_extent: geo_extent,
     };
 
-    println!("header_options in cli: {:?}", header_options);
+    eprintln!("header_options in cli: {:?}", header_options);
 
     let mut fcb = FcbWriter::new(cj, Some(header_options), attr_schema, semantic_attr_schema)?;
 
-- 
2.43.0


From e3c83c40572dbe0a5730607328474a4292f0497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 27/46] fix: deser reports a read failure instead of ending the
 output there

---
 src/rust/cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index f3f874a..79c36f6 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -391,7 +391,7 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
     // Write features
     let feat_count = header.features_count();
     let mut feat_num = 0;
-    while let Ok(Some(feat_buf)) = fcb_reader.next() {
+    while let Some(feat_buf) = fcb_reader.next()? {
         let feature = feat_buf.cur_cj_feature()?;
         writeln!(writer, "{}", serde_json::to_string(&feature)?)?;
 
-- 
2.43.0


From 1e5a8613eeef04886eb5530ae1aa760511352654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 28/46] fix: deser, cbor and bson report failures of the last
 writes

---
 src/rust/cli/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 79c36f6..329ea45 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -400,6 +400,7 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
             break;
         }
     }
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("Successfully decoded to CityJSON");
@@ -409,15 +410,16 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
 
 fn encode_cbor(input: &str, output: &str) -> Result<(), Error> {
     let reader = BufReader::new(get_reader(input)?);
-    let writer = BufWriter::new(get_writer(output)?);
+    let mut writer = BufWriter::new(get_writer(output)?);
 
     let value: serde_json::Value = serde_json::from_reader(reader)?;
-    serde_cbor::to_writer(writer, &value).map_err(|e| {
+    serde_cbor::to_writer(&mut writer, &value).map_err(|e| {
         Error::IoError(std::io::Error::new(
             std::io::ErrorKind::Other,
             format!("failed to encode to cbor: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to cbor");
@@ -449,6 +451,7 @@ fn encode_bson(input: &str, output: &str) -> Result<(), Error> {
             format!("failed to encode to bson: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to bson");
-- 
2.43.0


From 01376be170499a22f7d40c0a9cb0218db7b4e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 29/46] fix: ser keeps the semantic attributes of geometry
 templates

---
 src/rust/cli/src/main.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 329ea45..29ba3fb 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -188,17 +188,20 @@ fn serialize(
 
     let semantic_attr_schema = {
         let mut schema = AttributeSchema::new();
-        for feature in filtered_features.iter() {
-            for (_, co) in feature.city_objects.iter() {
-                if let Some(geometry) = &co.geometry {
-                    for geom in geometry.iter() {
-                        if let Some(semantics) = geom.semantics.as_ref() {
-                            for sem_obj in semantics.surfaces.iter() {
-                                if let Some(other) = &sem_obj.other {
-                                    schema.add_attributes(other);
-                                }
-                            }
-                        }
+        let feature_geometries = filtered_features
+            .iter()
+            .flat_map(|feature| feature.city_objects.values())
+            .filter_map(|co| co.geometry.as_ref())
+            .flatten();
+        let template_geometries = cj
+            .geometry_templates
+            .iter()
+            .flat_map(|t| t.templates.iter());
+        for geom in feature_geometries.chain(template_geometries) {
+            if let Some(semantics) = geom.semantics.as_ref() {
+                for sem_obj in semantics.surfaces.iter() {
+                    if let Some(other) = &sem_obj.other {
+                        schema.add_attributes(other);
                     }
                 }
             }
-- 
2.43.0


From 2c35479329890a22435d27703a0881896a68afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 30/46] fix: ser keeps semantic attributes whose values differ
 in type

---
 src/rust/cli/src/main.rs                  |  1 +
 src/rust/fcb_core/src/writer/attribute.rs | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 29ba3fb..1f6829d 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -202,6 +202,7 @@ fn serialize(
                 for sem_obj in semantics.surfaces.iter() {
                     if let Some(other) = &sem_obj.other {
                         schema.add_attributes(other);
+                        schema.widen_attributes(other);
                     }
                 }
             }
diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index d1df6ed..a7a8fd9 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -10,6 +10,9 @@ pub type AttributeSchema = HashMap<String, (u16, ColumnType)>;
 
 pub trait AttributeSchemaMethods {
     fn add_attributes(&mut self, attrs: &Value);
+
+    /// Turns the columns whose type cannot hold their value in `attrs` into JSON columns.
+    fn widen_attributes(&mut self, attrs: &Value);
 }
 
 impl AttributeSchemaMethods for AttributeSchema {
@@ -28,6 +31,16 @@ impl AttributeSchemaMethods for AttributeSchema {
             }
         }
     }
+
+    fn widen_attributes(&mut self, attrs: &Value) {
+        for (key, val) in attrs.as_object().into_iter().flatten() {
+            if let Some((_, coltype)) = self.get_mut(key) {
+                if !val.is_null() && !fits(coltype, val) {
+                    *coltype = ColumnType::Json;
+                }
+            }
+        }
+    }
 }
 
 /// Naive type-guessing. You could use your schema or logic as in your Python code.
-- 
2.43.0


From 3b87eab23c0b74403636939a7d3dd470b0de5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 31/46] fix: ser indexes attributes that first appear after a
 thousand features

---
 src/rust/cli/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 1f6829d..f5b9694 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -171,8 +171,14 @@ fn serialize(
 
     let attr_schema = {
         let mut schema = AttributeSchema::new();
-        // Limit to max 1000 features for schema building to have faster build time
-        for feature in filtered_features.iter().take(1000) {
+        // Limit to max 1000 features for schema building to have faster build time, unless
+        // attributes are indexed: they need a column wherever they first appear
+        let limit = if index_all_attributes.unwrap_or(false) || attr_index.is_some() {
+            filtered_features.len()
+        } else {
+            1000
+        };
+        for feature in filtered_features.iter().take(limit) {
             for (_, co) in feature.city_objects.iter() {
                 if let Some(attributes) = &co.attributes {
                     schema.add_attributes(attributes);
-- 
2.43.0


From 6c35b708f87cd5168ad6c40522be409b6045d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 32/46] fix: the bytes of a written file do not depend on the
 hash seed

---
 src/rust/fcb_core/src/writer/attr_index.rs   | 4 ++--
 src/rust/fcb_core/src/writer/attribute.rs    | 3 ++-
 src/rust/fcb_core/src/writer/geom_encoder.rs | 6 ++++--
 src/rust/fcb_core/src/writer/mod.rs          | 8 ++++++++
 src/rust/fcb_core/src/writer/serializer.rs   | 8 ++++----
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index 398d4cd..2bf42de 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -9,7 +9,7 @@ use ordered_float::OrderedFloat;
 use super::{
     attribute::{AttributeIndexEntry, AttributeSchema},
     serializer::AttributeIndexInfo,
-    AttributeFeatureOffset,
+    sorted_by_key, AttributeFeatureOffset,
 };
 
 fn build_index_generic<T, F>(
@@ -24,7 +24,7 @@ where
 {
     let mut entries: Vec<Entry<T>> = Vec::new();
 
-    for feature in attribute_entries.values() {
+    for (_, feature) in sorted_by_key(attribute_entries) {
         for entry in &feature.index_entries {
             let Some(key) = extract(entry) else {
                 continue;
diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index a7a8fd9..b769349 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -1,3 +1,4 @@
+use super::sorted_by_key;
 use crate::fb::ColumnType;
 use byteorder::{ByteOrder, LittleEndian};
 use chrono::{DateTime, Utc};
@@ -252,7 +253,7 @@ pub fn cityfeature_to_index_entries(
     indexing_attr: &[String],
 ) -> Vec<AttributeIndexEntry> {
     let mut index_entries = Vec::new();
-    for object in cityfeature.city_objects.values() {
+    for (_, object) in sorted_by_key(&cityfeature.city_objects) {
         if let Some(attr) = &object.attributes {
             let attr_index_entries = attribute_to_index_entries(attr, schema, indexing_attr);
             index_entries.extend(attr_index_entries);
diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index abdf070..7879031 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -6,6 +6,8 @@ use cjseq::{
 };
 use std::collections::HashMap;
 
+use super::sorted_by_key;
+
 #[derive(Debug, Clone, Default)]
 pub(crate) struct GMBoundaries {
     pub(crate) solids: Vec<u32>,   // Number of shells per solid
@@ -113,7 +115,7 @@ pub(crate) fn encode_material(
     materials: &HashMap<String, CjMaterialReference>,
 ) -> Vec<MaterialMapping> {
     let mut material_mappings = Vec::new();
-    for (theme, material) in materials {
+    for (theme, material) in sorted_by_key(materials) {
         if let Some(value) = material.value {
             // Handle single material value
             let mapping = MaterialMapping::Value(MaterialValue {
@@ -196,7 +198,7 @@ pub(crate) fn encode_texture(
 ) -> Vec<TextureMapping> {
     let mut texture_mappings = Vec::new();
 
-    for (theme, texture) in texture_map {
+    for (theme, texture) in sorted_by_key(texture_map) {
         let mut texture_mapping = TextureMapping {
             theme: theme.clone(),
             solids: Vec::new(),
diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index fd19789..cd93d9a 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -18,6 +18,14 @@ pub mod feature_writer;
 pub mod geom_encoder;
 pub mod header_writer;
 pub mod serializer;
+
+/// The entries of a map in the order of their keys, which does not depend on the hash seed.
+fn sorted_by_key<K: Ord, V>(map: &HashMap<K, V>) -> Vec<(&K, &V)> {
+    let mut entries: Vec<_> = map.iter().collect();
+    entries.sort_by_key(|(key, _)| *key);
+    entries
+}
+
 /// Main writer for FlatCityBuf (FCB) format
 ///
 /// FcbWriter handles the serialization of CityJSON data into the FCB binary format.
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 75a6d66..8b232d8 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -32,6 +32,7 @@ use serde_json::Value;
 
 use super::geom_encoder::{GMBoundaries, GMSemantics, MaterialMapping as GMMaterialMapping};
 use super::header_writer::HeaderWriterOptions;
+use super::sorted_by_key;
 use crate::error::Result;
 
 #[derive(Debug, Clone)]
@@ -87,7 +88,7 @@ pub(super) fn to_fcb_header<'a>(
     // Handle extensions, if present
     let extensions = if let Some(extensions) = &cj.extensions {
         let mut extension_files = Vec::new();
-        for (name, ext) in extensions.iter() {
+        for (name, ext) in sorted_by_key(extensions) {
             let extension_file = ext.fetch_extension_file(name.clone())?;
             extension_files.push(extension_file);
         }
@@ -421,9 +422,8 @@ pub(super) fn to_fcb_city_feature<'a>(
     semantic_attr_schema: Option<&AttributeSchema>,
 ) -> (flatbuffers::WIPOffset<CityFeature<'a>>, NodeItem) {
     let id = Some(fbb.create_string(id));
-    let city_objects: Vec<_> = city_feature
-        .city_objects
-        .iter()
+    let city_objects: Vec<_> = sorted_by_key(&city_feature.city_objects)
+        .into_iter()
         .map(|(id, co)| to_city_object(fbb, id, co, attr_schema, semantic_attr_schema))
         .collect();
     let objects = Some(fbb.create_vector(&city_objects));
-- 
2.43.0


From 5f2d002e919588cc2d9842d5bd6e667af92529b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 33/46] fix: ser builds the same schema whatever the hash seed

---
 src/rust/cli/src/main.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index f5b9694..ada9aea 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -1,4 +1,4 @@
-use cjseq::{CityJSON, CityJSONFeature, Transform as CjTransform};
+use cjseq::{CityJSON, CityJSONFeature, CityObject, Transform as CjTransform};
 use clap::{Parser, Subcommand};
 use fcb_core::error::Error;
 use fcb_core::{
@@ -179,7 +179,7 @@ fn serialize(
             1000
         };
         for feature in filtered_features.iter().take(limit) {
-            for (_, co) in feature.city_objects.iter() {
+            for co in sorted_city_objects(feature) {
                 if let Some(attributes) = &co.attributes {
                     schema.add_attributes(attributes);
                 }
@@ -196,7 +196,7 @@ fn serialize(
         let mut schema = AttributeSchema::new();
         let feature_geometries = filtered_features
             .iter()
-            .flat_map(|feature| feature.city_objects.values())
+            .flat_map(sorted_city_objects)
             .filter_map(|co| co.geometry.as_ref())
             .flatten();
         let template_geometries = cj
@@ -279,6 +279,14 @@ fn serialize(
     Ok(())
 }
 
+/// The city objects of a feature in the order of their ids, so that the schema does not depend on
+/// the hash seed
+fn sorted_city_objects(feature: &CityJSONFeature) -> Vec<&CityObject> {
+    let mut objects: Vec<_> = feature.city_objects.iter().collect();
+    objects.sort_by_key(|(id, _)| *id);
+    objects.into_iter().map(|(_, co)| co).collect()
+}
+
 /// Parse a bounding box string in format "minx,miny,maxx,maxy"
 fn parse_bbox(bbox_str: &str) -> Result<[f64; 4], String> {
     let parts: Vec<&str> = bbox_str.split(',').collect();
-- 
2.43.0


From 3cd5977ce4770f012a07c341e55e1d50beab345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 34/46] fix: keep the names of object and surface types the
 format has no value for

---
 src/rust/fcb_core/src/writer/serializer.rs | 35 ++++++++--------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 8b232d8..ffe5dfa 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -698,17 +698,7 @@ pub(super) fn to_city_object<'a>(
 ///
 /// * `co_type` - String representation of CityJSON object type
 pub(super) fn to_co_type(co_type: &str) -> (CityObjectType, Option<String>) {
-    // If it starts with a '+', it's an extension type
-    let extension_type = if co_type.starts_with('+') {
-        Some(co_type.to_string())
-    } else {
-        None
-    };
-
-    let obj_type = if extension_type.is_some() {
-        // If an extension type, use ExtensionObject
-        CityObjectType::ExtensionObject
-    } else {
+    let obj_type = {
         match co_type {
             "Bridge" => CityObjectType::Bridge,
             "BridgePart" => CityObjectType::BridgePart,
@@ -743,10 +733,14 @@ pub(super) fn to_co_type(co_type: &str) -> (CityObjectType, Option<String>) {
             "TunnelFurniture" => CityObjectType::TunnelFurniture,
             "WaterBody" => CityObjectType::WaterBody,
             "GenericCityObject" => CityObjectType::GenericCityObject,
-            _ => CityObjectType::GenericCityObject,
+            // the type of an extension, which starts with '+', or another type without an enum value
+            _ => CityObjectType::ExtensionObject,
         }
     };
 
+    // a type without an enum value is kept by its name
+    let extension_type = (obj_type == CityObjectType::ExtensionObject).then(|| co_type.to_string());
+
     (obj_type, extension_type)
 }
 
@@ -774,15 +768,6 @@ pub(super) fn to_geom_type(geometry_type: &CjGeometryType) -> GeometryType {
 ///
 /// * `ss_type` - String representation of semantic surface type
 pub(super) fn to_semantic_surface_type(ss_type: &str) -> (SemanticSurfaceType, Option<String>) {
-    // Handle extension types (starting with +)
-    if ss_type.starts_with('+') {
-        return (
-            SemanticSurfaceType::ExtraSemanticSurface,
-            Some(ss_type.to_string()),
-        );
-    }
-
-    // Handle standard surface types
     let surface_type = match ss_type {
         "RoofSurface" => SemanticSurfaceType::RoofSurface,
         "GroundSurface" => SemanticSurfaceType::GroundSurface,
@@ -802,11 +787,15 @@ pub(super) fn to_semantic_surface_type(ss_type: &str) -> (SemanticSurfaceType, O
         "AuxiliaryTrafficArea" => SemanticSurfaceType::AuxiliaryTrafficArea,
         "TransportationMarking" => SemanticSurfaceType::TransportationMarking,
         "TransportationHole" => SemanticSurfaceType::TransportationHole,
+        // the type of an extension, which starts with '+', or another type without an enum value
         _ => SemanticSurfaceType::ExtraSemanticSurface,
     };
 
-    // Standard types don't have extension_type
-    (surface_type, None)
+    // a type without an enum value is kept by its name
+    let extension_type =
+        (surface_type == SemanticSurfaceType::ExtraSemanticSurface).then(|| ss_type.to_string());
+
+    (surface_type, extension_type)
 }
 
 /// Converts CityJSON geometry to FlatBuffers format
-- 
2.43.0


From a3bbe523e0569e0d5f91a1286cd24ebc1176c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 35/46] fix: keep a reference system code which is not an
 integer

---
 src/rust/fcb_core/src/reader/deserializer.rs |  3 ++-
 src/rust/fcb_core/src/writer/serializer.rs   | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 00d1448..bcad157 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -58,7 +58,8 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
             None,
             rs.authority().unwrap_or_default().to_string(),
             rs.version().to_string(),
-            rs.code().to_string(),
+            rs.code_string()
+                .map_or_else(|| rs.code().to_string(), |code| code.to_string()),
         )
     });
     cj.version = header.version().to_string();
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index ffe5dfa..48fde4a 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -280,12 +280,14 @@ pub(super) fn to_reference_system<'a>(
         log::debug!("failed to parse version: {}", e);
         0
     });
-    let code = ref_system.code.parse::<i32>().unwrap_or_else(|e| {
-        log::debug!("failed to parse code: {}", e);
-        0
-    });
-
-    let code_string = None; // TODO: implement code_string
+    // a code which is not an integer is stored as text
+    let code = ref_system.code.parse::<i32>().ok();
+    let code = code.filter(|code| code.to_string() == ref_system.code);
+    let code_string = match code {
+        Some(_) => None,
+        None => Some(fbb.create_string(&ref_system.code)),
+    };
+    let code = code.unwrap_or(0);
 
     ReferenceSystem::create(
         fbb,
-- 
2.43.0


From 1bc07f36fc994ba55e1f723571894ad5d9e3fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 36/46] fix: do not round integers in a column of doubles

---
 src/rust/fcb_core/src/writer/attribute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index b769349..34ca75c 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -87,7 +87,12 @@ pub(crate) fn fits(coltype: &ColumnType, val: &Value) -> bool {
         ColumnType::UShort => unsigned(u16::MAX as u64),
         ColumnType::UInt => unsigned(u32::MAX as u64),
         ColumnType::ULong => val.is_u64(),
-        ColumnType::Float | ColumnType::Double => val.is_number(),
+        ColumnType::Float => val.is_number(),
+        // not an integer which would be rounded
+        ColumnType::Double => val.as_f64().is_some_and(|f| {
+            val.as_i64().is_none_or(|i| f as i128 == i as i128)
+                && val.as_u64().is_none_or(|u| f as i128 == u as i128)
+        }),
         ColumnType::String | ColumnType::DateTime | ColumnType::Binary => val.is_string(),
         ColumnType::Json => true,
         _ => false,
-- 
2.43.0


From d621f467584046c4d35ce50429467c823e214153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 37/46] fix: keep semantics readable when a shell or solid has
 null instead of values

---
 src/rust/fcb_core/src/writer/geom_encoder.rs | 56 ++++++++++++++++++++
 src/rust/fcb_core/src/writer/serializer.rs   | 12 ++++-
 2 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index 7879031..4d95353 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -407,6 +407,62 @@ pub(crate) fn encode_semantics(semantics: &CjSemantics) -> GMSemantics {
     }
 }
 
+/// Gives each surface of a solid a semantic value where a shell or solid has null instead of
+/// values, because the boundaries tell which values belong to which shell.
+///
+/// # Arguments
+///
+/// * `semantics` - Reference to the CityJSON Semantics object
+/// * `boundaries` - Reference to the boundaries of the geometry
+/// * `levels` - Levels of arrays of the semantic values for this type of geometry
+pub(crate) fn fill_semantics(
+    semantics: &CjSemantics,
+    boundaries: &CjBoundaries,
+    levels: usize,
+) -> CjSemantics {
+    fn fill(
+        values: Option<&CjSemanticsValues>,
+        boundaries: &CjBoundaries,
+        levels: usize,
+    ) -> CjSemanticsValues {
+        let values = values.filter(|values| match values {
+            CjSemanticsValues::Indices(values) => !values.is_empty(),
+            CjSemanticsValues::Nested(values) => !values.is_empty(),
+        });
+        match (values, boundaries) {
+            (None, CjBoundaries::Nested(members)) if levels == 1 => {
+                CjSemanticsValues::Indices(vec![None; members.len()])
+            }
+            (None, CjBoundaries::Nested(members)) => CjSemanticsValues::Nested(
+                members
+                    .iter()
+                    .map(|member| fill(None, member, levels - 1))
+                    .collect(),
+            ),
+            (Some(CjSemanticsValues::Nested(values)), CjBoundaries::Nested(members))
+                if levels > 1 =>
+            {
+                CjSemanticsValues::Nested(
+                    values
+                        .iter()
+                        .zip(members)
+                        .map(|(values, member)| fill(Some(values), member, levels - 1))
+                        .collect(),
+                )
+            }
+            (Some(values), _) => values.clone(),
+            (None, CjBoundaries::Indices(_)) => CjSemanticsValues::Indices(Vec::new()),
+        }
+    }
+    CjSemantics {
+        values: match levels {
+            1 => semantics.values.clone(),
+            _ => fill(Some(&semantics.values), boundaries, levels),
+        },
+        surfaces: semantics.surfaces.clone(),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 48fde4a..9de2110 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -10,7 +10,7 @@ use crate::fb::{
 use crate::fb::{
     GeographicalExtent, Header, HeaderArgs, ReferenceSystem, ReferenceSystemArgs, Transform, Vector,
 };
-use crate::geom_encoder::encode;
+use crate::geom_encoder::{encode, fill_semantics};
 use crate::{
     AttributeIndex, Column, ColumnArgs, DoubleVertex, Extension, ExtensionArgs, GeometryInstance,
     GeometryInstanceArgs, MaterialMapping, MaterialMappingArgs, TextureFormat, TextureMapping,
@@ -814,9 +814,17 @@ pub(crate) fn to_geometry<'a>(
     let type_ = to_geom_type(&geometry.thetype);
     let lod = geometry.lod.as_ref().map(|lod| fbb.create_string(lod));
 
+    let semantics = geometry.semantics.as_ref().map(|semantics| {
+        let levels = match geometry.thetype {
+            CjGeometryType::Solid => 2,
+            CjGeometryType::MultiSolid | CjGeometryType::CompositeSolid => 3,
+            _ => 1,
+        };
+        fill_semantics(semantics, &geometry.boundaries, levels)
+    });
     let encoded = encode(
         &geometry.boundaries,
-        geometry.semantics.as_ref(),
+        semantics.as_ref(),
         geometry.texture.as_ref(),
         geometry.material.as_ref(),
     );
-- 
2.43.0


From 27b590a80c589a3daa9760046405740359247a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 38/46] fix: refuse input the format cannot hold instead of
 panicking or altering it

---
 src/rust/fcb_core/src/writer/mod.rs      |   3 +
 src/rust/fcb_core/src/writer/validate.rs | 181 +++++++++++++++++++++++
 2 files changed, 184 insertions(+)
 create mode 100644 src/rust/fcb_core/src/writer/validate.rs

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index cd93d9a..93f7de5 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -18,6 +18,7 @@ pub mod feature_writer;
 pub mod geom_encoder;
 pub mod header_writer;
 pub mod serializer;
+mod validate;
 
 /// The entries of a map in the order of their keys, which does not depend on the hash seed.
 fn sorted_by_key<K: Ord, V>(map: &HashMap<K, V>) -> Vec<(&K, &V)> {
@@ -74,6 +75,7 @@ impl<'a> FcbWriter<'a> {
         attr_schema: Option<AttributeSchema>,
         semantic_attr_schema: Option<AttributeSchema>,
     ) -> Result<Self> {
+        validate::check_header(&cj)?;
         let attr_schema = attr_schema.unwrap_or_default();
 
         let transform = cj.transform.clone();
@@ -157,6 +159,7 @@ impl<'a> FcbWriter<'a> {
     ///
     /// A Result indicating success or failure of the operation
     pub fn add_feature(&mut self, feature: &'a CityJSONFeature) -> Result<()> {
+        validate::check_feature(feature)?;
         if self.feat_writer.is_none() {
             self.feat_writer = Some(FeatureWriter::new(
                 feature,
diff --git a/src/rust/fcb_core/src/writer/validate.rs b/src/rust/fcb_core/src/writer/validate.rs
new file mode 100644
index 0000000..4d1237a
--- /dev/null
+++ b/src/rust/fcb_core/src/writer/validate.rs
@@ -0,0 +1,181 @@
+//! Checks of the input before anything of it is stored: what the format cannot hold is refused.
+
+use super::error::Error;
+use cjseq::{
+    Boundaries as CjBoundaries, CityJSON, CityJSONFeature, Geometry as CjGeometry,
+    GeometryType as CjGeometryType, NestedArray,
+};
+
+type Result<T> = std::result::Result<T, Error>;
+
+/// Checks that a header can be stored as it is.
+pub(super) fn check_header(cj: &CityJSON) -> Result<()> {
+    if cj.transform.scale.len() != 3 || cj.transform.translate.len() != 3 {
+        return Err(Error::invalid_geometry("a transform needs three axes"));
+    }
+    for template in cj.geometry_templates.iter().flat_map(|t| &t.templates) {
+        if template.thetype == CjGeometryType::GeometryInstance {
+            return Err(Error::invalid_geometry(
+                "a geometry template cannot be an instance of a template",
+            ));
+        }
+        check_geometry(template)?;
+    }
+    Ok(())
+}
+
+/// Checks that a feature can be stored as it is.
+pub(super) fn check_feature(feature: &CityJSONFeature) -> Result<()> {
+    check_parts(feature).map_err(|err| match err {
+        Error::InvalidGeometry { msg } => {
+            Error::invalid_geometry(format!("feature {}: {msg}", feature.id))
+        }
+        err => err,
+    })
+}
+
+fn check_parts(feature: &CityJSONFeature) -> Result<()> {
+    for vertex in &feature.vertices {
+        if vertex.len() != 3 || vertex.iter().any(|&v| i32::try_from(v).is_err()) {
+            return Err(Error::invalid_geometry(format!(
+                "vertex {vertex:?} is not three 32-bit integers"
+            )));
+        }
+    }
+    for (id, object) in &feature.city_objects {
+        if let Some(attributes) = &object.attributes {
+            if !attributes.is_object() && !attributes.is_null() {
+                return Err(Error::invalid_attribute_name(format!(
+                    "the attributes of {id} are not an object"
+                )));
+            }
+        }
+        for geometry in object.geometry.iter().flatten() {
+            if geometry.thetype == CjGeometryType::GeometryInstance {
+                check_instance(geometry)?;
+            } else {
+                check_geometry(geometry)?;
+            }
+        }
+    }
+    Ok(())
+}
+
+fn check_instance(geometry: &CjGeometry) -> Result<()> {
+    let template = geometry.template.map(u32::try_from);
+    if !matches!(template, Some(Ok(_))) || geometry.transformation_matrix.is_none() {
+        return Err(Error::invalid_geometry(
+            "a geometry instance needs a template and a transformation matrix",
+        ));
+    }
+    if !matches!(&geometry.boundaries, CjBoundaries::Indices(indices) if indices.len() == 1) {
+        return Err(Error::invalid_geometry(
+            "the boundaries of a geometry instance are not one vertex",
+        ));
+    }
+    Ok(())
+}
+
+fn check_geometry(geometry: &CjGeometry) -> Result<()> {
+    // the levels of arrays of the boundaries, and of the values of surfaces
+    let (levels, value_levels) = match geometry.thetype {
+        CjGeometryType::MultiPoint => (1, 1),
+        CjGeometryType::MultiLineString => (2, 1),
+        CjGeometryType::Solid => (4, 2),
+        CjGeometryType::MultiSolid | CjGeometryType::CompositeSolid => (5, 3),
+        _ => (3, 1),
+    };
+    let refused = |what: &str| {
+        Err(Error::invalid_geometry(format!(
+            "the {what} of a {:?} cannot be stored",
+            geometry.thetype
+        )))
+    };
+    // u32::MAX stands for an absent value
+    let storable = |value: &usize| *value < u32::MAX as usize;
+
+    if !is_nested(&geometry.boundaries, levels) {
+        return refused("boundaries");
+    }
+    if let Some(semantics) = &geometry.semantics {
+        let values = &semantics.values;
+        // the boundaries tell which values belong to which shell
+        let fits = match value_levels {
+            1 => is_nested(values, 1),
+            _ => have_members(values, &geometry.boundaries, value_levels),
+        };
+        if !fits || !all(values, &|value| *value != Some(u32::MAX)) {
+            return refused("semantics");
+        }
+    }
+    for material in geometry.material.iter().flat_map(|themes| themes.values()) {
+        let fits = match (&material.value, &material.values) {
+            (Some(_), Some(_)) => false,
+            (value, None) => value.iter().all(storable),
+            (None, Some(values)) => {
+                is_nested(values, value_levels) && all(values, &|value| value.iter().all(storable))
+            }
+        };
+        if !fits {
+            return refused("materials");
+        }
+    }
+    for texture in geometry.texture.iter().flat_map(|themes| themes.values()) {
+        let values = &texture.values;
+        if !is_nested(values, levels) || !all(values, &|value| value.iter().all(storable)) {
+            return refused("textures");
+        }
+    }
+    Ok(())
+}
+
+fn members<T>(array: &NestedArray<T>) -> usize {
+    match array {
+        NestedArray::Indices(values) => values.len(),
+        NestedArray::Nested(arrays) => arrays.len(),
+    }
+}
+
+/// Whether the array is empty, or has values below exactly this many levels of arrays, of which
+/// only the innermost may be empty.
+fn is_nested<T>(array: &NestedArray<T>, levels: usize) -> bool {
+    fn has_levels<T>(array: &NestedArray<T>, levels: usize) -> bool {
+        match array {
+            NestedArray::Indices(_) => levels == 1,
+            NestedArray::Nested(arrays) => {
+                levels > 1
+                    && !arrays.is_empty()
+                    && arrays.iter().all(|array| has_levels(array, levels - 1))
+            }
+        }
+    }
+    members(array) == 0 || has_levels(array, levels)
+}
+
+/// Whether the values have the members of the outer levels of the boundaries, or none.
+fn have_members<T>(values: &NestedArray<T>, boundaries: &CjBoundaries, levels: usize) -> bool {
+    if members(values) == 0 {
+        return true;
+    }
+    if members(values) != members(boundaries) {
+        return false;
+    }
+    match (values, boundaries) {
+        (NestedArray::Indices(_), _) => levels == 1,
+        (NestedArray::Nested(values), NestedArray::Nested(boundaries)) => {
+            levels > 1
+                && values
+                    .iter()
+                    .zip(boundaries)
+                    .all(|(values, boundaries)| have_members(values, boundaries, levels - 1))
+        }
+        _ => false,
+    }
+}
+
+fn all<T>(array: &NestedArray<T>, check: &dyn Fn(&T) -> bool) -> bool {
+    match array {
+        NestedArray::Indices(values) => values.iter().all(check),
+        NestedArray::Nested(arrays) => arrays.iter().all(|array| all(array, check)),
+    }
+}
-- 
2.43.0


From 607d1cb3d71d67212a0261ab90e97e5379a89dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 39/46] fix: keep semantics whose only shells or solids are
 null

---
 src/rust/fcb_core/src/writer/geom_encoder.rs | 4 ++++
 src/rust/fcb_core/src/writer/validate.rs     | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index 4d95353..738145d 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -450,6 +450,10 @@ pub(crate) fn fill_semantics(
                         .collect(),
                 )
             }
+            // nulls for shells or solids, not for surfaces
+            (Some(CjSemanticsValues::Indices(_)), CjBoundaries::Nested(_)) if levels > 1 => {
+                fill(None, boundaries, levels)
+            }
             (Some(values), _) => values.clone(),
             (None, CjBoundaries::Indices(_)) => CjSemanticsValues::Indices(Vec::new()),
         }
diff --git a/src/rust/fcb_core/src/writer/validate.rs b/src/rust/fcb_core/src/writer/validate.rs
index 4d1237a..e895962 100644
--- a/src/rust/fcb_core/src/writer/validate.rs
+++ b/src/rust/fcb_core/src/writer/validate.rs
@@ -3,7 +3,7 @@
 use super::error::Error;
 use cjseq::{
     Boundaries as CjBoundaries, CityJSON, CityJSONFeature, Geometry as CjGeometry,
-    GeometryType as CjGeometryType, NestedArray,
+    GeometryType as CjGeometryType, NestedArray, SemanticsValues as CjSemanticsValues,
 };
 
 type Result<T> = std::result::Result<T, Error>;
@@ -153,7 +153,7 @@ fn is_nested<T>(array: &NestedArray<T>, levels: usize) -> bool {
 }
 
 /// Whether the values have the members of the outer levels of the boundaries, or none.
-fn have_members<T>(values: &NestedArray<T>, boundaries: &CjBoundaries, levels: usize) -> bool {
+fn have_members(values: &CjSemanticsValues, boundaries: &CjBoundaries, levels: usize) -> bool {
     if members(values) == 0 {
         return true;
     }
@@ -161,7 +161,8 @@ fn have_members<T>(values: &NestedArray<T>, boundaries: &CjBoundaries, levels: u
         return false;
     }
     match (values, boundaries) {
-        (NestedArray::Indices(_), _) => levels == 1,
+        // above the values of the surfaces, a null stands for a shell or solid without values
+        (NestedArray::Indices(_), _) => levels == 1 || all(values, &|value| value.is_none()),
         (NestedArray::Nested(values), NestedArray::Nested(boundaries)) => {
             levels > 1
                 && values
-- 
2.43.0


From 91280021979c987567b3fc3917704887c50dffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 40/46] fix: refuse a schema in which two attributes have the
 same column number

---
 src/rust/fcb_core/src/writer/mod.rs      |  4 ++++
 src/rust/fcb_core/src/writer/validate.rs | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 93f7de5..ea7e76e 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -77,6 +77,10 @@ impl<'a> FcbWriter<'a> {
     ) -> Result<Self> {
         validate::check_header(&cj)?;
         let attr_schema = attr_schema.unwrap_or_default();
+        validate::check_schema(&attr_schema)?;
+        if let Some(semantic_attr_schema) = &semantic_attr_schema {
+            validate::check_schema(semantic_attr_schema)?;
+        }
 
         let transform = cj.transform.clone();
         let header_writer = HeaderWriter::new(
diff --git a/src/rust/fcb_core/src/writer/validate.rs b/src/rust/fcb_core/src/writer/validate.rs
index e895962..f641adc 100644
--- a/src/rust/fcb_core/src/writer/validate.rs
+++ b/src/rust/fcb_core/src/writer/validate.rs
@@ -1,13 +1,29 @@
 //! Checks of the input before anything of it is stored: what the format cannot hold is refused.
 
+use super::attribute::AttributeSchema;
 use super::error::Error;
+use super::sorted_by_key;
 use cjseq::{
     Boundaries as CjBoundaries, CityJSON, CityJSONFeature, Geometry as CjGeometry,
     GeometryType as CjGeometryType, NestedArray, SemanticsValues as CjSemanticsValues,
 };
+use std::collections::HashMap;
 
 type Result<T> = std::result::Result<T, Error>;
 
+/// Checks that the columns of a schema can be told apart.
+pub(super) fn check_schema(schema: &AttributeSchema) -> Result<()> {
+    let mut names = HashMap::new();
+    for (name, (index, _)) in sorted_by_key(schema) {
+        if let Some(other) = names.insert(index, name) {
+            return Err(Error::invalid_attribute_name(format!(
+                "{other} and {name} are both column {index}"
+            )));
+        }
+    }
+    Ok(())
+}
+
 /// Checks that a header can be stored as it is.
 pub(super) fn check_header(cj: &CityJSON) -> Result<()> {
     if cj.transform.scale.len() != 3 || cj.transform.translate.len() != 3 {
-- 
2.43.0


From f6707de6246d30642d46f9126eff47886387fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 41/46] fix: browser reader: a failed or short fetch no longer
 panics, skips a feature or loses the position

---
 src/rust/wasm/src/lib.rs | 100 ++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 54 deletions(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 883f17d..22a2538 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -28,11 +28,10 @@ mod wasm {
         MAGIC_BYTES_SIZE,
     };
 
-    use std::fmt::Error;
     use std::result::Result;
     use std::sync::atomic::{AtomicBool, Ordering};
 
-    use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
+    use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient, HttpError};
 
     use fcb_core::packed_rtree::{
         http::HttpRange, http::HttpSearchResultItem, NodeItem, PackedRTree, Query as SpatialQuery,
@@ -47,6 +46,30 @@ mod wasm {
     // Static variable to track if logger has been initialized
     static LOGGER_INITIALIZED: AtomicBool = AtomicBool::new(false);
 
+    /// Get the bytes of a range, failing if the response ends before all of them have arrived
+    async fn get_exact<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        begin: usize,
+        length: usize,
+    ) -> Result<&[u8], HttpError> {
+        let bytes = client.get_range(begin, length).await?;
+        if bytes.len() < length {
+            return Err(HttpError::HttpError("unexpected end of file".to_string()));
+        }
+        Ok(bytes)
+    }
+
+    /// Get the size prefixed feature which starts at the given position
+    async fn get_feature<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        pos: usize,
+    ) -> Result<Bytes, HttpError> {
+        let mut feature_buffer = BytesMut::from(get_exact(client, pos, 4).await?);
+        let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
+        feature_buffer.put(get_exact(client, pos + 4, feature_size).await?);
+        Ok(feature_buffer.freeze())
+    }
+
     /// FlatCityBuf dataset HTTP reader
     #[wasm_bindgen]
     pub struct HttpFcbReader {
@@ -114,8 +137,7 @@ mod wasm {
             client.set_min_req_size(min_req_size);
             debug!("fetching header. min_req_size: {min_req_size} (assumed_header_size: {assumed_header_size}, prefetched_index_bytes: {prefetch_index_bytes})");
             let mut read_bytes = 0;
-            let bytes = client
-                .get_range(read_bytes, MAGIC_BYTES_SIZE)
+            let bytes = get_exact(&mut client, read_bytes, MAGIC_BYTES_SIZE)
                 .await
                 .map_err(|e| JsValue::from_str(&e.to_string()))?; // to get magic bytes
             if !check_magic_bytes(bytes) {
@@ -124,8 +146,7 @@ mod wasm {
 
             read_bytes += MAGIC_BYTES_SIZE;
             let mut bytes = BytesMut::from(
-                client
-                    .get_range(read_bytes, HEADER_SIZE_SIZE)
+                get_exact(&mut client, read_bytes, HEADER_SIZE_SIZE)
                     .await
                     .map_err(|e| JsValue::from_str(&e.to_string()))?,
             );
@@ -140,8 +161,7 @@ mod wasm {
             }
 
             bytes.put(
-                client
-                    .get_range(read_bytes, header_size)
+                get_exact(&mut client, read_bytes, header_size)
                     .await
                     .map_err(|e| JsValue::from_str(&e.to_string()))?,
             );
@@ -602,7 +622,7 @@ mod wasm {
         async fn next_feature_buffer<T: AsyncHttpRangeClient>(
             &mut self,
             client: &mut AsyncBufferedHttpRangeClient<T>,
-        ) -> Result<Option<Bytes>, Error> {
+        ) -> Result<Option<Bytes>, HttpError> {
             match self {
                 FeatureSelection::SelectAll(select_all) => select_all.next_buffer(client).await,
                 FeatureSelection::SelectSpatial(select_spatial) => {
@@ -625,27 +645,19 @@ mod wasm {
         async fn next_buffer<T: AsyncHttpRangeClient>(
             &mut self,
             client: &mut AsyncBufferedHttpRangeClient<T>,
-        ) -> Result<Option<Bytes>, Error> {
+        ) -> Result<Option<Bytes>, HttpError> {
             client.min_req_size(DEFAULT_HTTP_FETCH_SIZE);
 
             if self.features_left == 0 {
                 return Ok(None);
             }
-            self.features_left -= 1;
 
-            let mut feature_buffer =
-                BytesMut::from(client.get_range(self.pos, 4).await.map_err(|_| Error)?);
-            self.pos += 4;
-            let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-            feature_buffer.put(
-                client
-                    .get_range(self.pos, feature_size)
-                    .await
-                    .map_err(|_| Error)?,
-            );
-            self.pos += feature_size;
+            // a feature which could not be fetched is still left
+            let feature_buffer = get_feature(client, self.pos).await?;
+            self.features_left -= 1;
+            self.pos += feature_buffer.len();
 
-            Ok(Some(feature_buffer.freeze()))
+            Ok(Some(feature_buffer))
         }
     }
 
@@ -658,7 +670,7 @@ mod wasm {
         async fn next_buffer<T: AsyncHttpRangeClient>(
             &mut self,
             client: &mut AsyncBufferedHttpRangeClient<T>,
-        ) -> Result<Option<Bytes>, Error> {
+        ) -> Result<Option<Bytes>, HttpError> {
             let mut next_buffer = None;
             while next_buffer.is_none() {
                 let Some(feature_batch) = self.feature_batches.last_mut() else {
@@ -687,7 +699,7 @@ mod wasm {
         async fn make_batches(
             feature_ranges: Vec<HttpSearchResultItem>,
             combine_request_threshold: usize,
-        ) -> Result<Vec<Self>, Error> {
+        ) -> Result<Vec<Self>, HttpError> {
             let mut batched_ranges = vec![];
 
             for search_result_item in feature_ranges.into_iter() {
@@ -764,26 +776,18 @@ mod wasm {
         async fn next_buffer<T: AsyncHttpRangeClient>(
             &mut self,
             client: &mut AsyncBufferedHttpRangeClient<T>,
-        ) -> Result<Option<Bytes>, Error> {
+        ) -> Result<Option<Bytes>, HttpError> {
             let request_size = self.request_size();
             client.set_min_req_size(request_size);
-            let Some(feature_range) = self.feature_ranges.pop_front() else {
+            let Some(feature_range) = self.feature_ranges.front() else {
                 return Ok(None);
             };
 
-            let mut pos = feature_range.start();
-            let mut feature_buffer =
-                BytesMut::from(client.get_range(pos, 4).await.map_err(|_| Error)?);
-            pos += 4;
-            let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-            feature_buffer.put(
-                client
-                    .get_range(pos, feature_size)
-                    .await
-                    .map_err(|_| Error)?,
-            );
+            // a feature which could not be fetched is still to be delivered
+            let feature_buffer = get_feature(client, feature_range.start()).await?;
+            self.feature_ranges.pop_front();
 
-            Ok(Some(feature_buffer.freeze()))
+            Ok(Some(feature_buffer))
         }
     }
 
@@ -797,25 +801,13 @@ mod wasm {
         async fn next_buffer<T: AsyncHttpRangeClient>(
             &mut self,
             client: &mut AsyncBufferedHttpRangeClient<T>,
-        ) -> Result<Option<Bytes>, Error> {
+        ) -> Result<Option<Bytes>, HttpError> {
             let Some(range) = self.ranges.get(self.range_pos) else {
                 return Ok(None);
             };
-            let mut feature_buffer = BytesMut::from(
-                client
-                    .get_range(range.start(), 4)
-                    .await
-                    .map_err(|_| Error)?,
-            );
-            let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-            feature_buffer.put(
-                client
-                    .get_range(range.start() + 4, feature_size)
-                    .await
-                    .map_err(|_| Error)?,
-            );
+            let feature_buffer = get_feature(client, range.start()).await?;
             self.range_pos += 1;
-            Ok(Some(feature_buffer.freeze()))
+            Ok(Some(feature_buffer))
         }
     }
 
-- 
2.43.0


From 925dd6b69fd9286260c62d19c2aada75fd323fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 42/46] fix: browser reader: attribute queries deliver each
 feature once

---
 src/rust/wasm/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 22a2538..381c8a6 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -372,9 +372,8 @@ mod wasm {
                 .map_err(|e| JsValue::from_str(&format!("failed to query index: {:?}", e)))?;
 
             info!("result: {:?}", result);
-            let count = result.len();
 
-            let http_ranges: Vec<HttpRange> = result
+            let mut http_ranges: Vec<HttpRange> = result
                 .into_iter()
                 .map(|item| match item.range {
                     fcb_core::static_btree::http::HttpRange::Range(range) => {
@@ -385,6 +384,10 @@ mod wasm {
                     }
                 })
                 .collect();
+            // read the features in the order in which they are stored, each of them once
+            http_ranges.sort_by_key(|range| range.start());
+            http_ranges.dedup_by_key(|range| range.start());
+            let count = http_ranges.len();
 
             trace!(
                 "completed: select_attr_query via http reader, matched features: {}",
-- 
2.43.0


From a41616649eb502d3a33e75fef9642ed9a4dae7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 43/46] fix: browser reader: files with an index on a Long
 attribute can be queried

---
 src/rust/wasm/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 381c8a6..e95f6da 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -513,6 +513,16 @@ mod wasm {
                         );
                         multi_index.add_index(col.name().to_string(), index);
                     }
+                    ColumnType::Long => {
+                        let index = HttpIndex::<i64>::new(
+                            attr_info.num_unique_items() as usize,
+                            attr_info.branching_factor(),
+                            index_begin,
+                            feature_begin,
+                            combine_request_threshold,
+                        );
+                        multi_index.add_index(col.name().to_string(), index);
+                    }
                     ColumnType::ULong => {
                         let index = HttpIndex::<u64>::new(
                             attr_info.num_unique_items() as usize,
-- 
2.43.0


From 7181f8e562c074de1819fb4c7d2f253477a7cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 44/46] fix: browser reader: dates before 1970 keep their
 milliseconds in attribute queries

---
 src/rust/wasm/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index e95f6da..b9df44c 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -18,7 +18,7 @@ mod wasm {
 
     use byteorder::{ByteOrder, LittleEndian};
     use bytes::{BufMut, Bytes, BytesMut};
-    use chrono::{DateTime, NaiveDateTime, Utc};
+    use chrono::{DateTime, Utc};
     use fcb_core::city_buffer::FcbBuffer;
     use fcb_core::{
         build_query, check_magic_bytes,
@@ -1087,14 +1087,15 @@ mod wasm {
                     // If boolean then use Bool
                     KeyType::Bool(b)
                 } else if value_js.is_instance_of::<js_sys::Date>() {
-                    // If a JS Date, convert to milliseconds then to a NaiveDateTime.
+                    // If a JS Date, convert from milliseconds, which are negative before 1970.
                     let date: js_sys::Date = value_js.unchecked_into();
                     let millis = date.get_time();
-                    let secs = (millis / 1000.0) as i64;
-                    let nanos = ((millis % 1000.0) * 1_000_000.0) as u32;
-                    let ndt = NaiveDateTime::from_timestamp(secs, nanos);
-                    let dt = DateTime::<Utc>::from_utc(ndt, Utc);
-                    KeyType::DateTime(dt)
+                    let dt = if millis.is_nan() {
+                        None
+                    } else {
+                        DateTime::<Utc>::from_timestamp_millis(millis as i64)
+                    };
+                    KeyType::DateTime(dt.ok_or_else(|| JsValue::from_str("Invalid date"))?)
                 } else if let Some(n) = value_js.as_f64() {
                     // All JS numbers are f64.
                     KeyType::Float64(Float(n))
-- 
2.43.0


From c63dfadf5286cb352b2ac4591229a4ab33927a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 45/46] fix: browser reader: damaged indices are refused
 instead of panicking

---
 src/rust/fcb_core/src/reader/city_buffer.rs |  2 +-
 src/rust/wasm/src/lib.rs                    | 36 ++++++++++++---------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/city_buffer.rs b/src/rust/fcb_core/src/reader/city_buffer.rs
index 966d14e..57b0c1c 100644
--- a/src/rust/fcb_core/src/reader/city_buffer.rs
+++ b/src/rust/fcb_core/src/reader/city_buffer.rs
@@ -18,7 +18,7 @@ impl FcbBuffer {
     }
 
     /// Checks that the header describes indices which can exist
-    pub(crate) fn check_indices(&self) -> Result<(), Error> {
+    pub fn check_indices(&self) -> Result<(), Error> {
         let header = self.header();
         let feat_count = header.features_count();
         if header.index_node_size() == 1 {
diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index b9df44c..4608fa4 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -172,13 +172,13 @@ mod wasm {
             let header = size_prefixed_root_as_header(&header_buf)
                 .map_err(|e| JsValue::from_str(&e.to_string()))?;
             debug!("completed: opening http reader");
-            Ok(HttpFcbReader {
-                client,
-                fbs: FcbBuffer {
-                    header_buf,
-                    features_buf: Vec::new(),
-                },
-            })
+            let fbs = FcbBuffer {
+                header_buf,
+                features_buf: Vec::new(),
+            };
+            fbs.check_indices()
+                .map_err(|e| JsValue::from_str(&e.to_string()))?;
+            Ok(HttpFcbReader { client, fbs })
         }
 
         #[wasm_bindgen]
@@ -289,17 +289,19 @@ mod wasm {
                 header_len,
                 attr_index_size,
                 count,
-                PackedRTree::DEFAULT_NODE_SIZE,
+                header.index_node_size(),
                 inner_query,
                 combine_request_threshold,
             )
             .await
             .map_err(|e| JsValue::from_str(&e.to_string()))?;
-            debug_assert!(
-                list.windows(2)
-                    .all(|w| w[0].range.start() < w[1].range.start()),
-                "Since the tree is traversed breadth first, list should be sorted by construction."
-            );
+            // Since the tree is traversed breadth first, list should be sorted by construction.
+            if !list
+                .windows(2)
+                .all(|w| w[0].range.start() < w[1].range.start())
+            {
+                return Err(JsValue::from_str("features out of order"));
+            }
 
             let count = list.len();
             let feature_batches = FeatureBatch::make_batches(list, combine_request_threshold)
@@ -726,14 +728,18 @@ mod wasm {
                 let previous_item = latest_batch.back().expect("we never push an empty batch");
 
                 let HttpRange::Range(Range { end: prev_end, .. }) = previous_item else {
-                    debug_assert!(false, "This shouldn't happen. Only the very last feature is expected to have an unknown length");
+                    // This shouldn't happen, unless the index is damaged. Only the very last feature is
+                    // expected to have an unknown length.
                     let mut new_batch = VecDeque::new();
                     new_batch.push_back(search_result_item.range);
                     batched_ranges.push(new_batch);
                     continue;
                 };
 
-                let wasted_bytes = search_result_item.range.start() - prev_end;
+                let Some(wasted_bytes) = search_result_item.range.start().checked_sub(*prev_end)
+                else {
+                    return Err(HttpError::HttpError("features out of order".to_string()));
+                };
                 if wasted_bytes < combine_request_threshold {
                     if wasted_bytes == 0 {
                         trace!("adjacent feature");
-- 
2.43.0


From 0c8486ae29b08e7a17213a188e8fd448a41763ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 46/46] fix: Stree::from_http loads the payload section and
 reads nodes of their serialized size

---
 src/rust/fcb_core/src/static_btree/stree.rs | 26 +++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 7619cee..1fa9cd6 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -661,16 +661,38 @@ impl<K: Key> Stree<K> {
             self.branching_factor(),
             self.payload_size(),
         ); //read full index at once
+        let node_size = NodeItem::<K>::SERIALIZED_SIZE;
         let mut pos = index_begin;
         for i in 0..self.num_nodes() {
             let bytes = client
                 .min_req_size(min_req_size)
-                .get_range(pos, size_of::<NodeItem<K>>())
+                .get_range(pos, node_size)
                 .await?;
+            if bytes.len() < node_size {
+                return Err(unexpected_end());
+            }
             let n = NodeItem::from_bytes(bytes)?;
             self.node_items[i] = n;
-            pos += NodeItem::<K>::SERIALIZED_SIZE;
+            pos += node_size;
+        }
+
+        // the payload section follows the nodes and ends with its last entry
+        let leaves = &self.node_items[self.num_nodes() - self.num_leaf_nodes..];
+        let last_entry = leaves
+            .iter()
+            .filter(|leaf| (leaf.offset & PAYLOAD_TAG) != 0)
+            .map(|leaf| (leaf.offset & PAYLOAD_MASK) as usize)
+            .max();
+        if let Some(rel) = last_entry {
+            let entry = read_http_payload_data(client, pos + rel).await?;
+            let payload_size = rel + entry.serialized_size();
+            let bytes = client.get_range(pos, payload_size).await?;
+            if bytes.len() < payload_size {
+                return Err(unexpected_end());
+            }
+            self.payload_data = bytes.to_vec();
         }
+        self.payload_initialized = true;
         Ok(())
     }
 
-- 
2.43.0

