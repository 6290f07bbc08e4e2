From 6e45242b75656d89620dcb1df9f5c3e3250f92eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 01/21] fix: keep the numeric code of unknown enum values next
 to the last known one

---
 src/binary/blend_mode.rs            | 6 +++++-
 src/binary/chunks/cel.rs            | 6 +++++-
 src/binary/chunks/color_profile.rs  | 7 +++++--
 src/binary/chunks/external_files.rs | 6 +++++-
 src/binary/chunks/tags.rs           | 6 +++++-
 5 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/binary/blend_mode.rs b/src/binary/blend_mode.rs
index 99dcd07..f7c5ada 100644
--- a/src/binary/blend_mode.rs
+++ b/src/binary/blend_mode.rs
@@ -31,7 +31,11 @@ pub enum BlendMode {
 
 impl From<Word> for BlendMode {
     fn from(word: Word) -> Self {
-        BlendMode::from_repr(word.into()).unwrap_or(BlendMode::Unknown(word))
+        match BlendMode::from_repr(word.into()) {
+            // `Unknown` has a discriminant of its own
+            Some(BlendMode::Unknown(_)) | None => BlendMode::Unknown(word),
+            Some(blend_mode) => blend_mode,
+        }
     }
 }
 
diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index a30fa85..c43d3b7 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -42,7 +42,11 @@ enum CelType {
 
 impl From<Word> for CelType {
     fn from(word: Word) -> Self {
-        CelType::from_repr(word.into()).unwrap_or(Self::Unknown(word))
+        match CelType::from_repr(word.into()) {
+            // `Unknown` has a discriminant of its own
+            Some(Self::Unknown(_)) | None => Self::Unknown(word),
+            Some(cel_type) => cel_type,
+        }
     }
 }
 
diff --git a/src/binary/chunks/color_profile.rs b/src/binary/chunks/color_profile.rs
index 2b9a737..f8ffebd 100644
--- a/src/binary/chunks/color_profile.rs
+++ b/src/binary/chunks/color_profile.rs
@@ -41,8 +41,11 @@ pub enum ColorProfile<'a> {
 
 pub fn parse_color_profile(input: &[u8]) -> ParseResult<'_, ColorProfileChunk<'_>> {
     let (input, profile_type) = word(input)?;
-    let profile_type = ColorProfileType::from_repr(profile_type.into())
-        .unwrap_or(ColorProfileType::Unknown(profile_type));
+    let profile_type = match ColorProfileType::from_repr(profile_type.into()) {
+        // `Unknown` has a discriminant of its own
+        Some(ColorProfileType::Unknown(_)) | None => ColorProfileType::Unknown(profile_type),
+        Some(profile_type) => profile_type,
+    };
     let (input, flags) = word(input)?;
     let flags = ColorProfileFlags::from_bits_truncate(flags);
     let (input, fixed_gamma) = fixed(input)?;
diff --git a/src/binary/chunks/external_files.rs b/src/binary/chunks/external_files.rs
index c1e9dc6..e10cf7c 100644
--- a/src/binary/chunks/external_files.rs
+++ b/src/binary/chunks/external_files.rs
@@ -34,7 +34,11 @@ pub enum ExternalFileType {
 
 impl From<Byte> for ExternalFileType {
     fn from(byte: Byte) -> Self {
-        Self::from_repr(byte).unwrap_or(Self::Unknown(byte))
+        match Self::from_repr(byte) {
+            // `Unknown` has a discriminant of its own
+            Some(Self::Unknown(_)) | None => Self::Unknown(byte),
+            Some(file_type) => file_type,
+        }
     }
 }
 
diff --git a/src/binary/chunks/tags.rs b/src/binary/chunks/tags.rs
index a9dfbd1..08295d9 100644
--- a/src/binary/chunks/tags.rs
+++ b/src/binary/chunks/tags.rs
@@ -38,7 +38,11 @@ pub enum AnimationDirection {
 
 impl From<Byte> for AnimationDirection {
     fn from(byte: Byte) -> Self {
-        AnimationDirection::from_repr(byte.into()).unwrap_or(AnimationDirection::Unknown(byte))
+        match AnimationDirection::from_repr(byte.into()) {
+            // `Unknown` has a discriminant of its own
+            Some(AnimationDirection::Unknown(_)) | None => AnimationDirection::Unknown(byte),
+            Some(direction) => direction,
+        }
     }
 }
 
-- 
2.43.0


From d1df14c7ed2d36f6017369c761e08e0c26e7e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:34 +0000
Subject: [PATCH 02/21] fix: layer flag bits 16, 32 and 64 are decimal values

---
 src/binary/chunks/layer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/chunks/layer.rs b/src/binary/chunks/layer.rs
index 1847950..653e7a0 100644
--- a/src/binary/chunks/layer.rs
+++ b/src/binary/chunks/layer.rs
@@ -28,9 +28,9 @@ bitflags! {
         const EDITABLE = 0x2;
         const LOCK_MOVEMENT = 0x4;
         const BACKGROUND = 0x8;
-        const PREFER_LINKED_CELS = 0x16;
-        const COLLAPSED = 0x32;
-        const REFERENCE = 0x64;
+        const PREFER_LINKED_CELS = 0x10;
+        const COLLAPSED = 0x20;
+        const REFERENCE = 0x40;
     }
 }
 
-- 
2.43.0


From 70602dc0c3baab83890d1e99317648c54b930a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:36 +0000
Subject: [PATCH 03/21] fix: the X flip bitmask of a tilemap cel is stored
 before the Y flip bitmask

---
 src/binary/chunks/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index c43d3b7..9d86c41 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -121,8 +121,8 @@ pub fn parse_cel_chunk(input: &[u8]) -> ParseResult<'_, CelChunk<'_>> {
             let (input, height) = word(input)?;
             let (input, bits_per_tile) = word(input)?;
             let (input, bitmask_tile_id) = dword(input)?;
-            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_x_flip) = dword(input)?;
+            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_diagonal_flip) = dword(input)?;
             let (input, _) = take(10usize)(input)?;
             CelContent::CompressedTilemap {
-- 
2.43.0


From f311152ed352edfeaefaf5f55a199a32b9e69359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 04/21] fix: a palette chunk holds one entry per index of its
 range

---
 src/binary/chunks/palette.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/binary/chunks/palette.rs b/src/binary/chunks/palette.rs
index afcf108..4c3009c 100644
--- a/src/binary/chunks/palette.rs
+++ b/src/binary/chunks/palette.rs
@@ -6,9 +6,7 @@ use nom::{bytes::complete::take, combinator::cond, multi::count, Parser};
 use crate::binary::{
     errors::{ParseError, ParseResult},
     palette::PaletteError,
-    scalars::{
-        parse_color, parse_dword_as_u8, parse_dword_as_usize, parse_string, word, Color, Word,
-    },
+    scalars::{dword, parse_color, parse_dword_as_u8, parse_string, word, Color, Word},
 };
 
 #[derive(Debug)]
@@ -30,7 +28,7 @@ bitflags! {
 }
 
 pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
-    let (input, palette_size) = parse_dword_as_usize(input)?;
+    let (input, _palette_size) = dword(input)?;
     let (input, first_color_index) = parse_dword_as_u8(
         input,
         ParseError::PaletteError(PaletteError::FirstColorIndexOutOfBounds),
@@ -45,7 +43,10 @@ pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
         )));
     }
     let (input, _) = take(8usize)(input)?;
-    let (input, entries) = count(parse_palette_entry, palette_size).parse(input)?;
+    // The palette size is the total number of colors of the palette. Only the
+    // changed colors are part of this chunk.
+    let entry_count = usize::from(last_color_index - first_color_index) + 1;
+    let (input, entries) = count(parse_palette_entry, entry_count).parse(input)?;
     Ok((
         input,
         PaletteChunk {
-- 
2.43.0


From f7d4574a48e5d36e99f486c010b8104a0e401c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 05/21] fix: reject a cel whose layer index equals the layer
 count

---
 src/binary/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/file.rs b/src/binary/file.rs
index 153018a..fa6de72 100644
--- a/src/binary/file.rs
+++ b/src/binary/file.rs
@@ -104,7 +104,7 @@ pub fn parse_file(input: &[u8]) -> Result<File<'_>, nom::Err<ParseError<'_>>> {
                     }
                     for cel in frame_cels {
                         let layer_index: usize = cel.layer_index.into();
-                        if layer_index > layers.len() {
+                        if layer_index >= layers.len() {
                             return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                         }
                         cels[layer_index] = Some(cel);
-- 
2.43.0


From 25fcf63f9a8a10095e4c41518a2f0d6ea4853118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:12 +0000
Subject: [PATCH 06/21] fix: user data properties with a size below 8 no longer
 panic

---
 src/binary/chunks/user_data.rs | 12 ++++++++++--
 src/binary/errors.rs           |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 102e94b..6b7eab7 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -144,8 +144,16 @@ pub fn parse_properties_maps(
 ) -> ParseResult<'_, ParseResult<'_, Vec<PropertiesMap<'_>>>> {
     let (input, size_maps) = parse_dword_as_usize(input)?;
     let (input, num_maps) = parse_dword_as_usize(input)?;
-    // FIXME handle underflows
-    let (input, input_maps) = take(size_maps - 8)(input)?;
+    // The size includes the size and the number of maps
+    let Some(size) = size_maps.checked_sub(8) else {
+        return Ok((
+            input,
+            Err(nom::Err::Failure(ParseError::InvalidPropertiesSize(
+                size_maps,
+            ))),
+        ));
+    };
+    let (input, input_maps) = take(size)(input)?;
     Ok((
         input,
         count(parse_properties_map, num_maps).parse(input_maps),
diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index ce6dced..c3308ad 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -17,6 +17,9 @@ pub enum ParseError<'a> {
     InvalidFrameSize(Dword),
     /// This variant is used when the chunk size is <4
     InvalidChunkSize(Dword),
+    /// This variant is used when the size of the user data
+    /// properties is <8
+    InvalidPropertiesSize(usize),
     /// This variant is used when a string does not contain
     /// valid UTF-8 data and `str::from_utf8` returned an error.
     Utf8Error(Utf8Error),
-- 
2.43.0


From e9ad910ed253c9aa1e128cfce15ae80ea732cdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:14 +0000
Subject: [PATCH 07/21] fix: nested properties maps have no extension entry ID

---
 src/binary/chunks/user_data.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 6b7eab7..3a84eea 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -162,12 +162,25 @@ pub fn parse_properties_maps(
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, extension_entry_id) = dword(input)?;
+    let (input, properties_map) = parse_nested_properties_map(input)?;
+    Ok((
+        input,
+        PropertiesMap {
+            extension_entry_id,
+            ..properties_map
+        },
+    ))
+}
+
+/// A properties map which is the value of a property. Unlike the maps at the
+/// top level it has no extension entry ID.
+fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, num_props) = parse_dword_as_usize(input)?;
     let (input, properties) = count(parse_property, num_props).parse(input)?;
     Ok((
         input,
         PropertiesMap {
-            extension_entry_id,
+            extension_entry_id: 0,
             properties,
         },
     ))
@@ -203,7 +216,7 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
         PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
         PropertyType::PropertiesMap => {
-            map(parse_properties_map, Value::PropertiesMap).parse(input)?
+            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
         }
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
@@ -243,7 +256,7 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
             map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
         }
         PropertyType::PropertiesMap => map(
-            count(parse_properties_map, len_elements),
+            count(parse_nested_properties_map, len_elements),
             Vector::PropertiesMap,
         )
         .parse(input)?,
-- 
2.43.0


From 418fedc94e09df50f3ddbf23942d4eeeac0a1b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:15 +0000
Subject: [PATCH 08/21] fix: report a chunk size below 4 as an invalid chunk
 size

---
 src/binary/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunk.rs b/src/binary/chunk.rs
index 516b23b..01ae2a7 100644
--- a/src/binary/chunk.rs
+++ b/src/binary/chunk.rs
@@ -44,7 +44,7 @@ pub fn parse_chunks(input: &[u8], chunk_count: usize) -> ParseResult<'_, Vec<Chu
 }
 
 pub fn parse_chunk(input: &[u8]) -> ParseResult<'_, Chunk<'_>> {
-    let (input, size) = dword_size(input, ParseError::InvalidFrameSize)?;
+    let (input, size) = dword_size(input, ParseError::InvalidChunkSize)?;
     // FIXME handle underflows
     let (rest, input) = take(size - 4)(input)?;
     let (chunk_data, chunk_type) = parse_chunk_type(input)?;
-- 
2.43.0


From 122c613f4d466737e14221454a0aa43170a18d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 09/21] fix: limit the nesting depth of user data properties

---
 src/binary/chunks/user_data.rs | 70 +++++++++++++++++++++++++++-------
 src/binary/errors.rs           |  3 ++
 2 files changed, 60 insertions(+), 13 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 3a84eea..813f259 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -27,6 +27,10 @@ bitflags! {
     }
 }
 
+/// Vectors and maps nested deeper than this are rejected as parsing them
+/// could exhaust the stack.
+const MAX_DEPTH: usize = 64;
+
 #[derive(Debug)]
 pub struct UserDataChunk<'a> {
     pub text: Option<&'a str>,
@@ -162,7 +166,7 @@ pub fn parse_properties_maps(
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, extension_entry_id) = dword(input)?;
-    let (input, properties_map) = parse_nested_properties_map(input)?;
+    let (input, properties_map) = parse_nested_properties_map(input, 0)?;
     Ok((
         input,
         PropertiesMap {
@@ -174,9 +178,10 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
 
 /// A properties map which is the value of a property. Unlike the maps at the
 /// top level it has no extension entry ID.
-fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
+fn parse_nested_properties_map(input: &[u8], depth: usize) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, num_props) = parse_dword_as_usize(input)?;
-    let (input, properties) = count(parse_property, num_props).parse(input)?;
+    let (input, properties) =
+        count(|input| parse_property_at(input, depth), num_props).parse(input)?;
     Ok((
         input,
         PropertiesMap {
@@ -187,12 +192,20 @@ fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_
 }
 
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
+    parse_property_at(input, 0)
+}
+
+fn parse_property_at(input: &[u8], depth: usize) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
-    let (input, value) = parse_value(input)?;
+    let (input, value) = parse_value_at(input, depth)?;
     Ok((input, Property { name, value }))
 }
 
 pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
+    parse_value_at(input, 0)
+}
+
+fn parse_value_at(input: &[u8], depth: usize) -> ParseResult<'_, Value<'_>> {
     let (input, prop_type) = word(input)?;
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -214,19 +227,42 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Point => map(parse_point, Value::Point).parse(input)?,
         PropertyType::Size => map(parse_size, Value::Size).parse(input)?,
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
-        PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
+        PropertyType::Vector => {
+            map(|input| parse_vector_at(input, depth + 1), Value::Vector).parse(input)?
+        }
         PropertyType::PropertiesMap => {
-            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
+            check_depth(depth + 1)?;
+            map(
+                |input| parse_nested_properties_map(input, depth + 1),
+                Value::PropertiesMap,
+            )
+            .parse(input)?
         }
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
 }
 
+fn check_depth<'a>(depth: usize) -> Result<(), nom::Err<ParseError<'a>>> {
+    if depth > MAX_DEPTH {
+        return Err(nom::Err::Failure(ParseError::PropertiesNestedTooDeep));
+    }
+    Ok(())
+}
+
 pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
+    parse_vector_at(input, 0)
+}
+
+fn parse_vector_at(input: &[u8], depth: usize) -> ParseResult<'_, Vector<'_>> {
+    check_depth(depth)?;
     let (input, len_elements) = parse_dword_as_usize(input)?;
     let (input, prop_type) = word(input)?;
     if prop_type == 0 {
-        return map(count(parse_value, len_elements), Vector::Mixed).parse(input);
+        return map(
+            count(|input| parse_value_at(input, depth), len_elements),
+            Vector::Mixed,
+        )
+        .parse(input);
     }
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -252,14 +288,22 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
         PropertyType::Point => map(count(parse_point, len_elements), Vector::Point).parse(input)?,
         PropertyType::Size => map(count(parse_size, len_elements), Vector::Size).parse(input)?,
         PropertyType::Rect => map(count(parse_rect, len_elements), Vector::Rect).parse(input)?,
-        PropertyType::Vector => {
-            map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
-        }
-        PropertyType::PropertiesMap => map(
-            count(parse_nested_properties_map, len_elements),
-            Vector::PropertiesMap,
+        PropertyType::Vector => map(
+            count(|input| parse_vector_at(input, depth + 1), len_elements),
+            Vector::Vector,
         )
         .parse(input)?,
+        PropertyType::PropertiesMap => {
+            check_depth(depth + 1)?;
+            map(
+                count(
+                    |input| parse_nested_properties_map(input, depth + 1),
+                    len_elements,
+                ),
+                Vector::PropertiesMap,
+            )
+            .parse(input)?
+        }
         PropertyType::Uuid => map(count(parse_uuid, len_elements), Vector::Uuid).parse(input)?,
     };
     Ok((input, vec))
diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index c3308ad..a6d3c1d 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -34,6 +34,9 @@ pub enum ParseError<'a> {
     /// This variant is used when a unsupported property
     /// type is found in the user data.
     InvalidPropertyType(Word),
+    /// This variant is used when the user data properties
+    /// contain too many levels of nested vectors and maps.
+    PropertiesNestedTooDeep,
     /// This variant is used when the nom combinators return
     /// an error.
     Nom(nom::error::Error<&'a [u8]>),
-- 
2.43.0


From ee58e157ad069af12c151a1f05c95d95665c4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:49 +0000
Subject: [PATCH 10/21] fix: the 6-bit colors of the old 0x0011 palette are
 scaled to 8 bits

---
 src/binary/palette.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/binary/palette.rs b/src/binary/palette.rs
index 1fe09d0..0d97127 100644
--- a/src/binary/palette.rs
+++ b/src/binary/palette.rs
@@ -52,7 +52,12 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0004_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0004_chunks, &mut palette)?;
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0004_chunks,
+            &mut palette,
+            |value| value,
+        )?;
         return Ok(palette);
     }
     let palette0011_chunks: Vec<_> = frames
@@ -68,7 +73,12 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0011_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0011_chunks, &mut palette)?;
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0011_chunks,
+            &mut palette,
+            scale_6bits_to_8bits,
+        )?;
         return Ok(palette);
     }
     Err(PaletteError::Missing)
@@ -97,10 +107,16 @@ fn process_palette_chunks(
     }
 }
 
+/// The colors of the 0x0011 palette chunk are in the range 0..=63
+fn scale_6bits_to_8bits(value: u8) -> u8 {
+    (value << 2) | (value >> 4)
+}
+
 fn process_old_palette_chunks(
     transparent_index: u8,
     chunks: &[&OldPaletteChunk],
     palette: &mut Palette,
+    scale: fn(u8) -> u8,
 ) -> Result<(), PaletteError> {
     let mut ok = false;
     for chunk in chunks.iter() {
@@ -112,9 +128,9 @@ fn process_old_palette_chunks(
             }
             for color in &packet.colors {
                 palette.colors[color_idx] = Color {
-                    red: color.red,
-                    green: color.green,
-                    blue: color.blue,
+                    red: scale(color.red),
+                    green: scale(color.green),
+                    blue: scale(color.blue),
                     alpha: 255,
                 };
                 color_idx += 1;
-- 
2.43.0


From 32c5197fe02e3d20e04e51054bff0af9998c1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 11/21] fix: render_frame reports image errors instead of
 panicking

---
 src/loader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 59c05fc..849354a 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -308,7 +308,7 @@ impl AsepriteFile<'_> {
             }
 
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
-            self.load_image(cel.image_index, &mut cel_target).unwrap();
+            self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
-- 
2.43.0


From 4adf9a90d4ab0ebeba7f81a2f9c6796041f2583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 12/21] fix: raw RGBA image data of the wrong length no longer
 panics

---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 849354a..ec859a4 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -359,7 +359,12 @@ impl AsepriteFile<'_> {
         }
         let target = &mut target[..target_size];
         match (self.file.header.color_depth, image.compressed) {
-            (ColorDepth::Rgba, false) => target.copy_from_slice(image.data),
+            (ColorDepth::Rgba, false) => {
+                if image.data.len() != target.len() {
+                    return Err(LoadImageError::InvalidImageData);
+                }
+                target.copy_from_slice(image.data);
+            }
             (ColorDepth::Rgba, true) => decompress(image.data, target)?,
             (ColorDepth::Grayscale, false) => {
                 grayscale_to_rgba(image.data, target)?;
-- 
2.43.0


From 677769db451ae73baceb98820982e33528ab7a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:53 +0000
Subject: [PATCH 13/21] fix: compressed images that are too short are an error

---
 src/loader/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index ec859a4..22d80a3 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -454,8 +454,13 @@ pub enum LoadImageError {
 /// The expected output size depends on color depth and dimensions.
 pub fn decompress(data: &[u8], target: &mut [u8]) -> Result<(), LoadImageError> {
     let mut decompressor = Decompress::new(true);
+    let target_size = target.len() as u64;
     match decompressor.decompress(data, target, flate2::FlushDecompress::Finish) {
         Ok(flate2::Status::Ok | flate2::Status::BufError) => Err(LoadImageError::DecompressError),
+        // The stream might end before the target is completely filled
+        Ok(flate2::Status::StreamEnd) if decompressor.total_out() < target_size => {
+            Err(LoadImageError::InvalidImageData)
+        }
         Ok(flate2::Status::StreamEnd) => Ok(()),
         Err(_) => Err(LoadImageError::DecompressError),
     }
-- 
2.43.0


From 14ab3505d594e7622114cd6c6988a110f3845e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:54 +0000
Subject: [PATCH 14/21] fix: unknown blend modes are an error instead of a
 panic

---
 src/loader/blend.rs | 8 ++++----
 src/loader/mod.rs   | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index fd99090..f368b1a 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -106,8 +106,8 @@ impl From<&[f64; 4]> for Color {
 }
 
 type BlendFn = fn(Color, Color, u8) -> Color;
-pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
-    match mode {
+pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> Option<BlendFn> {
+    Some(match mode {
         BlendMode::Normal => normal,
         BlendMode::Multiply => multiply,
         BlendMode::Screen => screen,
@@ -127,8 +127,8 @@ pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
         BlendMode::Addition => addition,
         BlendMode::Subtract => subtract,
         BlendMode::Divide => divide,
-        m => panic!("unimplemented blend mode: {:?}", m),
-    }
+        BlendMode::Unknown(_) => return None,
+    })
 }
 
 // --- addition ----------------------------------------------------------------
diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 22d80a3..d2ab7a9 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -311,7 +311,8 @@ impl AsepriteFile<'_> {
             self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
-            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
+            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
+                .ok_or(LoadImageError::UnsupportedBlendMode)?;
 
             for y in 0..cel.size.1 {
                 for x in 0..cel.size.0 {
@@ -441,6 +442,9 @@ pub enum LoadImageError {
     /// The file uses an unsupported color depth.
     #[error("unsupported color depth")]
     UnsupportedColorDepth,
+    /// A layer uses an unsupported blend mode.
+    #[error("unsupported blend mode")]
+    UnsupportedBlendMode,
     /// Zlib decompression failed.
     #[error("decompression failed")]
     DecompressError,
-- 
2.43.0


From a0f0cb183d7294cc1be312d907a7947e25db44db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:56 +0000
Subject: [PATCH 15/21] fix: soft light uses the blue channel of the source

---
 src/loader/blend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index f368b1a..cd8e4c1 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -269,7 +269,7 @@ fn soft_light(back: Color, front: Color, opacity: u8) -> Color {
 fn soft_light_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let r = blend_soft_light(back.r_i32(), front.r_i32());
     let g = blend_soft_light(back.g_i32(), front.g_i32());
-    let b = blend_soft_light(back.b_i32(), back.b_i32());
+    let b = blend_soft_light(back.b_i32(), front.b_i32());
 
     normal(back, Color::from(&[r, g, b, front.a_i32()]), opacity)
 }
-- 
2.43.0


From e58fe673dd82266d0a7e3a8bccd7b2bd67e9bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:34 +0000
Subject: [PATCH 16/21] fix: the HSL blend modes work on channels scaled to
 0..1

---
 src/loader/blend.rs | 48 ++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index cd8e4c1..df13ebe 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -26,16 +26,13 @@ impl Color {
         self.a.into()
     }
     fn r_f64(&self) -> f64 {
-        self.r.into()
+        f64::from(self.r) / 255.0
     }
     fn g_f64(&self) -> f64 {
-        self.g.into()
+        f64::from(self.g) / 255.0
     }
     fn b_f64(&self) -> f64 {
-        self.b.into()
-    }
-    fn a_f64(&self) -> f64 {
-        self.a.into()
+        f64::from(self.b) / 255.0
     }
 }
 
@@ -85,23 +82,15 @@ impl From<&[i32; 4]> for Color {
     }
 }
 
-impl From<&[f64]> for Color {
-    fn from(value: &[f64]) -> Self {
-        debug_assert!(value.len() == 4);
-        Self::from(
-            [
-                (value[0] * 255.0) as i32,
-                (value[1] * 255.0) as i32,
-                (value[2] * 255.0) as i32,
-                (value[3] * 255.0) as i32,
-            ]
-            .as_slice(),
-        )
-    }
-}
-impl From<&[f64; 4]> for Color {
-    fn from(value: &[f64; 4]) -> Self {
-        Self::from(value.as_ref())
+impl Color {
+    /// The channels are in the range 0.0..=1.0 except for rounding errors
+    fn from_f64(r: f64, g: f64, b: f64, a: u8) -> Self {
+        Self {
+            r: (r * 255.0) as u8,
+            g: (g * 255.0) as u8,
+            b: (b * 255.0) as u8,
+            a,
+        }
     }
 }
 
@@ -176,7 +165,7 @@ fn hsl_hue_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let (r, g, b) = set_saturation(front.r_f64(), front.g_f64(), front.b_f64(), sat);
     let (r, g, b) = set_luminocity(r, g, b, lum);
 
-    normal(back, Color::from(&[r, g, b, front.a_f64()]), opacity)
+    normal(back, Color::from_f64(r, g, b, front.a), opacity)
 }
 
 // --- hsl_saturation ----------------------------------------------------------
@@ -191,7 +180,7 @@ fn hsl_saturation_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let (r, g, b) = set_saturation(back.r_f64(), back.g_f64(), back.b_f64(), sat);
     let (r, g, b) = set_luminocity(r, g, b, lum);
 
-    normal(back, Color::from(&[r, g, b, front.a_f64()]), opacity)
+    normal(back, Color::from_f64(r, g, b, front.a), opacity)
 }
 
 // --- hsl_color ---------------------------------------------------------------
@@ -202,7 +191,7 @@ fn hsl_color(back: Color, front: Color, opacity: u8) -> Color {
 fn hsl_color_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let lum = luminosity(back.r_f64(), back.g_f64(), back.b_f64());
     let (r, g, b) = set_luminocity(front.r_f64(), front.g_f64(), front.b_f64(), lum);
-    normal(back, Color::from(&[r, g, b, front.a_f64()]), opacity)
+    normal(back, Color::from_f64(r, g, b, front.a), opacity)
 }
 
 // --- hsl_luminosity ----------------------------------------------------------
@@ -214,7 +203,7 @@ fn hsl_luminosity_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let lum = luminosity(front.r_f64(), front.g_f64(), front.b_f64());
     let (r, g, b) = set_luminocity(back.r_f64(), back.g_f64(), back.b_f64(), lum);
 
-    normal(back, Color::from(&[r, g, b, front.a_f64()]), opacity)
+    normal(back, Color::from_f64(r, g, b, front.a), opacity)
 }
 
 // --- exclusion ----------------------------------------------------------------
@@ -516,13 +505,14 @@ fn clip_color(mut r: f64, mut g: f64, mut b: f64) -> (f64, f64, f64) {
     let min = r.min(g.min(b));
     let max = r.max(g.max(b));
 
-    if min < 0.0 {
+    // `lum` only fails to be inside of the range due to rounding errors
+    if min < 0.0 && lum > min {
         r = lum + (((r - lum) * lum) / (lum - min));
         g = lum + (((g - lum) * lum) / (lum - min));
         b = lum + (((b - lum) * lum) / (lum - min));
     }
 
-    if max > 1.0 {
+    if max > 1.0 && max > lum {
         r = lum + (((r - lum) * (1.0 - lum)) / (max - lum));
         g = lum + (((g - lum) * (1.0 - lum)) / (max - lum));
         b = lum + (((b - lum) * (1.0 - lum)) / (max - lum));
-- 
2.43.0


From fcf9651d52b48b1f4ad304fa6502a3875aa2831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 17/21] fix: the layer opacity is only valid if the header says
 so

---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index d2ab7a9..3633267 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -131,6 +131,7 @@ impl AsepriteFile<'_> {
         let file = parse_file(data).map_err(|e| LoadSpriteError::Parse {
             message: e.to_string(),
         })?;
+        let layer_opacity_valid = file.header.flags & 1 != 0;
         let layers: Vec<_> = file
             .layers
             .iter()
@@ -138,7 +139,11 @@ impl AsepriteFile<'_> {
                 if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
                     Some(Layer {
                         name: layer.name.to_string(),
-                        opacity: layer.opacity,
+                        opacity: if layer_opacity_valid {
+                            layer.opacity
+                        } else {
+                            255
+                        },
                         blend_mode: layer.blend_mode,
                         visible: layer.flags.contains(LayerFlags::VISIBLE),
                         layer_type: layer.layer_type,
-- 
2.43.0


From 87f1f3b39241da5e8635612337ff64fbab6914ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 18/21] fix: layers inside of a hidden group are not visible

---
 src/loader/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 3633267..7be89b0 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -96,7 +96,8 @@ pub struct Layer {
     pub opacity: u8,
     /// Layer blend mode.
     pub blend_mode: BlendMode,
-    /// Whether the layer is visible in the source file.
+    /// Whether the layer and all groups containing it are visible in the
+    /// source file.
     pub visible: bool,
     /// Layer kind (normal/group/etc).
     pub layer_type: LayerType,
@@ -132,10 +133,18 @@ impl AsepriteFile<'_> {
             message: e.to_string(),
         })?;
         let layer_opacity_valid = file.header.flags & 1 != 0;
+        // Child level and visibility of the groups enclosing the current layer
+        let mut groups: Vec<(u16, bool)> = Vec::new();
         let layers: Vec<_> = file
             .layers
             .iter()
             .filter_map(|layer| {
+                groups.retain(|(child_level, _)| *child_level < layer.child_level);
+                let visible = layer.flags.contains(LayerFlags::VISIBLE)
+                    && groups.iter().all(|(_, visible)| *visible);
+                if layer.layer_type == LayerType::Group {
+                    groups.push((layer.child_level, visible));
+                }
                 if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
                     Some(Layer {
                         name: layer.name.to_string(),
@@ -145,7 +154,7 @@ impl AsepriteFile<'_> {
                             255
                         },
                         blend_mode: layer.blend_mode,
-                        visible: layer.flags.contains(LayerFlags::VISIBLE),
+                        visible,
                         layer_type: layer.layer_type,
                     })
                 } else {
-- 
2.43.0


From 0dbbccd62dfdbf7e88f9d539f93a6ad6a69af0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:35 +0000
Subject: [PATCH 19/21] fix: the layer index of a cel selects the listed layer

---
 src/loader/mod.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 7be89b0..b2bc3f7 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -126,6 +126,11 @@ impl LayerSelection {
     }
 }
 
+/// Only normal and group layers are part of [`AsepriteFile::layers`]
+fn is_listed(layer_type: LayerType) -> bool {
+    layer_type == LayerType::Normal || layer_type == LayerType::Group
+}
+
 impl AsepriteFile<'_> {
     /// Load a aseprite file from a byte slice
     pub fn load(data: &[u8]) -> Result<AsepriteFile<'_>, LoadSpriteError> {
@@ -145,7 +150,7 @@ impl AsepriteFile<'_> {
                 if layer.layer_type == LayerType::Group {
                     groups.push((layer.child_level, visible));
                 }
-                if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
+                if is_listed(layer.layer_type) {
                     Some(Layer {
                         name: layer.name.to_string(),
                         opacity: if layer_opacity_valid {
@@ -163,6 +168,19 @@ impl AsepriteFile<'_> {
             })
             .collect();
 
+        // Index into `layers` for every layer in the file
+        let mut layer_count = 0;
+        let layer_indices: Vec<Option<usize>> = file
+            .layers
+            .iter()
+            .map(|layer| {
+                is_listed(layer.layer_type).then(|| {
+                    layer_count += 1;
+                    layer_count - 1
+                })
+            })
+            .collect();
+
         let mut image_vec: Vec<Image<'_>> = Vec::new();
         let mut image_map: HashMap<(usize, usize), usize> = HashMap::new();
 
@@ -213,10 +231,13 @@ impl AsepriteFile<'_> {
                 };
                 let width = image_vec[image_index].width;
                 let height = image_vec[image_index].height;
+                let Some(layer_index) = layer_indices[usize::from(cel.layer_index)] else {
+                    continue;
+                };
                 cels.push(FrameCel {
                     origin: (cel.x, cel.y),
                     size: (width, height),
-                    layer_index: cel.layer_index.into(),
+                    layer_index,
                     image_index,
                 });
             }
-- 
2.43.0


From 1b8ba65c9e886c086994a18a327be4d235e1e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:38 +0000
Subject: [PATCH 20/21] fix: rendering takes the opacity of the cels into
 account

---
 src/loader/blend.rs |  2 +-
 src/loader/mod.rs   | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index df13ebe..6948464 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -433,7 +433,7 @@ where
     normal(back, Color::new(r, g, b, front.a), opacity)
 }
 
-fn mul8(a: i32, b: i32) -> u8 {
+pub(crate) fn mul8(a: i32, b: i32) -> u8 {
     let t = a * b + 0x80;
     let r = ((t >> 8) + t) >> 8;
     r as u8
diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index b2bc3f7..9e84dd3 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -26,7 +26,7 @@ use crate::{
         image::Image,
         palette::Palette,
     },
-    loader::blend::{blend_mode_to_blend_fn, Color},
+    loader::blend::{blend_mode_to_blend_fn, mul8, Color},
 };
 
 /// This can be used to load an Aseprite file.
@@ -53,6 +53,8 @@ pub struct FrameCel {
     pub origin: (i16, i16),
     /// Cel size in pixels `(width, height)`.
     pub size: (u16, u16),
+    /// Cel opacity in the range `0..=255`.
+    pub opacity: u8,
     /// Index into [`AsepriteFile::layers`].
     pub layer_index: usize,
     /// Index into [`AsepriteFile::images`].
@@ -237,6 +239,7 @@ impl AsepriteFile<'_> {
                 cels.push(FrameCel {
                     origin: (cel.x, cel.y),
                     size: (width, height),
+                    opacity: cel.opacity,
                     layer_index,
                     image_index,
                 });
@@ -309,7 +312,14 @@ impl AsepriteFile<'_> {
         let mut hasher = DefaultHasher::new();
         let frame = &self.frames[frame_index];
         for cel in frame.cels.iter() {
-            (cel.image_index, cel.layer_index, cel.origin, cel.size).hash(&mut hasher);
+            (
+                cel.image_index,
+                cel.layer_index,
+                cel.origin,
+                cel.size,
+                cel.opacity,
+            )
+                .hash(&mut hasher);
         }
         Ok(hasher.finish())
     }
@@ -348,6 +358,7 @@ impl AsepriteFile<'_> {
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
                 .ok_or(LoadImageError::UnsupportedBlendMode)?;
+            let opacity = mul8(layer.opacity.into(), cel.opacity.into());
 
             for y in 0..cel.size.1 {
                 for x in 0..cel.size.0 {
@@ -374,7 +385,7 @@ impl AsepriteFile<'_> {
 
                     let back = Color::from(&*target_pixel);
                     let front = Color::from(cel_pixel);
-                    let out = blend_fn(back, front, layer.opacity);
+                    let out = blend_fn(back, front, opacity);
 
                     target_pixel[0] = out.r;
                     target_pixel[1] = out.g;
-- 
2.43.0


From ef1046c0d88e8dab24ea6c309c0c56fc76750a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 21/21] fix: rendering takes the z-index of the cels into
 account

---
 src/loader/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 9e84dd3..80a50f3 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -70,7 +70,7 @@ pub struct Frame {
     pub duration: u16,
     /// Frame origin in sprite coordinates.
     pub origin: (i16, i16),
-    /// Cels in this frame.
+    /// Cels in this frame from back to front.
     pub cels: Vec<FrameCel>,
 }
 
@@ -214,7 +214,13 @@ impl AsepriteFile<'_> {
 
         for (index, frame) in file.frames.iter().enumerate() {
             let mut cels: Vec<FrameCel> = Vec::new();
-            for cel in frame.cels.iter().filter_map(|x| x.as_ref()) {
+            let mut frame_cels: Vec<_> = frame.cels.iter().filter_map(|x| x.as_ref()).collect();
+            // The z-index moves a cel this many layers to the front or back
+            frame_cels.sort_by_key(|cel| {
+                let z_index = i32::from(cel.z_index);
+                (i32::from(cel.layer_index) + z_index, z_index)
+            });
+            for cel in frame_cels {
                 let image_index = match cel.content {
                     CelContent::Image(_) => image_map[&(index, cel.layer_index.into())],
                     CelContent::LinkedCel { frame_position } => *image_map
-- 
2.43.0

