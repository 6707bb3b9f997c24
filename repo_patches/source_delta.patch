From 8c63dfcbdf576c0c8e5ea9fb0a3c4d51ba7aef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 01/14] fix: read the item variation store of a glyph
 definition from its own offset

---
 src/tables/glyph_definition/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/mod.rs b/src/tables/glyph_definition/mod.rs
index ae7c79d..1a9db68 100644
--- a/src/tables/glyph_definition/mod.rs
+++ b/src/tables/glyph_definition/mod.rs
@@ -74,7 +74,7 @@ table! {
             jump_take_maybe!(
                 tape,
                 position,
-                field!(this.header => mark_offset(0), Header::{Version13})
+                field!(this.header => variation_offset(0), Header::{Version13})
             )
         },
     }
-- 
2.43.0


From 8dd5ae39686e0057ad016a9e436e99bb685c0354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 02/14] fix: take the format of a ligature caret as a 16-bit
 number

---
 src/tables/glyph_definition/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/element.rs b/src/tables/glyph_definition/element.rs
index 4eb5990..3e2f77b 100644
--- a/src/tables/glyph_definition/element.rs
+++ b/src/tables/glyph_definition/element.rs
@@ -132,7 +132,7 @@ table! {
 
 impl crate::value::Read for Caret {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
-        Ok(match tape.peek::<u32>()? {
+        Ok(match tape.peek::<u16>()? {
             1 => Self::Format1(tape.take()?),
             2 => Self::Format2(tape.take()?),
             3 => Self::Format3(tape.take()?),
-- 
2.43.0


From 239cf201c47c4f38406bb4bbce699ea3c635ec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 03/14] fix: do not read past the deltas of a device correction

---
 src/layout/correction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/correction.rs b/src/layout/correction.rs
index 944959e..b6d8e8c 100644
--- a/src/layout/correction.rs
+++ b/src/layout/correction.rs
@@ -61,7 +61,7 @@ impl crate::value::Read for Device {
         }
         let count = (end_size - start_size) as usize + 1;
         let bit_count = (1 << format as usize) * count;
-        let short_count = (bit_count + 16 - bit_count % 16) >> 4;
+        let short_count = (bit_count + 15) >> 4;
         let deltas = tape.take_given(short_count)?;
         Ok(Device {
             start_size,
-- 
2.43.0


From ed282304759db07e67def52571fe3f5746e172be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 04/14] fix: avoid overflowing the size of the deltas of item
 variations

---
 src/variations/item.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 452679d..99a5203 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -30,8 +30,8 @@ table! {
         },
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
-            let per_item_count = this.short_delta_count + this.region_count;
-            tape.take_given(this.item_count as usize * per_item_count as usize)
+            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
+            tape.take_given(this.item_count as usize * per_item_count)
         },
     }
 }
-- 
2.43.0


From 85dfe261af09c7e133dbbf124623b82331924154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 05/14] fix: do not reserve memory for deltas of item
 variations that are not there

---
 src/variations/item.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 99a5203..ad310d5 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -31,7 +31,17 @@ table! {
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
             let per_item_count = this.short_delta_count as usize + this.region_count as usize;
-            tape.take_given(this.item_count as usize * per_item_count)
+            let count = this.item_count as usize * per_item_count;
+            // The count can be large, and it is not trusted until the data are seen.
+            let mut deltas = vec![];
+            std::io::Read::read_to_end(
+                &mut std::io::Read::take(&mut *tape, count as u64),
+                &mut deltas,
+            )?;
+            if deltas.len() != count {
+                return Err(std::io::ErrorKind::UnexpectedEof.into());
+            }
+            Ok(deltas)
         },
     }
 }
-- 
2.43.0


From eb45dc0e998d903873ee9aac6adc298577c7ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 06/14] fix: reject palettes that exceed the colors of a
 color-palette table

---
 src/tables/color_palettes.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/tables/color_palettes.rs b/src/tables/color_palettes.rs
index 481456e..bcf8d90 100644
--- a/src/tables/color_palettes.rs
+++ b/src/tables/color_palettes.rs
@@ -91,10 +91,26 @@ impl crate::value::Read for ColorPalettes {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
         let position = tape.position()?;
         let header = tape.take()?;
-        let (offset, count) = match header {
-            Header::Version0(ref header) => (header.color_offset, header.color_count as usize),
-            Header::Version1(ref header) => (header.color_offset, header.color_count as usize),
+        let (offset, count, entry_count, indices) = match header {
+            Header::Version0(ref header) => (
+                header.color_offset,
+                header.color_count as usize,
+                header.entry_count as usize,
+                &header.color_indices,
+            ),
+            Header::Version1(ref header) => (
+                header.color_offset,
+                header.color_count as usize,
+                header.entry_count as usize,
+                &header.color_indices,
+            ),
         };
+        if indices
+            .iter()
+            .any(|&index| index as usize + entry_count > count)
+        {
+            raise!("found a malformed color-palette table");
+        }
         let colors = jump_take_given!(@unwrap tape, position, offset, count);
         Ok(Self { header, colors })
     }
-- 
2.43.0


From 98162904b8f3e0ea47cf9209bbfcb4eeb9c215fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 07/14] fix: reject tables whose size cannot be rounded up when
 computing a checksum

---
 src/font.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index 026ca17..e1a93eb 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -36,7 +36,7 @@ impl Font {
         for record in &self.offsets.records {
             if record.tag == tag {
                 #[cfg(not(feature = "ignore-invalid-checksums"))]
-                if record.checksum != record.checksum(tape)? {
+                if record.size > u32::MAX - 3 || record.checksum != record.checksum(tape)? {
                     raise!("found a malformed font table with {:?}", record.tag);
                 }
                 Read::jump(tape, record.offset as u64)?;
-- 
2.43.0


From 8d6403be96a80e6bc53ea6f7be03660b3b9a05f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 08/14] fix: reject unknown formats of the reversed chained
 contextual substitution

---
 src/tables/glyph_substitution/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_substitution/mod.rs b/src/tables/glyph_substitution/mod.rs
index 77c06ff..45f4acd 100644
--- a/src/tables/glyph_substitution/mod.rs
+++ b/src/tables/glyph_substitution/mod.rs
@@ -147,7 +147,7 @@ table! {
     @position
     /// A reversed chained contextual substitution.
     pub ReverseChainedContextualSubstibution { // ReverseChainSingleSubstFormat1
-        format               (u16), // substFormat
+        format               (u16) = { 1 }, // substFormat
         coverage_offset      (u16), // coverageOffset
         backward_glyph_count (u16), // backtrackGlyphCount
 
-- 
2.43.0


From 0ff4f58d2c99d0c22ba3f51195759b29436d8208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 09/14] fix: reject unknown major versions of the
 font-variations table

---
 src/tables/font_variations/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 8a2ae59..bdb3ae6 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -19,7 +19,7 @@ table! {
     /// The header of a font-variations table.
     #[derive(Copy)]
     pub Header {
-        major_version  (u16), // majorVersion
+        major_version  (u16) = { 1 }, // majorVersion
         minor_version  (u16), // minorVersion
         axis_offset    (u16), // axesArrayOffset
         reserved       (u16) = { 2 }, // reserved
-- 
2.43.0


From 093c746372d35b1ba6921bb98e69a726e6fe8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 10/14] fix: read instances without a PostScript name in font
 variations

---
 src/tables/font_variations/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index bdb3ae6..8285d4b 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -84,7 +84,16 @@ impl crate::value::Read for FontVariations {
         let instance_records = (0..header.instance_count as u64)
             .map(|i| {
                 tape.jump(position + i * header.instance_size as u64)?;
-                tape.take_given(header.axis_count)
+                if header.instance_size as usize >= 4 * header.axis_count as usize + 6 {
+                    return tape.take_given(header.axis_count);
+                }
+                // The PostScript name identifier is optional.
+                Ok(InstanceRecord {
+                    subfamily_name_id: tape.take()?,
+                    flags: tape.take()?,
+                    coordinates: tape.take_given(header.axis_count as usize)?,
+                    postscript_name_id: NameID::from(0xFFFF),
+                })
             })
             .collect::<Result<Vec<_>>>()?;
         Ok(Self {
-- 
2.43.0


From ce598ec4a4a474cca64f36dc3bef20ca50836ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 11/14] fix: treat null offsets to context rule sets in format
 1 as empty sets

---
 src/layout/context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/layout/context.rs b/src/layout/context.rs
index 9cd7279..d46e40c 100644
--- a/src/layout/context.rs
+++ b/src/layout/context.rs
@@ -33,7 +33,9 @@ table! {
         },
 
         records (Vec<Records>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+            let records: Result<Vec<Option<Records>>> =
+                jump_take_maybe!(tape, position, this.record_count, this.record_offsets);
+            Ok(records?.into_iter().map(Option::unwrap_or_default).collect())
         },
     }
 }
@@ -115,7 +117,9 @@ table! {
         },
 
         records (Vec<ChainedRecords>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+            let records: Result<Vec<Option<ChainedRecords>>> =
+                jump_take_maybe!(tape, position, this.record_count, this.record_offsets);
+            Ok(records?.into_iter().map(Option::unwrap_or_default).collect())
         },
     }
 }
-- 
2.43.0


From 081decb0db086cf44cebc95f97329fb2ff37aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 12/14] fix: reject incomplete directories instead of
 misreading their headers

---
 src/layout/directory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/layout/directory.rs b/src/layout/directory.rs
index 5158ee9..2b9e860 100644
--- a/src/layout/directory.rs
+++ b/src/layout/directory.rs
@@ -39,6 +39,10 @@ where
             _ => 0,
         };
         #[cfg(not(feature = "ignore-incomplete-directories"))]
+        if script_offset == 0 || feature_offset == 0 || lookup_offset == 0 {
+            raise!("found an incomplete directory table");
+        }
+        #[cfg(not(feature = "ignore-incomplete-directories"))]
         let (scripts, features, lookups) = (
             jump_take!(@unwrap tape, position, script_offset),
             jump_take!(@unwrap tape, position, feature_offset),
-- 
2.43.0


From 0ec21ac18d6caac2e2c72c7964885ac078819b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 13/14] fix: reject incomplete marks instead of misreading
 their arrays

---
 src/tables/glyph_positioning/element.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tables/glyph_positioning/element.rs b/src/tables/glyph_positioning/element.rs
index d7de009..011cb05 100644
--- a/src/tables/glyph_positioning/element.rs
+++ b/src/tables/glyph_positioning/element.rs
@@ -331,6 +331,10 @@ impl crate::walue::Read<'static> for Mark1 {
         let class_id = tape.take()?;
         let anchor_offset = tape.take()?;
         #[cfg(not(feature = "ignore-incomplete-marks"))]
+        if anchor_offset == 0 {
+            raise!("found an incomplete mark");
+        }
+        #[cfg(not(feature = "ignore-incomplete-marks"))]
         let anchor = tape.stay(|tape| jump_take!(tape, position, anchor_offset))?;
         #[cfg(feature = "ignore-incomplete-marks")]
         let anchor = tape
-- 
2.43.0


From 6351efaf7b9d5e4fefb09cfd420ced91277b5087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 14/14] fix: refuse table sizes that overflow when rounded up
 to whole words

---
 src/font.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index e1a93eb..15b0ca8 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -36,7 +36,7 @@ impl Font {
         for record in &self.offsets.records {
             if record.tag == tag {
                 #[cfg(not(feature = "ignore-invalid-checksums"))]
-                if record.size > u32::MAX - 3 || record.checksum != record.checksum(tape)? {
+                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                     raise!("found a malformed font table with {:?}", record.tag);
                 }
                 Read::jump(tape, record.offset as u64)?;
-- 
2.43.0

