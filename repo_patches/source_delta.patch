From 277d3cc696c33327618f4acd61b521b8a3f64782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:41 +0000
Subject: [PATCH 01/57] fix: decode and encode text escape sequences without
 loss

Partial sequences, back slashes in front of an escape sequence, text that
looks like an escape sequence, characters outside of the basic multilingual
plane, and non-ASCII characters or nothing after a caret were dropped or
changed.
---
 src/code_pair_value.rs | 78 ++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 33 deletions(-)

diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index a2bb187..7fbdcec 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -67,7 +67,11 @@ impl CodePairValue {
                                 '^' => 0x1E,
                                 '_' => 0x1F,
                                 ' ' => b'^',
-                                _ => c as u8, // invalid escape sequence, just keep the character
+                                _ => {
+                                    // invalid escape sequence, just keep the character
+                                    result.push(c);
+                                    continue;
+                                }
                             };
 
                             result.push(c as char);
@@ -78,6 +82,11 @@ impl CodePairValue {
                 }
             }
 
+            if do_escape {
+                // nothing was escaped, just keep the character
+                result.push('^');
+            }
+
             result.into()
         } else {
             val.into()
@@ -182,10 +191,14 @@ pub(crate) fn escape_control_characters(val: &str) -> String {
 pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
     let mut result = String::from("");
 
-    for c in val.chars() {
-        let b = c as u32;
-        if b >= 128 {
-            result.push_str(&format!("\\U+{:04X}", b));
+    for (i, c) in val.char_indices() {
+        if c as u32 >= 128 || parse_unicode_escape(&val[i..]).is_some() {
+            // characters outside of the basic multilingual plane are written as a surrogate pair; anything that already
+            // looks like an escape sequence has its backslash escaped so it's not interpreted when reading it back
+            let mut buf = [0; 2];
+            for unit in c.encode_utf16(&mut buf) {
+                result.push_str(&format!("\\U+{:04X}", unit));
+            }
         } else {
             result.push(c);
         }
@@ -194,38 +207,37 @@ pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
     result
 }
 
+/// Parses the UTF-16 code unit from a leading escape sequence of the form `\U+XXXX`.
+fn parse_unicode_escape(val: &str) -> Option<u16> {
+    let code_str = val.strip_prefix("\\U+")?.get(0..4)?;
+    if code_str.bytes().all(|b| b.is_ascii_hexdigit()) {
+        u16::from_str_radix(code_str, 16).ok()
+    } else {
+        None
+    }
+}
+
 pub(crate) fn un_escape_ascii_to_unicode(val: &str) -> String {
     let mut result = String::from("");
-    let mut seq = String::from("");
-    let mut in_escape_sequence = false;
-    let mut sequence_start = 0;
-
-    for (i, c) in val.chars().enumerate() {
-        if !in_escape_sequence {
-            if c == '\\' {
-                in_escape_sequence = true;
-                sequence_start = i;
-                seq.clear();
-                seq.push(c);
-            } else {
-                result.push(c);
-            }
-        } else {
-            seq.push(c);
-            if i == sequence_start + 6 {
-                in_escape_sequence = false;
-                if let Some(code_str) = seq.strip_prefix("\\U+") {
-                    let decoded = match u32::from_str_radix(code_str, 16) {
-                        Ok(code) => std::char::from_u32(code).unwrap_or('?'),
-                        Err(_) => '?',
-                    };
-                    result.push(decoded);
-                } else {
-                    result.push_str(&seq);
+    let mut rest = val;
+
+    while let Some(c) = rest.chars().next() {
+        let mut units = vec![];
+        if let Some(first) = parse_unicode_escape(rest) {
+            units.push(first);
+            rest = &rest[7..];
+            if (0xD800..0xDC00).contains(&first) {
+                // the first half of a surrogate pair
+                if let Some(second @ 0xDC00..=0xDFFF) = parse_unicode_escape(rest) {
+                    units.push(second);
+                    rest = &rest[7..];
                 }
-
-                seq.clear();
             }
+
+            result.extend(char::decode_utf16(units).map(|c| c.unwrap_or('?')));
+        } else {
+            result.push(c);
+            rest = &rest[c.len_utf8()..];
         }
     }
 
-- 
2.43.0


From 41bf2de021c2e539eb933d9767d93a8c312e4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:05 +0000
Subject: [PATCH 02/57] fix: read the UTF-8 text that is written to binary
 files

---
 src/code_pair_iter.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index c724880..1c79ffc 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -238,7 +238,7 @@ impl<T: Read> BinaryCodePairIter<T> {
                 8,
             ),
             ExpectedType::Str => {
-                let mut value = try_from_dxf_result!(self.read_string_binary());
+                let (mut value, mut length) = try_from_dxf_result!(self.read_string_binary());
                 if !self.code_size_detection_complete && code == 0 && value.is_empty() {
                     // If this is the first pair being read and the code is 0, the only valid string value is "SECTION".
                     // If the read value is instead empty, that means the string reader found a single 0x00 byte which
@@ -247,11 +247,12 @@ impl<T: Read> BinaryCodePairIter<T> {
                     // the reader up.
                     self.codes_are_two_bytes = true;
                     self.offset += 1; // account for the NULL byte that was interpreted as an empty string
-                    value = try_from_dxf_result!(self.read_string_binary()); // now read the actual value
+                    // now read the actual value
+                    (value, length) = try_from_dxf_result!(self.read_string_binary());
                 }
                 (
                     CodePairValue::Str(CodePairValue::un_escape_string(&value).into_owned()),
-                    value.len() + 1, // +1 to account for the NULL terminator
+                    length + 1, // +1 to account for the NULL terminator
                 )
             }
             ExpectedType::Binary => {
@@ -269,18 +270,24 @@ impl<T: Read> BinaryCodePairIter<T> {
 
         Some(Ok(CodePair::new(code, value, self.offset)))
     }
-    fn read_string_binary(&mut self) -> DxfResult<String> {
-        let mut s = String::new();
+    /// Returns a string and the number of bytes it was read from, not including the NULL terminator.
+    fn read_string_binary(&mut self) -> DxfResult<(String, usize)> {
+        let mut bytes = vec![];
         loop {
             match read_u8(&mut self.reader) {
                 Some(Ok(0)) => break,
-                Some(Ok(c)) => s.push(c as char),
+                Some(Ok(c)) => bytes.push(c),
                 Some(Err(e)) => return Err(DxfError::IoError(e)),
                 None => return Err(DxfError::UnexpectedEndOfInput),
             }
         }
 
-        Ok(s)
+        let length = bytes.len();
+        let s = match String::from_utf8(bytes) {
+            Ok(s) => s,
+            Err(e) => e.into_bytes().into_iter().map(char::from).collect(), // not written as UTF-8
+        };
+        Ok((s, length))
     }
 }
 
-- 
2.43.0


From 6f60eac8df1fe1dacd04a7520d9114ab83e5ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:07 +0000
Subject: [PATCH 03/57] fix: don't drop or re-interpret byte order marks at the
 start of a value

---
 src/helper_functions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index a0c10fe..2f6db09 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -321,9 +321,9 @@ where
         }
     }
 
-    let mut result = match encoding.decode(&bytes) {
-        (result, _, false) => String::from(&*result),
-        (_, _, true) => return Err(DxfError::MalformedString),
+    let mut result = match encoding.decode_without_bom_handling(&bytes) {
+        (result, false) => String::from(&*result),
+        (_, true) => return Err(DxfError::MalformedString),
     };
 
     if result.ends_with('\r') {
-- 
2.43.0


From 0049bc50887b331ddde642527c1a19ea92f88a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:19 +0000
Subject: [PATCH 04/57] fix: split binary data that is longer than its one byte
 length allows

---
 src/code_pair_writer.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/code_pair_writer.rs b/src/code_pair_writer.rs
index 7b3605c..c6224fc 100644
--- a/src/code_pair_writer.rs
+++ b/src/code_pair_writer.rs
@@ -65,6 +65,20 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
         Ok(())
     }
     fn write_binary_code_pair(&mut self, pair: &CodePair) -> DxfResult<()> {
+        if let CodePairValue::Binary(ref buf) = pair.value {
+            if buf.len() > u8::MAX as usize {
+                // the length is a single byte, so longer data has to be split
+                for chunk in buf.chunks(u8::MAX as usize) {
+                    self.write_binary_code_pair(&CodePair::new_binary(
+                        pair.code,
+                        chunk.to_vec(),
+                    ))?;
+                }
+
+                return Ok(());
+            }
+        }
+
         // write code
         if self.version >= AcadVersion::R13 {
             self.writer.write_i16::<LittleEndian>(pair.code as i16)?;
-- 
2.43.0


From 646e08494f728ae6262eedaa27936a6c203511f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:39 +0000
Subject: [PATCH 05/57] fix: keep dates to the second and don't panic on ones
 that are out of bounds

---
 src/helper_functions.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 2f6db09..70c3ddb 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -35,8 +35,9 @@ fn f64_to_adjusted_duration(f: f64) -> ChronoDuration {
     let secs_per_day = 24i64 * 60 * 60;
     let seconds = days_since_dublin * secs_per_day as f64;
     // functions consuming this need to use 1900/01/01 instead of 1899/12/31 as a base
-    // so we counter the extra day and leap second here
-    ChronoDuration::seconds(seconds as i64 - secs_per_day + 1)
+    // so we counter the extra day here
+    let max_seconds = 1.0e13; // more than any date can represent
+    ChronoDuration::seconds(seconds.round().clamp(0.0, max_seconds) as i64 - secs_per_day)
 }
 
 fn epoch<T>(timezone: &T) -> DateTime<T>
@@ -62,7 +63,10 @@ where
             _ => ChronoDuration::seconds(0),
         }
     };
-    epoch + duration
+    match epoch.clone().checked_add_signed(duration) {
+        Some(date) => date,
+        None => epoch, // out of bounds
+    }
 }
 
 pub(crate) fn as_datetime_local(date: f64) -> DateTime<Local> {
-- 
2.43.0


From 19aad25c484955371994a44979fb7dea60212c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:42 +0000
Subject: [PATCH 06/57] fix: don't overflow on the most negative layer color

---
 src/color.rs            | 2 +-
 src/helper_functions.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index 0fdcfd2..2e43fb2 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -77,7 +77,7 @@ impl Color {
         }
     }
     pub(crate) fn writable_color_value(&self, layer: &Layer) -> i16 {
-        let value = self.raw_value().abs();
+        let value = self.raw_value().saturating_abs();
         if layer.is_layer_on {
             value
         } else {
diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 70c3ddb..60f6b05 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -292,7 +292,7 @@ fn parse_i16_test() {
 
 pub(crate) fn read_color_value(layer: &mut Layer, color: i16) -> Color {
     layer.is_layer_on = color >= 0;
-    Color::from_raw_value(color.abs())
+    Color::from_raw_value(color.saturating_abs())
 }
 
 pub(crate) fn read_line<T>(
-- 
2.43.0


From 5edbb7c7ef4609af3728129d9537216b09af2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:10 +0000
Subject: [PATCH 07/57] fix: don't overflow on a negative thumbnail header size

---
 src/thumbnail.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index a623061..d266d4f 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -75,7 +75,7 @@ fn read_thumbnail_bytes_from_code_pairs(iter: &mut CodePairPutBack) -> DxfResult
 
 fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
     // calculate the image data offset
-    let dib_header_size = read_i32(data, FILE_HEADER_LENGTH)? as usize;
+    let dib_header_size = usize::try_from(read_i32(data, FILE_HEADER_LENGTH)?).unwrap_or(0);
 
     // calculate the palette size
     let palette_size = if dib_header_size >= BITMAP_HEADER_PALETTE_COUNT_OFFSET + 4 {
-- 
2.43.0


From 267016f48c111b0cbc1cc2f84c9c37ab3f5aee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:12 +0000
Subject: [PATCH 08/57] fix: report errors when flushing saved files

---
 src/drawing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index a41e17b..03860d1 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -212,7 +212,9 @@ impl Drawing {
     fn save_file_internal(&self, path: impl AsRef<Path>, as_ascii: bool) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut writer = BufWriter::new(file);
-        self.save_internal(&mut writer, as_ascii)
+        self.save_internal(&mut writer, as_ascii)?;
+        writer.flush()?; // errors are lost if this is left to the writer being dropped
+        Ok(())
     }
     /// Writes a `Drawing` as DXB to anything that implements the `Write` trait.
     pub fn save_dxb<T>(&self, writer: &mut T) -> DxfResult<()>
@@ -226,7 +228,9 @@ impl Drawing {
     pub fn save_file_dxb(&self, path: impl AsRef<Path>) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut buf_writer = BufWriter::new(file);
-        self.save_dxb(&mut buf_writer)
+        self.save_dxb(&mut buf_writer)?;
+        buf_writer.flush()?; // errors are lost if this is left to the writer being dropped
+        Ok(())
     }
     /// Returns an iterator for all app ids.
     pub fn app_ids(&self) -> impl Iterator<Item = &AppId> {
-- 
2.43.0


From 1c2492ddb064e21f3f10eb725b11497a77b8a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:16 +0000
Subject: [PATCH 09/57] fix: retry interrupted single byte reads

---
 src/helper_functions.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 60f6b05..e358b3b 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -339,9 +339,12 @@ where
 
 pub(crate) fn read_u8<T: Read + ?Sized>(reader: &mut T) -> Option<io::Result<u8>> {
     let mut buf = [0];
-    let size = match reader.read(&mut buf) {
-        Ok(v) => v,
-        Err(e) => return Some(Err(e)),
+    let size = loop {
+        match reader.read(&mut buf) {
+            Ok(v) => break v,
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => (), // try again
+            Err(e) => return Some(Err(e)),
+        }
     };
     match size {
         0 => None,
-- 
2.43.0


From 5f79557f8e2695b379f93589f403f83f1bff6fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:05 +0000
Subject: [PATCH 10/57] fix: report errors from reading entities and objects
 instead of ending the section

---
 src/block.rs       |  2 +-
 src/drawing.rs     |  3 ++-
 src/entity_iter.rs | 25 ++++++++++++++++++++-----
 src/object_iter.rs | 10 ++++------
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b3c92d4..70bd55d 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -157,7 +157,7 @@ impl Block {
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-                            let mut iter = EntityIter { iter };
+                            let mut iter = EntityIter::new(iter);
                             iter.read_entities_into_vec(&mut current.entities)?;
                         }
                         _ => {
diff --git a/src/drawing.rs b/src/drawing.rs
index 03860d1..2ccb8c4 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1068,7 +1068,7 @@ impl Drawing {
         Ok(())
     }
     fn read_entities(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
-        let mut iter = EntityIter { iter };
+        let mut iter = EntityIter::new(iter);
         let mut entities = vec![];
         iter.read_entities_into_vec(&mut entities)?;
         for e in entities {
@@ -1083,6 +1083,7 @@ impl Drawing {
     fn read_objects(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
         let iter = put_back(ObjectIter { iter });
         for o in iter {
+            let o = o?;
             if o.common.handle.is_empty() {
                 self.add_object(o);
             } else {
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index a038f93..5dd3d98 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,28 +1,43 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::DxfResult;
+use crate::{DxfError, DxfResult};
 
 use itertools::{put_back, PutBack};
 
 pub(crate) struct EntityIter<'a> {
-    pub iter: &'a mut CodePairPutBack,
+    iter: &'a mut CodePairPutBack,
+    error: Option<DxfError>,
 }
 
 impl Iterator for EntityIter<'_> {
     type Item = Entity;
 
     fn next(&mut self) -> Option<Entity> {
+        if self.error.is_some() {
+            return None;
+        }
         match Entity::read(self.iter) {
             Ok(Some(e)) => Some(e),
-            Ok(None) | Err(_) => None,
+            Ok(None) => None,
+            Err(e) => {
+                self.error = Some(e);
+                None
+            }
         }
     }
 }
 
-impl EntityIter<'_> {
+impl<'a> EntityIter<'a> {
+    pub(crate) fn new(iter: &'a mut CodePairPutBack) -> Self {
+        EntityIter { iter, error: None }
+    }
     pub(crate) fn read_entities_into_vec(&mut self, entities: &mut Vec<Entity>) -> DxfResult<()> {
-        collect_entities(self, entities)
+        collect_entities(self, entities)?;
+        match self.error.take() {
+            Some(e) => Err(e),
+            None => Ok(()),
+        }
     }
 }
 
diff --git a/src/object_iter.rs b/src/object_iter.rs
index 007c6c9..ffc1a76 100644
--- a/src/object_iter.rs
+++ b/src/object_iter.rs
@@ -1,17 +1,15 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::objects::Object;
+use crate::DxfResult;
 
 pub(crate) struct ObjectIter<'a> {
     pub iter: &'a mut CodePairPutBack,
 }
 
 impl Iterator for ObjectIter<'_> {
-    type Item = Object;
+    type Item = DxfResult<Object>;
 
-    fn next(&mut self) -> Option<Object> {
-        match Object::read(self.iter) {
-            Ok(Some(o)) => Some(o),
-            Ok(None) | Err(_) => None,
-        }
+    fn next(&mut self) -> Option<DxfResult<Object>> {
+        Object::read(self.iter).transpose()
     }
 }
-- 
2.43.0


From 9520761fa79981f30b36207cfc56100b17030215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:08 +0000
Subject: [PATCH 11/57] fix: don't loop forever on a block without an end
 marker

---
 src/block.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index 70bd55d..bf9d84a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -154,6 +154,16 @@ impl Block {
                             }
                             break;
                         }
+                        CodePair {
+                            code: 0,
+                            value: CodePairValue::Str(ref s),
+                            ..
+                        } if s == "ENDSEC" => {
+                            return Err(DxfError::UnexpectedCodePair(
+                                pair,
+                                String::from("expected 0/ENDBLK"),
+                            ));
+                        }
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-- 
2.43.0


From b0eac891cb990198b22719fb0e40b80a37375da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:18 +0000
Subject: [PATCH 12/57] fix: limit the nesting depth of extended data and
 extension groups

---
 src/extension_data.rs | 18 ++++++++++++++++--
 src/x_data.rs         | 17 ++++++++++++++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/extension_data.rs b/src/extension_data.rs
index 1363059..f4179af 100644
--- a/src/extension_data.rs
+++ b/src/extension_data.rs
@@ -1,6 +1,7 @@
 use crate::{CodePair, DxfError, DxfResult};
 
 use crate::code_pair_put_back::CodePairPutBack;
+use crate::x_data::MAX_NESTING_DEPTH;
 
 pub(crate) const EXTENSION_DATA_GROUP: i32 = 102;
 
@@ -26,7 +27,15 @@ impl ExtensionGroup {
         iter: &mut CodePairPutBack,
         offset: usize,
     ) -> DxfResult<ExtensionGroup> {
-        if !application_name.starts_with('{') {
+        ExtensionGroup::read_nested_group(application_name, iter, offset, 0)
+    }
+    fn read_nested_group(
+        application_name: String,
+        iter: &mut CodePairPutBack,
+        offset: usize,
+        depth: usize,
+    ) -> DxfResult<ExtensionGroup> {
+        if depth >= MAX_NESTING_DEPTH || !application_name.starts_with('{') {
             return Err(DxfError::ParseError(offset));
         }
         let mut application_name = application_name;
@@ -46,7 +55,12 @@ impl ExtensionGroup {
                     break;
                 } else if name.starts_with('{') {
                     // nested group
-                    let sub_group = ExtensionGroup::read_group(name, iter, pair.offset)?;
+                    let sub_group = ExtensionGroup::read_nested_group(
+                        name,
+                        iter,
+                        pair.offset,
+                        depth + 1,
+                    )?;
                     items.push(ExtensionGroupItem::Group(sub_group));
                 } else {
                     return Err(DxfError::UnexpectedCodePair(
diff --git a/src/x_data.rs b/src/x_data.rs
index 501d128..e2c1a13 100644
--- a/src/x_data.rs
+++ b/src/x_data.rs
@@ -20,6 +20,9 @@ const XDATA_SCALEFACTOR: i32 = 1042;
 const XDATA_INTEGER: i32 = 1070;
 const XDATA_LONG: i32 = 1071;
 
+/// Deeper nesting than this isn't meaningful and could overflow the stack.
+pub(crate) const MAX_NESTING_DEPTH: usize = 256;
+
 /// Represents an application name and a collection of extended data.
 #[derive(Clone, Debug)]
 #[cfg_attr(feature = "serialize", derive(serde::Serialize, serde::Deserialize))]
@@ -72,7 +75,7 @@ impl XData {
                 iter.put_back(Ok(pair));
                 break;
             }
-            xdata.items.push(XDataItem::read_item(&pair, iter)?);
+            xdata.items.push(XDataItem::read_item(&pair, iter, 0)?);
         }
         Ok(xdata)
     }
@@ -91,10 +94,18 @@ impl XData {
 }
 
 impl XDataItem {
-    fn read_item(pair: &CodePair, iter: &mut CodePairPutBack) -> DxfResult<XDataItem> {
+    fn read_item(
+        pair: &CodePair,
+        iter: &mut CodePairPutBack,
+        depth: usize,
+    ) -> DxfResult<XDataItem> {
         match pair.code {
             XDATA_STRING => Ok(XDataItem::Str(pair.assert_string()?)),
             XDATA_CONTROLGROUP => {
+                if depth >= MAX_NESTING_DEPTH {
+                    return Err(DxfError::ParseError(pair.offset));
+                }
+
                 let mut items = vec![];
                 loop {
                     let pair = match iter.next() {
@@ -115,7 +126,7 @@ impl XDataItem {
                         break;
                     }
 
-                    items.push(XDataItem::read_item(&pair, iter)?);
+                    items.push(XDataItem::read_item(&pair, iter, depth + 1)?);
                 }
                 Ok(XDataItem::ControlGroup(items))
             }
-- 
2.43.0


From e0c365c0c535a6f6d8caac741840548c8b241d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:23 +0000
Subject: [PATCH 13/57] fix: give the children of a copied polyline or insert
 their own handles

---
 src/drawing.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 2ccb8c4..d4346d6 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -412,6 +412,8 @@ impl Drawing {
     }
     /// Adds an entity to the `Drawing`.
     pub fn add_entity(&mut self, mut entity: Entity) -> &Entity {
+        // a handle means it's from another drawing or a copy, so the handles of its children can't be kept
+        let replace_all = !entity.common.handle.is_empty();
         entity.common.handle = self.next_handle();
 
         // set child handles
@@ -419,7 +421,7 @@ impl Drawing {
             EntityType::Insert(ref mut ins) => {
                 ins.__seqend_handle = self.next_handle();
                 for a in ins.__attributes_and_handles.iter_mut() {
-                    if a.1 == AUTO_REPLACE_HANDLE {
+                    if replace_all || a.1 == AUTO_REPLACE_HANDLE {
                         a.1 = self.next_handle();
                     }
                 }
@@ -427,7 +429,7 @@ impl Drawing {
             EntityType::Polyline(ref mut poly) => {
                 poly.__seqend_handle = self.next_handle();
                 for v in poly.__vertices_and_handles.iter_mut() {
-                    if v.1 == AUTO_REPLACE_HANDLE {
+                    if replace_all || v.1 == AUTO_REPLACE_HANDLE {
                         v.1 = self.next_handle();
                     }
                 }
-- 
2.43.0


From 46ad7b6166539879131569942c87137a45dfaa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:22 +0000
Subject: [PATCH 14/57] fix: don't add another block record when there is one
 for the block

---
 src/drawing.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index d4346d6..1bccb9a 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -832,10 +832,7 @@ impl Drawing {
         }
     }
     fn ensure_block_record_is_present_for_block(&mut self, block: &mut Block) {
-        self.add_block_record(BlockRecord {
-            name: String::from(&block.name),
-            ..Default::default()
-        });
+        self.ensure_block_record_is_present(&block.name);
     }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
-- 
2.43.0


From 57d66051b52ce6d26cfc68c793eeefec04e1aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:59 +0000
Subject: [PATCH 15/57] fix: keep the handles of block entities on load and set
 those of their children

---
 src/block.rs   |  6 ++---
 src/drawing.rs | 71 +++++++++++++++++++++++++++++---------------------
 2 files changed, 45 insertions(+), 32 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index bf9d84a..02ad583 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -148,10 +148,10 @@ impl Block {
                             }
 
                             if current.handle.is_empty() {
-                                drawing.add_block(current);
-                            } else {
-                                drawing.add_block_no_handle_set(current);
+                                current.handle = drawing.next_handle();
                             }
+
+                            drawing.add_block_no_handle_set(current);
                             break;
                         }
                         CodePair {
diff --git a/src/drawing.rs b/src/drawing.rs
index 1bccb9a..1f1c723 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -396,7 +396,7 @@ impl Drawing {
     /// Add a block to the `Drawing`.
     pub fn add_block(&mut self, mut block: Block) -> &Block {
         block.handle = self.next_handle();
-        self.add_block_no_handle_set(block)
+        self.add_block_with_entity_handles(block, false)
     }
     /// Removes the specified `Block` from the `Drawing`.
     pub fn remove_block(&mut self, index: usize) -> Option<Block> {
@@ -412,30 +412,7 @@ impl Drawing {
     }
     /// Adds an entity to the `Drawing`.
     pub fn add_entity(&mut self, mut entity: Entity) -> &Entity {
-        // a handle means it's from another drawing or a copy, so the handles of its children can't be kept
-        let replace_all = !entity.common.handle.is_empty();
-        entity.common.handle = self.next_handle();
-
-        // set child handles
-        match entity.specific {
-            EntityType::Insert(ref mut ins) => {
-                ins.__seqend_handle = self.next_handle();
-                for a in ins.__attributes_and_handles.iter_mut() {
-                    if replace_all || a.1 == AUTO_REPLACE_HANDLE {
-                        a.1 = self.next_handle();
-                    }
-                }
-            }
-            EntityType::Polyline(ref mut poly) => {
-                poly.__seqend_handle = self.next_handle();
-                for v in poly.__vertices_and_handles.iter_mut() {
-                    if replace_all || v.1 == AUTO_REPLACE_HANDLE {
-                        v.1 = self.next_handle();
-                    }
-                }
-            }
-            _ => (),
-        }
+        self.set_entity_handles(&mut entity);
 
         // ensure invariants
         self.add_entity_no_handle_set(entity)
@@ -662,6 +639,33 @@ impl Drawing {
         self.header.next_available_handle = self.header.next_available_handle.next_handle_value();
         result
     }
+    /// Sets new handles on the entity and its children.
+    fn set_entity_handles(&mut self, entity: &mut Entity) {
+        // a handle means it's from another drawing or a copy, so the handles of its children can't be kept
+        let replace_all = !entity.common.handle.is_empty();
+        entity.common.handle = self.next_handle();
+
+        // set child handles
+        match entity.specific {
+            EntityType::Insert(ref mut ins) => {
+                ins.__seqend_handle = self.next_handle();
+                for a in ins.__attributes_and_handles.iter_mut() {
+                    if replace_all || a.1 == AUTO_REPLACE_HANDLE {
+                        a.1 = self.next_handle();
+                    }
+                }
+            }
+            EntityType::Polyline(ref mut poly) => {
+                poly.__seqend_handle = self.next_handle();
+                for v in poly.__vertices_and_handles.iter_mut() {
+                    if replace_all || v.1 == AUTO_REPLACE_HANDLE {
+                        v.1 = self.next_handle();
+                    }
+                }
+            }
+            _ => (),
+        }
+    }
     fn remove_item<T>(collection: &mut Vec<T>, index: usize) -> Option<T> {
         if index < collection.len() {
             Some(collection.remove(index))
@@ -669,11 +673,18 @@ impl Drawing {
             None
         }
     }
-    pub(crate) fn add_block_no_handle_set(&mut self, mut block: Block) -> &Block {
+    pub(crate) fn add_block_no_handle_set(&mut self, block: Block) -> &Block {
+        self.add_block_with_entity_handles(block, true)
+    }
+    fn add_block_with_entity_handles(
+        &mut self,
+        mut block: Block,
+        keep_entity_handles: bool,
+    ) -> &Block {
         self.ensure_layer_is_present_for_block(&block);
         self.ensure_line_type_is_present_for_block(&block);
         self.ensure_block_record_is_present_for_block(&mut block);
-        self.ensure_block_entity_handles_are_set(&mut block);
+        self.ensure_block_entity_handles_are_set(&mut block, keep_entity_handles);
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
     }
@@ -834,9 +845,11 @@ impl Drawing {
     fn ensure_block_record_is_present_for_block(&mut self, block: &mut Block) {
         self.ensure_block_record_is_present(&block.name);
     }
-    fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
+    fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block, keep_existing: bool) {
         for ent in &mut block.entities {
-            ent.common.handle = self.next_handle();
+            if !keep_existing || ent.common.handle.is_empty() {
+                self.set_entity_handles(ent);
+            }
         }
     }
     fn ensure_line_type_is_present_for_object(&mut self, obj: &Object) {
-- 
2.43.0


From 5d88a2375c6583eeaab51b896d1955f8ae80cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:14 +0000
Subject: [PATCH 16/57] fix: keep handles of vertices, attributes and end
 markers on load and keep all handles unique

Items without a handle in the file could get one that is used later in the
file, and the next available handle wasn't past the ones that were read.
---
 src/code_pair_iter.rs   |  2 +-
 src/code_pair_writer.rs |  5 +--
 src/drawing.rs          | 80 ++++++++++++++++++++++++++++++++++++++---
 src/entity_iter.rs      | 31 ++++++++++------
 src/extension_data.rs   |  8 ++---
 5 files changed, 100 insertions(+), 26 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index 1c79ffc..fe38645 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -247,7 +247,7 @@ impl<T: Read> BinaryCodePairIter<T> {
                     // the reader up.
                     self.codes_are_two_bytes = true;
                     self.offset += 1; // account for the NULL byte that was interpreted as an empty string
-                    // now read the actual value
+                                      // now read the actual value
                     (value, length) = try_from_dxf_result!(self.read_string_binary());
                 }
                 (
diff --git a/src/code_pair_writer.rs b/src/code_pair_writer.rs
index c6224fc..069bb9a 100644
--- a/src/code_pair_writer.rs
+++ b/src/code_pair_writer.rs
@@ -69,10 +69,7 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
             if buf.len() > u8::MAX as usize {
                 // the length is a single byte, so longer data has to be split
                 for chunk in buf.chunks(u8::MAX as usize) {
-                    self.write_binary_code_pair(&CodePair::new_binary(
-                        pair.code,
-                        chunk.to_vec(),
-                    ))?;
+                    self.write_binary_code_pair(&CodePair::new_binary(pair.code, chunk.to_vec()))?;
                 }
 
                 return Ok(());
diff --git a/src/drawing.rs b/src/drawing.rs
index 1f1c723..9b1fdba 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -36,6 +36,9 @@ use std::path::Path;
 
 pub(crate) const AUTO_REPLACE_HANDLE: Handle = Handle(0xFFFF_FFFF_FFFF_FFFF);
 
+/// Handles from here on are only used while loading, before all handles of a file are known.
+const FIRST_TEMPORARY_HANDLE: Handle = Handle(0xFFFF_0000_0000_0000);
+
 /// Represents a DXF drawing.
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serialize", derive(serde::Serialize, serde::Deserialize))]
@@ -130,8 +133,10 @@ impl Drawing {
     pub(crate) fn load_from_iter(iter: Box<dyn CodePairIter>) -> DxfResult<Drawing> {
         let mut drawing = Drawing::new();
         drawing.clear();
+        drawing.header.next_available_handle = FIRST_TEMPORARY_HANDLE;
         let mut iter = CodePairPutBack::from_code_pair_iter(iter);
-        Drawing::read_sections(&mut drawing, &mut iter)?;
+        let handle_seed = Drawing::read_sections(&mut drawing, &mut iter)?;
+        drawing.replace_temporary_handles(handle_seed);
         match iter.next() {
             Some(Ok(CodePair {
                 code: 0,
@@ -987,7 +992,9 @@ impl Drawing {
         }
         Ok(())
     }
-    fn read_sections(drawing: &mut Drawing, iter: &mut CodePairPutBack) -> DxfResult<()> {
+    /// Returns the next available handle as specified in the file.
+    fn read_sections(drawing: &mut Drawing, iter: &mut CodePairPutBack) -> DxfResult<Handle> {
+        let mut handle_seed = Handle(1);
         loop {
             match iter.next() {
                 Some(Ok(pair @ CodePair { code: 0, .. })) => match &*pair.assert_string()? {
@@ -1002,7 +1009,12 @@ impl Drawing {
                             ..
                         })) => {
                             match &*s {
-                                "HEADER" => drawing.header = Header::read(iter)?,
+                                "HEADER" => {
+                                    let next_handle = drawing.header.next_available_handle;
+                                    drawing.header = Header::read(iter)?;
+                                    handle_seed = drawing.header.next_available_handle;
+                                    drawing.header.next_available_handle = next_handle;
+                                }
                                 "CLASSES" => Class::read_classes(drawing, iter)?,
                                 "TABLES" => {
                                     drawing.read_section_item(iter, "TABLE", read_specific_table)?
@@ -1061,7 +1073,67 @@ impl Drawing {
             }
         }
 
-        Ok(())
+        Ok(handle_seed)
+    }
+    /// Assigns final handles once all handles of the file are known.
+    fn replace_temporary_handles(&mut self, handle_seed: Handle) {
+        let mut next_handle = 1;
+        if handle_seed.0 < FIRST_TEMPORARY_HANDLE.0 {
+            next_handle = next_handle.max(handle_seed.0);
+        }
+
+        self.for_each_handle(&mut |h| {
+            if h.0 < FIRST_TEMPORARY_HANDLE.0 {
+                next_handle = next_handle.max(h.0 + 1);
+            }
+        });
+        self.for_each_handle(&mut |h| {
+            if h.0 >= FIRST_TEMPORARY_HANDLE.0 {
+                *h = Handle(next_handle);
+                next_handle += 1;
+            }
+        });
+        self.header.next_available_handle = Handle(next_handle);
+    }
+    fn for_each_handle(&mut self, f: &mut dyn FnMut(&mut Handle)) {
+        fn for_each_entity_handle(entity: &mut Entity, f: &mut dyn FnMut(&mut Handle)) {
+            f(&mut entity.common.handle);
+            match entity.specific {
+                EntityType::Insert(ref mut ins) => {
+                    ins.__attributes_and_handles
+                        .iter_mut()
+                        .for_each(|a| f(&mut a.1));
+                    f(&mut ins.__seqend_handle);
+                }
+                EntityType::Polyline(ref mut poly) => {
+                    poly.__vertices_and_handles
+                        .iter_mut()
+                        .for_each(|v| f(&mut v.1));
+                    f(&mut poly.__seqend_handle);
+                }
+                _ => (),
+            }
+        }
+
+        self.app_ids_mut().for_each(|i| f(&mut i.handle));
+        self.block_records_mut().for_each(|i| f(&mut i.handle));
+        self.dim_styles_mut().for_each(|i| f(&mut i.handle));
+        self.layers_mut().for_each(|i| f(&mut i.handle));
+        self.line_types_mut().for_each(|i| f(&mut i.handle));
+        self.styles_mut().for_each(|i| f(&mut i.handle));
+        self.ucss_mut().for_each(|i| f(&mut i.handle));
+        self.views_mut().for_each(|i| f(&mut i.handle));
+        self.view_ports_mut().for_each(|i| f(&mut i.handle));
+        for block in self.blocks_mut() {
+            f(&mut block.handle);
+            for entity in &mut block.entities {
+                for_each_entity_handle(entity, f);
+            }
+        }
+        for entity in self.entities_mut() {
+            for_each_entity_handle(entity, f);
+        }
+        self.objects_mut().for_each(|i| f(&mut i.common.handle));
     }
     fn swallow_section(iter: &mut CodePairPutBack) -> DxfResult<()> {
         loop {
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index 5dd3d98..f5fc9c9 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,7 +1,7 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::{DxfError, DxfResult};
+use crate::{DxfError, DxfResult, Handle};
 
 use itertools::{put_back, PutBack};
 
@@ -45,22 +45,31 @@ pub(crate) fn collect_entities<I>(iter: &mut I, entities: &mut Vec<Entity>) -> D
 where
     I: Iterator<Item = Entity>,
 {
-    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<()>
+    fn child_handle(handle: Handle) -> Handle {
+        if handle.is_empty() {
+            AUTO_REPLACE_HANDLE
+        } else {
+            handle
+        }
+    }
+
+    // returns the handle of the SEQEND
+    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<Handle>
     where
         I: Iterator<Item = Entity>,
     {
         match iter.next() {
             Some(Entity {
+                common,
                 specific: EntityType::Seqend(_),
-                ..
-            }) => (),
+            }) => return Ok(child_handle(common.handle)),
             Some(ent) => {
                 iter.put_back(ent);
             }
             None => (),
         }
 
-        Ok(())
+        Ok(AUTO_REPLACE_HANDLE)
     }
 
     fn mtext<I>(iter: &mut PutBack<I>) -> DxfResult<Option<MText>>
@@ -125,11 +134,11 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
+                            common,
                             specific: EntityType::Attribute(att),
-                            ..
                         }) => ins
                             .__attributes_and_handles
-                            .push((att, AUTO_REPLACE_HANDLE)),
+                            .push((att, child_handle(common.handle))),
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
                             iter.put_back(ent);
@@ -139,7 +148,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                ins.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the INSERT
                 entities.push(Entity {
@@ -155,11 +164,11 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
+                            common,
                             specific: EntityType::Vertex(vertex),
-                            ..
                         }) => poly
                             .__vertices_and_handles
-                            .push((vertex, AUTO_REPLACE_HANDLE)),
+                            .push((vertex, child_handle(common.handle))),
                         Some(ent) => {
                             // stop gathering on any non-VERTEX
                             iter.put_back(ent);
@@ -169,7 +178,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                poly.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the POLYLINE
                 entities.push(Entity {
diff --git a/src/extension_data.rs b/src/extension_data.rs
index f4179af..d86b2d7 100644
--- a/src/extension_data.rs
+++ b/src/extension_data.rs
@@ -55,12 +55,8 @@ impl ExtensionGroup {
                     break;
                 } else if name.starts_with('{') {
                     // nested group
-                    let sub_group = ExtensionGroup::read_nested_group(
-                        name,
-                        iter,
-                        pair.offset,
-                        depth + 1,
-                    )?;
+                    let sub_group =
+                        ExtensionGroup::read_nested_group(name, iter, pair.offset, depth + 1)?;
                     items.push(ExtensionGroupItem::Group(sub_group));
                 } else {
                     return Err(DxfError::UnexpectedCodePair(
-- 
2.43.0


From c9b70a6906f167c01c5a9b1492190e7d2c6f8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:42 +0000
Subject: [PATCH 17/57] fix: set the end marker handle of an insert that gets
 its first attribute

---
 src/entity.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index c2eeb9e..0dc86d8 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -95,6 +95,11 @@ impl Insert {
         self.__attributes_and_handles.iter_mut().map(|a| &mut a.0)
     }
     pub fn add_attribute(&mut self, drawing: &mut Drawing, att: Attribute) {
+        if self.__seqend_handle.is_empty() {
+            // the first attribute also needs an end marker
+            self.__seqend_handle = drawing.next_handle();
+        }
+
         let att_handle = drawing.next_handle();
         self.__attributes_and_handles.push((att, att_handle));
     }
-- 
2.43.0


From 82f487258c98963d70b1eea97bc0e58c7e5846ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:38 +0000
Subject: [PATCH 18/57] fix: read dimensions from files without subclass
 markers

---
 src/entity.rs | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 0dc86d8..99e71ce 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -238,6 +238,36 @@ impl Vertex {
 //                                                                    EntityType
 //------------------------------------------------------------------------------
 impl EntityType {
+    /// Creates the dimension entity that's appropriate for the dimension type.
+    fn from_dimension_base(dimension_base: DimensionBase) -> Option<EntityType> {
+        match dimension_base.dimension_type {
+            DimensionType::RotatedHorizontalOrVertical | DimensionType::Aligned => {
+                Some(EntityType::RotatedDimension(RotatedDimension {
+                    dimension_base,
+                    ..Default::default()
+                }))
+            }
+            DimensionType::Angular => None, // unsupported
+            DimensionType::Diameter => Some(EntityType::DiameterDimension(DiameterDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+            DimensionType::Radius => Some(EntityType::RadialDimension(RadialDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+            DimensionType::AngularThreePoint => Some(EntityType::AngularThreePointDimension(
+                AngularThreePointDimension {
+                    dimension_base,
+                    ..Default::default()
+                },
+            )),
+            DimensionType::Ordinate => Some(EntityType::OrdinateDimension(OrdinateDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+        }
+    }
     fn apply_dimension_code_pair(&mut self, pair: &CodePair) -> DxfResult<bool> {
         match *self {
             EntityType::RotatedDimension(ref mut dim) => match pair.code {
@@ -427,6 +457,8 @@ impl Entity {
                             let mut common = EntityCommon::default();
                             let mut dimension_entity: Option<EntityType> = None;
                             let mut dimension_base = DimensionBase::default();
+                            let mut has_subclass_markers = false;
+                            let mut specific_pairs = vec![];
                             loop {
                                 match iter.next() {
                                     Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -589,9 +621,13 @@ impl Entity {
                                                                     ),
                                                                 );
                                                             }
-                                                            _ => {} // unexpected dimension type
+                                                            _ => has_subclass_markers = true, // unexpected dimension type
                                                         }
                                                     }
+                                                    12..=16 | 22..=26 | 32..=36 | 40 | 50 | 52 => {
+                                                        // specific to a dimension type that's not known yet
+                                                        specific_pairs.push(pair);
+                                                    }
                                                     _ => {
                                                         common
                                                             .apply_individual_pair(&pair, iter)?;
@@ -605,6 +641,16 @@ impl Entity {
                                 }
                             }
 
+                            if dimension_entity.is_none() && !has_subclass_markers {
+                                // files before R13 don't have subclass markers
+                                dimension_entity = EntityType::from_dimension_base(dimension_base);
+                                if let Some(ref mut dim) = dimension_entity {
+                                    for pair in &specific_pairs {
+                                        dim.apply_dimension_code_pair(pair)?;
+                                    }
+                                }
+                            }
+
                             match dimension_entity {
                                 Some(dim) => {
                                     return Ok(Some(Entity {
-- 
2.43.0


From 080f71a9d3f6c1f122cb4504baa922ab8218739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:40 +0000
Subject: [PATCH 19/57] fix: write the extended data of an entity before its
 child entities

---
 src/entity.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 99e71ce..73bcd69 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1356,10 +1356,11 @@ impl Entity {
                 self.specific.add_code_pairs(pairs, &self.common, version);
             }
 
-            self.add_post_code_pairs(pairs, version, write_handles);
+            // must come before any child entities
             for x in &self.common.x_data {
                 x.add_code_pairs(pairs, version);
             }
+            self.add_post_code_pairs(pairs, version, write_handles);
         }
     }
     fn add_custom_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion) -> bool {
-- 
2.43.0


From 983c6d4c259bf8417853d66110b9b03025bfc13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:27 +0000
Subject: [PATCH 20/57] fix: gather all attributes of an insert when they have
 multi-line text

---
 src/entity_iter.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index f5fc9c9..83c3996 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -135,10 +135,15 @@ where
                     match iter.next() {
                         Some(Entity {
                             common,
-                            specific: EntityType::Attribute(att),
-                        }) => ins
-                            .__attributes_and_handles
-                            .push((att, child_handle(common.handle))),
+                            specific: EntityType::Attribute(mut att),
+                        }) => {
+                            if let Some(m_text) = mtext(&mut iter)? {
+                                att.m_text = m_text;
+                            }
+
+                            ins.__attributes_and_handles
+                                .push((att, child_handle(common.handle)));
+                        }
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
                             iter.put_back(ent);
-- 
2.43.0


From 0f113e6e90b9fb71eb99190ed1c473dabae77512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 21/57] fix: add missing coordinate systems in a deterministic
 order

---
 src/drawing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 9b1fdba..4e90198 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -30,7 +30,7 @@ use std::fs::File;
 use std::io::{BufReader, BufWriter, Cursor, Read, Write};
 
 use itertools::put_back;
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 use std::iter::Iterator;
 use std::path::Path;
 
@@ -1309,7 +1309,7 @@ impl Drawing {
     }
     fn ensure_ucs(&mut self) {
         // ensure all ucs that should exist do
-        let mut should_exist = HashSet::new();
+        let mut should_exist = BTreeSet::new();
         should_exist.insert(self.header.ucs_definition_name.clone());
         should_exist.insert(self.header.ucs_name.clone());
         should_exist.insert(self.header.ortho_ucs_reference.clone());
-- 
2.43.0


From e2e432e0c3848022e33834e674a3ea998f1f2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:28 +0000
Subject: [PATCH 22/57] fix: read and write all rows and columns of a data
 table, and don't trust its counts

---
 src/object.rs | 85 +++++++++++++++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 36 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 3d7c896..81605aa 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -62,7 +62,15 @@ impl MLineStyleElement {
 impl DataTable {
     pub(crate) fn set_value(&mut self, row: usize, col: usize, val: DataTableValue) {
         if row < self.row_count && col < self.column_count {
-            self.values[row][col] = Some(val);
+            // only grow as far as there are values; the counts in the file can't be trusted
+            if self.values.len() <= row {
+                self.values.resize(row + 1, vec![]);
+            }
+            let row_values = &mut self.values[row];
+            if row_values.len() <= col {
+                row_values.resize(col + 1, None);
+            }
+            row_values[col] = Some(val);
         }
     }
 }
@@ -321,9 +329,8 @@ impl Object {
         let mut read_column_count = false;
         let mut read_row_count = false;
         let mut _current_column_code = 0;
-        let mut current_column = 0;
+        let mut seen_columns: usize = 0;
         let mut current_row = 0;
-        let mut created_table = false;
         let mut current_2d_point = Point::origin();
         let mut current_3d_point = Point::origin();
 
@@ -351,7 +358,7 @@ impl Object {
                 }
                 92 => {
                     _current_column_code = pair.assert_i32()?;
-                    current_column += 1;
+                    seen_columns += 1;
                     current_row = 0;
                 }
 
@@ -359,30 +366,34 @@ impl Object {
                 3 => {
                     data.set_value(
                         current_row,
-                        current_column,
+                        seen_columns.saturating_sub(1),
                         DataTableValue::Str(pair.assert_string()?),
                     );
+                    current_row += 1;
                 }
                 40 => {
                     data.set_value(
                         current_row,
-                        current_column,
+                        seen_columns.saturating_sub(1),
                         DataTableValue::Double(pair.assert_f64()?),
                     );
+                    current_row += 1;
                 }
                 71 => {
                     data.set_value(
                         current_row,
-                        current_column,
+                        seen_columns.saturating_sub(1),
                         DataTableValue::Boolean(as_bool(pair.assert_i16()?)),
                     );
+                    current_row += 1;
                 }
                 93 => {
                     data.set_value(
                         current_row,
-                        current_column,
+                        seen_columns.saturating_sub(1),
                         DataTableValue::Integer(pair.assert_i32()?),
                     );
+                    current_row += 1;
                 }
                 10 => {
                     current_2d_point.x = pair.assert_f64()?;
@@ -394,9 +405,10 @@ impl Object {
                     current_2d_point.z = pair.assert_f64()?;
                     data.set_value(
                         current_row,
-                        current_column,
+                        seen_columns.saturating_sub(1),
                         DataTableValue::Point2D(current_2d_point.clone()),
                     );
+                    current_row += 1;
                     current_2d_point = Point::origin();
                 }
                 11 => {
@@ -409,18 +421,20 @@ impl Object {
                     current_3d_point.z = pair.assert_f64()?;
                     data.set_value(
                         current_row,
-                        current_column,
+                        seen_columns.saturating_sub(1),
                         DataTableValue::Point3D(current_3d_point.clone()),
                     );
+                    current_row += 1;
                     current_3d_point = Point::origin();
                 }
                 330 | 331 | 340 | 350 | 360 => {
                     if read_row_count || read_column_count {
                         data.set_value(
                             current_row,
-                            current_column,
+                            seen_columns.saturating_sub(1),
                             DataTableValue::Handle(pair.as_handle()?),
                         );
+                        current_row += 1;
                     } else {
                         common.apply_individual_pair(&pair, iter)?;
                     }
@@ -430,16 +444,6 @@ impl Object {
                     common.apply_individual_pair(&pair, iter)?;
                 }
             }
-
-            if read_row_count && read_column_count && !created_table {
-                for row in 0..data.row_count {
-                    data.values.push(vec![]);
-                    for _ in 0..data.column_count {
-                        data.values[row].push(None);
-                    }
-                }
-                created_table = true;
-            }
         }
     }
     fn apply_custom_reader_dictionary(
@@ -1493,22 +1497,31 @@ impl Object {
                 pairs.push(CodePair::new_i32(90, data.column_count as i32));
                 pairs.push(CodePair::new_i32(91, data.row_count as i32));
                 pairs.push(CodePair::new_string(1, &data.name));
-                for col in 0..data.column_count {
-                    let column_code = match data.values[0][col] {
-                        Some(DataTableValue::Boolean(_)) => Some(71),
-                        Some(DataTableValue::Integer(_)) => Some(93),
-                        Some(DataTableValue::Double(_)) => Some(40),
-                        Some(DataTableValue::Str(_)) => Some(3),
-                        Some(DataTableValue::Point2D(_)) => Some(10),
-                        Some(DataTableValue::Point3D(_)) => Some(11),
-                        Some(DataTableValue::Handle(_)) => Some(331),
-                        None => None,
+                // only what's really there; the counts might say something else
+                let rows = &data.values[..data.values.len().min(data.row_count)];
+                let columns_present = rows
+                    .iter()
+                    .map(|row| row.len())
+                    .fold(data.column_names.len(), usize::max);
+                for col in 0..data.column_count.min(columns_present) {
+                    let column_code = match rows.iter().find_map(|row| row.get(col)?.as_ref()) {
+                        Some(DataTableValue::Boolean(_)) => 71,
+                        Some(DataTableValue::Integer(_)) => 93,
+                        Some(DataTableValue::Double(_)) => 40,
+                        Some(DataTableValue::Str(_)) => 3,
+                        Some(DataTableValue::Point2D(_)) => 10,
+                        Some(DataTableValue::Point3D(_)) => 11,
+                        Some(DataTableValue::Handle(_)) => 331,
+                        None => 3, // no values, but the column is still there
                     };
-                    if let Some(column_code) = column_code {
-                        pairs.push(CodePair::new_i32(92, column_code));
-                        pairs.push(CodePair::new_string(2, &data.column_names[col]));
-                        for row in 0..data.row_count {
-                            match data.values[row][col] {
+                    pairs.push(CodePair::new_i32(92, column_code));
+                    pairs.push(CodePair::new_string(
+                        2,
+                        data.column_names.get(col).map_or("", |name| name),
+                    ));
+                    for row in rows {
+                        if let Some(value) = row.get(col) {
+                            match *value {
                                 Some(DataTableValue::Boolean(val)) => {
                                     pairs.push(CodePair::new_i16(71, as_i16(val)));
                                 }
-- 
2.43.0


From 80c1bdca93a9f2141dc7d5b1a68a5849b9278d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:29 +0000
Subject: [PATCH 23/57] fix: read the lights of a light list

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 81605aa..5868112 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -654,7 +654,7 @@ impl Object {
                         // count of lights is ignored since it's implicitly set by reading the values
                     } else {
                         ll.version = pair.assert_i32()?;
-                        read_version_number = false;
+                        read_version_number = true;
                     }
                 }
                 _ => {
-- 
2.43.0


From 2bacf27170cc1f6026f3b5c052e5d6a3433eb1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:31 +0000
Subject: [PATCH 24/57] fix: read material maps and multi-line style elements

---
 src/object.rs | 72 ++++++++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 5868112..864dbde 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -129,10 +129,9 @@ impl Object {
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
                                 }
-
-                                obj.post_parse()?;
                             }
 
+                            obj.post_parse()?;
                             return Ok(Some(obj));
                         }
                         None => {
@@ -217,38 +216,41 @@ impl Object {
                 );
             }
             ObjectType::Material(ref mut material) => {
-                material.diffuse_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__diffuse_map_transformation_matrix_values,
-                );
-                material.specular_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__specular_map_transformation_matrix_values,
-                );
-                material.reflection_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__reflection_map_transformation_matrix_values,
-                );
-                material.opacity_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__opacity_map_transformation_matrix_values,
-                );
-                material.bump_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__bump_map_transformation_matrix_values,
-                );
-                material.refraction_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__refraction_map_transformation_matrix_values,
-                );
-                material.normal_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__normal_map_transformation_matrix_values,
-                );
-                material.__diffuse_map_transformation_matrix_values.clear();
-                material.__specular_map_transformation_matrix_values.clear();
-                material
-                    .__reflection_map_transformation_matrix_values
-                    .clear();
-                material.__opacity_map_transformation_matrix_values.clear();
-                material.__bump_map_transformation_matrix_values.clear();
-                material
-                    .__refraction_map_transformation_matrix_values
-                    .clear();
-                material.__normal_map_transformation_matrix_values.clear();
+                for (matrix, values) in [
+                    (
+                        &mut material.diffuse_map_transformation_matrix,
+                        &mut material.__diffuse_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.specular_map_transformation_matrix,
+                        &mut material.__specular_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.reflection_map_transformation_matrix,
+                        &mut material.__reflection_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.opacity_map_transformation_matrix,
+                        &mut material.__opacity_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.bump_map_transformation_matrix,
+                        &mut material.__bump_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.refraction_map_transformation_matrix,
+                        &mut material.__refraction_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.normal_map_transformation_matrix,
+                        &mut material.__normal_map_transformation_matrix_values,
+                    ),
+                ] {
+                    if !values.is_empty() {
+                        *matrix = TransformationMatrix::from_vec(values);
+                        values.clear();
+                    }
+                }
             }
             ObjectType::MLineStyle(ref mut mline) => {
                 for (o, (c, l)) in mline.__element_offsets.drain(..).zip(
@@ -702,7 +704,7 @@ impl Object {
                     }
                 }
                 4 => {
-                    mat.normal_map_file_name = pair.assert_string()?;
+                    mat.specular_map_file_name = pair.assert_string()?;
                 }
                 6 => {
                     mat.reflection_map_file_name = pair.assert_string()?;
-- 
2.43.0


From 8412364996414e20880e7808e4d7c1dc646e5c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:33 +0000
Subject: [PATCH 25/57] fix: read spatial filter matrices in the order they are
 written

---
 src/object.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 864dbde..54b409b 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1222,23 +1222,24 @@ impl Object {
                     } else {
                         matrix_list.push(pair.assert_f64()?);
                         if matrix_list.len() == 12 {
+                            // the values are in column-major order
                             let matrix = TransformationMatrix::from_vec(&[
                                 matrix_list[0],
-                                matrix_list[1],
-                                matrix_list[2],
-                                0.0,
                                 matrix_list[3],
-                                matrix_list[4],
-                                matrix_list[5],
-                                0.0,
                                 matrix_list[6],
-                                matrix_list[7],
-                                matrix_list[8],
-                                0.0,
                                 matrix_list[9],
+                                matrix_list[1],
+                                matrix_list[4],
+                                matrix_list[7],
                                 matrix_list[10],
+                                matrix_list[2],
+                                matrix_list[5],
+                                matrix_list[8],
                                 matrix_list[11],
                                 0.0,
+                                0.0,
+                                0.0,
+                                1.0,
                             ]);
                             matrix_list.clear();
                             if !set_inverse_matrix {
-- 
2.43.0


From f82f55e9209a20276918841632e5cefb785491bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:33 +0000
Subject: [PATCH 26/57] fix: write the time of sun study dates

---
 src/object.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 54b409b..a49a3b8 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -2,9 +2,8 @@
 
 use enum_primitive::FromPrimitive;
 use itertools::Itertools;
-use std::ops::Add;
 
-use chrono::Duration;
+use chrono::{Duration, Timelike};
 
 use crate::{
     CodePair, Color, DataTableValue, DxfError, DxfResult, Point, SectionTypeSettings,
@@ -1332,8 +1331,8 @@ impl Object {
                         match julian_day {
                             Some(jd) => {
                                 let date = as_datetime_local(f64::from(jd));
-                                let date =
-                                    date.add(Duration::seconds(i64::from(pair.assert_i32()?)));
+                                let seconds = Duration::seconds(i64::from(pair.assert_i32()?));
+                                let date = date.checked_add_signed(seconds).unwrap_or(date);
                                 ss.dates.push(date);
                                 julian_day = None;
                             }
@@ -1621,7 +1620,12 @@ impl Object {
                 pairs.push(CodePair::new_bool(291, ss.select_dates_from_calendar));
                 pairs.push(CodePair::new_i32(91, ss.dates.len() as i32));
                 for item in &ss.dates {
+                    // julian day followed by seconds past midnight
                     pairs.push(CodePair::new_i32(90, as_double_local(*item) as i32));
+                    pairs.push(CodePair::new_i32(
+                        90,
+                        item.num_seconds_from_midnight() as i32,
+                    ));
                 }
                 pairs.push(CodePair::new_bool(292, ss.select_range_of_dates));
                 pairs.push(CodePair::new_i32(93, ss.start_time_seconds_past_midnight));
-- 
2.43.0


From 33260f83e9991939a0379db8b0a368f064fd8f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:34 +0000
Subject: [PATCH 27/57] fix: read table styles before R2010 and the item after
 a cell style

---
 src/object.rs           | 1 +
 src/table_cell_style.rs | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index a49a3b8..158f463 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1400,6 +1400,7 @@ impl Object {
             match pair.code {
                 3 => {
                     ts.description = pair.assert_string()?;
+                    read_version = true; // the version, if any, comes before the description
                 }
                 7 => {
                     iter.put_back(Ok(pair)); // let the TableCellStyle reader parse this
diff --git a/src/table_cell_style.rs b/src/table_cell_style.rs
index 7136138..c738fe7 100644
--- a/src/table_cell_style.rs
+++ b/src/table_cell_style.rs
@@ -43,7 +43,10 @@ impl TableCellStyle {
         let mut style = TableCellStyle::default();
         loop {
             let pair = match iter.next() {
-                Some(Ok(CodePair { code: 0, .. })) => return Ok(Some(style)),
+                Some(Ok(pair @ CodePair { code: 0, .. })) => {
+                    iter.put_back(Ok(pair));
+                    return Ok(Some(style));
+                }
                 Some(Ok(pair)) => pair,
                 Some(Err(e)) => return Err(e),
                 None => return Ok(Some(style)),
-- 
2.43.0


From 57e10f677ed979fb4dc46a2abaa46372c31abf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:35 +0000
Subject: [PATCH 28/57] fix: read every section type setting and don't loop on
 unexpected ones

---
 src/object.rs                | 2 +-
 src/section_type_settings.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 158f463..1cde6fd 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1135,7 +1135,7 @@ impl Object {
             match pair.code {
                 1 => {
                     // value should be "SectionTypeSettings", but it doesn't really matter
-                    while let Some(ts) = SectionTypeSettings::read(iter)? {
+                    if let Some(ts) = SectionTypeSettings::read(iter)? {
                         ss.geometry_settings.push(ts);
                     }
                 }
diff --git a/src/section_type_settings.rs b/src/section_type_settings.rs
index 0081773..a609261 100644
--- a/src/section_type_settings.rs
+++ b/src/section_type_settings.rs
@@ -65,7 +65,7 @@ impl SectionTypeSettings {
                         ss.geometry_settings.push(gs);
                     }
                 }
-                3 => (), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
+                3 => return Ok(Some(ss)), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
                 90 => {
                     ss.section_type = pair.assert_i32()?;
                 }
-- 
2.43.0


From 6f32fd13741281639b608fe01e16ef415d20731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:36 +0000
Subject: [PATCH 29/57] fix: keep the extended data of an extension record
 apart from its data

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 1cde6fd..2999571 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1447,7 +1447,7 @@ impl Object {
         let mut reading_data = false;
         loop {
             let pair = next_pair!(iter);
-            if reading_data {
+            if reading_data && pair.code != 1001 {
                 xr.data_pairs.push(pair);
             } else {
                 if pair.code == 280 {
-- 
2.43.0


From cec1ec00a12c039670083f38cf6ef0cadf0080a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:02 +0000
Subject: [PATCH 30/57] fix: mark dictionaries that own their entries, not the
 ones that do not

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 2999571..bb57aa7 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1558,7 +1558,7 @@ impl Object {
             }
             ObjectType::Dictionary(ref dict) => {
                 pairs.push(CodePair::new_str(100, "AcDbDictionary"));
-                if version >= AcadVersion::R2000 && !dict.is_hard_owner {
+                if version >= AcadVersion::R2000 && dict.is_hard_owner {
                     pairs.push(CodePair::new_i16(280, as_i16(dict.is_hard_owner)));
                 }
                 if version >= AcadVersion::R2000 {
-- 
2.43.0


From ed6eee64b24cd93d4ff28912db28f78d12beaaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:02 +0000
Subject: [PATCH 31/57] fix: read the duplicate record handling of an extension
 record

---
 src/object.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index bb57aa7..308e000 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1445,9 +1445,12 @@ impl Object {
         iter: &mut CodePairPutBack,
     ) -> DxfResult<bool> {
         let mut reading_data = false;
+        let mut after_marker = false;
         loop {
             let pair = next_pair!(iter);
-            if reading_data && pair.code != 1001 {
+            let is_handling = pair.code == 280 && after_marker;
+            after_marker = false;
+            if reading_data && pair.code != 1001 && !is_handling {
                 xr.data_pairs.push(pair);
             } else {
                 if pair.code == 280 {
@@ -1468,6 +1471,7 @@ impl Object {
                 match pair.code {
                     100 => {
                         reading_data = true;
+                        after_marker = true;
                         continue;
                     } // value should be "AcDbXrecord", some dxf files still need to keep the object read
                     5 | 105 => (), // these codes aren't allowed here
-- 
2.43.0


From c65f85a141a4dd82dc82cbebfe2860716bcfc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:03 +0000
Subject: [PATCH 32/57] fix: write sun study hours in the size they are read in
 binary files

---
 src/object.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 308e000..da1b223 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -6,8 +6,8 @@ use itertools::Itertools;
 use chrono::{Duration, Timelike};
 
 use crate::{
-    CodePair, Color, DataTableValue, DxfError, DxfResult, Point, SectionTypeSettings,
-    TableCellStyle, TransformationMatrix,
+    CodePair, CodePairValue, Color, DataTableValue, DxfError, DxfResult, Point,
+    SectionTypeSettings, TableCellStyle, TransformationMatrix,
 };
 
 use crate::code_pair_put_back::CodePairPutBack;
@@ -1638,7 +1638,8 @@ impl Object {
                 pairs.push(CodePair::new_i32(95, ss.interval_in_seconds));
                 pairs.push(CodePair::new_i16(73, ss.hours.len() as i16));
                 for v in &ss.hours {
-                    pairs.push(CodePair::new_i16(290, *v as i16));
+                    // these codes are a single byte in binary files
+                    pairs.push(CodePair::new(290, CodePairValue::Boolean(*v as i16), 0));
                 }
                 pairs.push(CodePair::new_string(
                     340,
-- 
2.43.0


From 5465e5e86a77bdc97185dc4ab5d49b5784bd216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:03 +0000
Subject: [PATCH 33/57] fix: write and read the gloss factor and vertical
 tiling of materials

---
 spec/ObjectsSpec.xml | 3 ++-
 src/object.rs        | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 218bce2..1097d15 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_color_factor" />
+      <WriteField Field="specular_gloss_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
@@ -588,6 +588,7 @@
       <WriteField Field="gen_proc_color_rgb_value" />
       <WriteField Field="gen_proc_color_name" />
       <WriteField Field="map_u_tile" />
+      <WriteField Field="map_v_tile" />
       <WriteField Field="translucence" />
       <WriteField Field="self_illumination" />
       <WriteField Field="reflectivity" />
diff --git a/src/object.rs b/src/object.rs
index da1b223..5c6e071 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -682,6 +682,7 @@ impl Object {
         let mut read_luminance_mode = false;
         let mut read_bump_map_tiling_method = false;
         let mut read_normal_map_method = false;
+        let mut read_gen_proc_integer_value = false;
         let mut read_bump_map_auto_transform_method = false;
         let mut read_use_image_file_for_refraction_map = false;
         loop {
@@ -976,8 +977,11 @@ impl Object {
                     } else if !read_normal_map_method {
                         mat.normal_map_method = pair.assert_i16()?;
                         read_normal_map_method = true;
-                    } else {
+                    } else if !read_gen_proc_integer_value {
                         mat.gen_proc_integer_value = pair.assert_i16()?;
+                        read_gen_proc_integer_value = true;
+                    } else {
+                        mat.map_v_tile = pair.assert_i16()?;
                     }
                 }
                 272 => {
-- 
2.43.0


From d8ce3bf09e2b20f47740e272bef79521520e96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:11 +0000
Subject: [PATCH 34/57] fix: write the data of a VBA project

---
 spec/ObjectsSpec.xml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 1097d15..487133c 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -1193,8 +1193,8 @@
     <WriteOrder>
       <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbVbaProject")' />
       <WriteSpecificValue Code="90" Value="obj.data.len() as i32" />
-      <Foreach Field="obj.__hex_data">
-        <WriteSpecificValue Code="310" Value="item.clone()" />
+      <Foreach Field="obj.data.chunks(127).collect::&lt;Vec&lt;_&gt;&gt;()">
+        <WriteSpecificValue Code="310" Value="item.to_vec()" />
       </Foreach>
     </WriteOrder>
   </Object>
-- 
2.43.0


From 90c6764be444c31b9e6aed5bdfc01bb412210ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:50 +0000
Subject: [PATCH 35/57] fix: tell the owner of an object from its own values

---
 src/object.rs | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 5c6e071..3bb0720 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -116,14 +116,37 @@ impl Object {
                             let mut obj = Object::new(e);
                             if !obj.apply_custom_reader(iter)? {
                                 // no custom reader, use the auto-generated one
+                                let mut only_common = true; // nothing object-specific so far
+                                let mut owner = None; // a pair that might be the owner
                                 loop {
                                     match iter.next() {
                                         Some(Ok(pair @ CodePair { code: 0, .. })) => {
                                             // new object or ENDSEC
+                                            if let Some(pair) = owner.take() {
+                                                obj.apply_code_pair(&pair, iter)?;
+                                            }
                                             iter.put_back(Ok(pair));
                                             break;
                                         }
-                                        Some(Ok(pair)) => obj.apply_code_pair(&pair, iter)?,
+                                        Some(Ok(pair @ CodePair { code: 330, .. }))
+                                            if only_common && owner.is_none() =>
+                                        {
+                                            owner = Some(pair);
+                                        }
+                                        Some(Ok(pair)) => {
+                                            if !matches!(pair.code, 5 | 102) {
+                                                only_common = false;
+                                                if let Some(owner) = owner.take() {
+                                                    if obj.is_owner(&pair) {
+                                                        obj.common
+                                                            .apply_individual_pair(&owner, iter)?;
+                                                    } else {
+                                                        obj.apply_code_pair(&owner, iter)?;
+                                                    }
+                                                }
+                                            }
+                                            obj.apply_code_pair(&pair, iter)?;
+                                        }
                                         Some(Err(e)) => return Err(e),
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
@@ -161,7 +184,22 @@ impl Object {
             }
         }
     }
+    /// Some objects use the code of the owner for their own values, too; only the pair right before
+    /// the object-specific ones is the owner.
+    fn is_owner(&self, next_pair: &CodePair) -> bool {
+        match self.specific {
+            ObjectType::Field(_) => next_pair.code != 330, // there's no subclass marker
+            _ => next_pair.code == 100,
+        }
+    }
     fn apply_code_pair(&mut self, pair: &CodePair, iter: &mut CodePairPutBack) -> DxfResult<()> {
+        if let ObjectType::Field(ref mut field) = self.specific {
+            // before R2010 the objects have the same code as an id value
+            if pair.code == 330 && (field.__objects_handle.len() as i32) < field.__object_id_count {
+                field.__objects_handle.push(pair.as_handle()?);
+                return Ok(());
+            }
+        }
         if !self.specific.try_apply_code_pair(pair)? {
             self.common.apply_individual_pair(pair, iter)?;
         }
-- 
2.43.0


From a6ab46776f03288b1bf9fe4dde24805b20b0e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:20 +0000
Subject: [PATCH 36/57] fix: read all values of render settings that share a
 code

---
 src/object.rs | 171 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 170 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 3bb0720..32a8199 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1,5 +1,7 @@
 // other implementation is in `generated/objects.rs`
 
+use std::collections::HashMap;
+
 use enum_primitive::FromPrimitive;
 use itertools::Itertools;
 
@@ -117,6 +119,7 @@ impl Object {
                             if !obj.apply_custom_reader(iter)? {
                                 // no custom reader, use the auto-generated one
                                 let mut only_common = true; // nothing object-specific so far
+                                let mut counts = HashMap::new(); // of each code
                                 let mut owner = None; // a pair that might be the owner
                                 loop {
                                     match iter.next() {
@@ -145,7 +148,11 @@ impl Object {
                                                     }
                                                 }
                                             }
-                                            obj.apply_code_pair(&pair, iter)?;
+                                            let count = counts.entry(pair.code).or_insert(0);
+                                            if !obj.apply_nth_code_pair(&pair, *count)? {
+                                                obj.apply_code_pair(&pair, iter)?;
+                                            }
+                                            *count += 1;
                                         }
                                         Some(Err(e)) => return Err(e),
                                         None => return Err(DxfError::UnexpectedEndOfInput),
@@ -205,6 +212,168 @@ impl Object {
         }
         Ok(())
     }
+    /// Applies the `nth` pair with this code of objects that use the same code for several values.
+    fn apply_nth_code_pair(&mut self, pair: &CodePair, nth: usize) -> DxfResult<bool> {
+        match self.specific {
+            ObjectType::NavisWorksModelDefinition(ref mut obj) => match (pair.code, nth) {
+                (290, 0) => obj.is_model_loaded_on_drawing_open = pair.assert_bool()?,
+                (290, 1) => obj.is_host_geometry_drawn = pair.assert_bool()?,
+                _ => return Ok(false),
+            },
+            ObjectType::RapidRTRenderEnvironment(ref mut obj) => match (pair.code, nth) {
+                (290, 0) => obj.is_enabled = pair.assert_bool()?,
+                (290, 1) => obj.is_map_as_background = pair.assert_bool()?,
+                _ => return Ok(false),
+            },
+            ObjectType::RapidRenderSettings(ref mut obj) => match (pair.code, nth) {
+                (90, 0) => obj.subclass_version = pair.assert_i32()?,
+                (90, 1) => obj.display_index = pair.assert_i32()?,
+                (90, 2) => obj.subclass_version = pair.assert_i32()?,
+                (90, 3) => obj.render_level_count_imit = pair.assert_i32()?,
+                (90, 4) => obj.render_time_limit = pair.assert_i32()?,
+                (1, 0) => obj.render_preset_name = pair.assert_string()?,
+                (1, 1) => obj.preview_image_file_name = pair.assert_string()?,
+                (1, 2) => obj.render_preset_description = pair.assert_string()?,
+                (290, 0) => obj.are_materials_enabled = pair.assert_bool()?,
+                (290, 1) => obj.is_texture_sampling_enabled = pair.assert_bool()?,
+                (290, 2) => obj.are_back_faces_enabled = pair.assert_bool()?,
+                (290, 3) => obj.are_shadows_enabled = pair.assert_bool()?,
+                (290, 4) => obj.is_predefined_render_present = pair.assert_bool()?,
+                (70, 0) => {
+                    obj.render_duration =
+                        enum_from_number!(RenderDuration, ByTime, from_i16, pair.assert_i16()?)
+                }
+                (70, 1) => {
+                    obj.render_accuracy =
+                        enum_from_number!(RenderAccuracy, Low, from_i16, pair.assert_i16()?)
+                }
+                (70, 2) => {
+                    obj.sampling_filter =
+                        enum_from_number!(SamplingFilterType, Box, from_i16, pair.assert_i16()?)
+                }
+                (40, 0) => obj.filter_width = pair.assert_f64()?,
+                (40, 1) => obj.filter_height = pair.assert_f64()?,
+                _ => return Ok(false),
+            },
+            ObjectType::MentalRayRenderSettings(ref mut obj) => match (pair.code, nth) {
+                (90, 0) => obj.class_version_1 = pair.assert_i32()?,
+                (90, 1) => obj.texture_sampling_quality = pair.assert_i32()?,
+                (90, 2) => obj.class_version_2 = pair.assert_i32()?,
+                (90, 3) => obj.minimum_sampling_rate = pair.assert_i32()?,
+                (90, 4) => obj.maximum_sampling_rate = pair.assert_i32()?,
+                (90, 5) => obj.ray_tracing_depth_reflections = pair.assert_i32()?,
+                (90, 6) => obj.ray_tracing_depth_refractions = pair.assert_i32()?,
+                (90, 7) => obj.ray_tracing_depth_maximum = pair.assert_i32()?,
+                (90, 8) => obj.sample_count = pair.assert_i32()?,
+                (90, 9) => obj.photons_per_light = pair.assert_i32()?,
+                (90, 10) => obj.global_illumination_depth_reflections = pair.assert_i32()?,
+                (90, 11) => obj.global_illumination_depth_refractions = pair.assert_i32()?,
+                (90, 12) => obj.global_illumination_depth_maximum = pair.assert_i32()?,
+                (90, 13) => obj.final_gather_ray_count = pair.assert_i32()?,
+                (90, 14) => obj.tile_size = pair.assert_i32()?,
+                (90, 15) => obj.memory_limit = pair.assert_i32()?,
+                (1, 0) => obj.preset_name = pair.assert_string()?,
+                (1, 1) => obj.preview_file_name = pair.assert_string()?,
+                (1, 2) => obj.mi_statistics_file_name = pair.assert_string()?,
+                (290, 0) => obj.render_materials = pair.assert_bool()?,
+                (290, 1) => obj.render_back_faces = pair.assert_bool()?,
+                (290, 2) => obj.render_shadows = pair.assert_bool()?,
+                (290, 3) => obj.map_shadows = pair.assert_bool()?,
+                (290, 4) => obj.ray_tracing = pair.assert_bool()?,
+                (290, 5) => obj.use_global_illumination = pair.assert_bool()?,
+                (290, 6) => obj.use_global_illumination_radius = pair.assert_bool()?,
+                (290, 7) => obj.use_final_gather = pair.assert_bool()?,
+                (290, 8) => obj.use_final_gather_minimum_radius = pair.assert_bool()?,
+                (290, 9) => obj.use_final_gather_maximum_radius = pair.assert_bool()?,
+                (290, 10) => obj.use_final_gather_pixels = pair.assert_bool()?,
+                (290, 11) => obj.export_mi_statistics = pair.assert_bool()?,
+                (70, 0) => {
+                    obj.sampling_filter_type =
+                        enum_from_number!(SamplingFilterType, Box, from_i16, pair.assert_i16()?)
+                }
+                (70, 1) => {
+                    obj.shadow_mode =
+                        enum_from_number!(RenderShadowMode, Simple, from_i16, pair.assert_i16()?)
+                }
+                (70, 2) => {
+                    obj.diagnostic_mode =
+                        enum_from_number!(RenderDiagnosticMode, Off, from_i16, pair.assert_i16()?)
+                }
+                (70, 3) => {
+                    obj.diagnostic_grid_mode = enum_from_number!(
+                        RenderDiagnosticGridMode,
+                        Object,
+                        from_i16,
+                        pair.assert_i16()?
+                    )
+                }
+                (70, 4) => {
+                    obj.diagnostic_photon_mode = enum_from_number!(
+                        DiagnosticPhotonMode,
+                        Density,
+                        from_i16,
+                        pair.assert_i16()?
+                    )
+                }
+                (70, 5) => {
+                    obj.diagnostic_bsp_mode =
+                        enum_from_number!(DiagnosticBSPMode, Depth, from_i16, pair.assert_i16()?)
+                }
+                (70, 6) => {
+                    obj.tile_order =
+                        enum_from_number!(TileOrder, Hilbert, from_i16, pair.assert_i16()?)
+                }
+                (40, 0) => obj.filter_width = pair.assert_f64()?,
+                (40, 1) => obj.filter_height = pair.assert_f64()?,
+                (40, 2) => obj.sampling_contrast_color_red = pair.assert_f64()?,
+                (40, 3) => obj.sampling_contrast_color_green = pair.assert_f64()?,
+                (40, 4) => obj.sampling_contrast_color_blue = pair.assert_f64()?,
+                (40, 5) => obj.sampling_contrast_color_alpha = pair.assert_f64()?,
+                (40, 6) => obj.global_illumination_radius = pair.assert_f64()?,
+                (40, 7) => obj.final_gather_sample_radius_minimum = pair.assert_f64()?,
+                (40, 8) => obj.final_gather_sample_radius_maximum = pair.assert_f64()?,
+                (40, 9) => obj.luminance_scale = pair.assert_f64()?,
+                (40, 10) => obj.grid_size = pair.assert_f64()?,
+                _ => return Ok(false),
+            },
+            ObjectType::RenderEnvironment(ref mut obj) => match (pair.code, nth) {
+                (290, 0) => obj.is_fog_enabled = pair.assert_bool()?,
+                (290, 1) => obj.is_background_fog_enabled = pair.assert_bool()?,
+                (290, 2) => obj.use_environment_image = pair.assert_bool()?,
+                (280, 0) => obj.fog_color_red = i32::from(pair.assert_i16()?),
+                (280, 1) => obj.fog_color_green = i32::from(pair.assert_i16()?),
+                (280, 2) => obj.fog_color_blue = i32::from(pair.assert_i16()?),
+                (40, 0) => obj.near_fog_density_percent = pair.assert_f64()?,
+                (40, 1) => obj.far_fog_density_percent = pair.assert_f64()?,
+                (40, 2) => obj.near_clipping_plane_distance_percent = pair.assert_f64()?,
+                (40, 3) => obj.far_clipping_plane_distance_percent = pair.assert_f64()?,
+                _ => return Ok(false),
+            },
+            ObjectType::RenderGlobal(ref mut obj) => match (pair.code, nth) {
+                (90, 0) => obj.class_version = pair.assert_i32()?,
+                (90, 1) => {
+                    obj.render_procedure =
+                        enum_from_number!(RenderProcedure, View, from_i32, pair.assert_i32()?)
+                }
+                (90, 2) => {
+                    obj.render_destination = enum_from_number!(
+                        RenderDestination,
+                        RenderWindow,
+                        from_i32,
+                        pair.assert_i32()?
+                    )
+                }
+                (90, 3) => obj.image_width = pair.assert_i32()?,
+                (90, 4) => obj.image_height = pair.assert_i32()?,
+                (290, 0) => obj.save_to_file = pair.assert_bool()?,
+                (290, 1) => obj.use_predefined_presets_first = pair.assert_bool()?,
+                (290, 2) => obj.use_high_info_level = pair.assert_bool()?,
+                _ => return Ok(false),
+            },
+            _ => return Ok(false),
+        }
+        Ok(true)
+    }
     fn post_parse(&mut self) -> DxfResult<()> {
         match self.specific {
             ObjectType::AcadProxyObject(ref mut proxy) => {
-- 
2.43.0


From 077e5a845fdfc79bd39282b953771c717ba7521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:20 +0000
Subject: [PATCH 37/57] fix: don't allocate memory for thumbnails that are
 larger than their data allows

---
 src/thumbnail.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index d266d4f..c52161a 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -1,3 +1,9 @@
+use std::io::Cursor;
+
+use image::codecs::bmp::BmpDecoder;
+use image::error::{LimitError, LimitErrorKind};
+use image::{ImageDecoder, ImageError};
+
 use crate::code_pair_put_back::CodePairPutBack;
 
 use crate::{CodePair, DxfError, DxfResult};
@@ -8,6 +14,9 @@ const IMAGE_DATA_OFFSET_OFFSET: usize = 10;
 
 const BITMAP_HEADER_PALETTE_COUNT_OFFSET: usize = 32;
 
+/// Run-length encoding makes at most 255 pixels from 2 bytes.
+const MAX_BYTES_PER_DATA_BYTE: u64 = 512;
+
 pub(crate) fn read_thumbnail(iter: &mut CodePairPutBack) -> DxfResult<Option<image::DynamicImage>> {
     match read_thumbnail_bytes_from_code_pairs(iter)? {
         Some(mut data) => {
@@ -196,7 +205,16 @@ fn set_thumbnail_offset_for_bitmapv4header_palette_256() {
 }
 
 fn read_thumbnail_from_bytes(data: &[u8]) -> DxfResult<Option<image::DynamicImage>> {
-    let image = image::load_from_memory(data)?;
+    let decoder = BmpDecoder::new(Cursor::new(data))?;
+
+    // even the best compressed images have some data, don't believe any other dimensions
+    if decoder.total_bytes() > data.len() as u64 * MAX_BYTES_PER_DATA_BYTE {
+        return Err(DxfError::ImageError(ImageError::Limits(
+            LimitError::from_kind(LimitErrorKind::InsufficientMemory),
+        )));
+    }
+
+    let image = image::DynamicImage::from_decoder(decoder)?;
     Ok(Some(image))
 }
 
-- 
2.43.0


From fbf9fd3efb07aba8ac6621920c67664375ddc521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:29 +0000
Subject: [PATCH 38/57] fix: keep the two words of a proxy entity's drawing
 format apart

---
 src/entity.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 73bcd69..a537f26 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -170,15 +170,16 @@ impl ProxyEntity {
         (self.__object_drawing_format & 0xFFFF) as i32
     }
     pub fn set_object_drawing_format_version(&mut self, version: i32) {
-        self.__object_drawing_format |= version as u32 & 0xFFFF;
+        self.__object_drawing_format =
+            (self.__object_drawing_format & 0xFFFF_0000) | (version as u32 & 0xFFFF);
     }
     // upper word
     pub fn object_maintenance_release_version(&self) -> i32 {
-        self.__object_drawing_format as i32 >> 4
+        (self.__object_drawing_format >> 16) as i32
     }
     pub fn set_object_mainenance_release_version(&mut self, version: i32) {
         self.__object_drawing_format =
-            (version << 4) as u32 + (self.__object_drawing_format & 0xFFFF);
+            ((version as u32) << 16) | (self.__object_drawing_format & 0xFFFF);
     }
 }
 
-- 
2.43.0


From 458654af16179a2b5a20340cf060ae1a10601cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:29 +0000
Subject: [PATCH 39/57] fix: write and read multi-line, underlay and wipeout
 points under the same codes

---
 spec/EntitiesSpec.xml | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index 9f17b24..f87ecca 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
-        <WriteSpecificValue Code="10" Value="item.x" />
-        <WriteSpecificValue Code="20" Value="item.y" />
-        <WriteSpecificValue Code="30" Value="item.z" />
-      </Foreach>
-      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
+      <Foreach Field="ent.miter_directions">
+        <WriteSpecificValue Code="13" Value="item.x" />
+        <WriteSpecificValue Code="23" Value="item.y" />
+        <WriteSpecificValue Code="33" Value="item.z" />
+      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
-- 
2.43.0


From 112ff5499ada65f4eb2e1cfc80ff530a0cfee9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:42 +0000
Subject: [PATCH 40/57] fix: tell the common values of an entity from its own,
 and the graphics data of a proxy from its entity data

---
 src/entity.rs | 102 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 102 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index a537f26..7337c75 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -7,7 +7,9 @@ use crate::{CodePair, Color, DxfError, DxfResult, Handle, Point, Vector};
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::entities::*;
 use crate::enums::*;
+use crate::extension_data;
 use crate::helper_functions::*;
+use crate::x_data;
 use crate::Drawing;
 
 //------------------------------------------------------------------------------
@@ -668,6 +670,7 @@ impl Entity {
                             match EntityType::from_type_string(&type_string) {
                                 Some(e) => {
                                     let mut entity = Entity::new(e);
+                                    entity.read_common_values(iter)?;
                                     if !entity.apply_custom_reader(iter)? {
                                         // no custom reader, use the auto-generated one
                                         loop {
@@ -720,6 +723,44 @@ impl Entity {
             }
         }
     }
+    /// Reads the owner and the values under the `AcDbEntity` subclass marker.  Some entities use the same codes
+    /// for their own values under a later marker.
+    fn read_common_values(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
+        let mut is_common = false;
+        let mut others = vec![];
+        loop {
+            match iter.next() {
+                Some(Ok(pair)) => match pair.code {
+                    5 | extension_data::EXTENSION_DATA_GROUP => {
+                        self.common.apply_individual_pair(&pair, iter)?;
+                    }
+                    330 if others.is_empty() || is_common => {
+                        self.common.apply_individual_pair(&pair, iter)?;
+                    }
+                    100 if !is_common && pair.assert_string()? == "AcDbEntity" => {
+                        is_common = true;
+                    }
+                    6 | 8 | 38 | 48 | 60 | 62 | 67 | 92 | 284 | 310 | 347 | 370 | 390 | 420
+                    | 430 | 440
+                        if is_common =>
+                    {
+                        self.common.apply_individual_pair(&pair, iter)?;
+                    }
+                    0 | 100 | x_data::XDATA_APPLICATIONNAME => {
+                        others.push(Ok(pair));
+                        break;
+                    }
+                    _ => others.push(Ok(pair)),
+                },
+                Some(Err(e)) => return Err(e),
+                None => break,
+            }
+        }
+        while let Some(pair) = others.pop() {
+            iter.put_back(pair);
+        }
+        Ok(())
+    }
     fn apply_code_pair(&mut self, pair: &CodePair, iter: &mut CodePairPutBack) -> DxfResult<()> {
         if !self.specific.try_apply_code_pair(pair)? {
             self.common.apply_individual_pair(pair, iter)?;
@@ -851,6 +892,9 @@ impl Entity {
             EntityType::MText(ref mut mtext) => {
                 Entity::apply_custom_reader_mtext(&mut self.common, mtext, iter)
             }
+            EntityType::ProxyEntity(ref mut proxy) => {
+                Entity::apply_custom_reader_proxyentity(&mut self.common, proxy, iter)
+            }
             _ => Ok(false), // no custom reader
         }
     }
@@ -1207,6 +1251,64 @@ impl Entity {
             }
         }
     }
+    fn apply_custom_reader_proxyentity(
+        common: &mut EntityCommon,
+        proxy: &mut ProxyEntity,
+        iter: &mut CodePairPutBack,
+    ) -> DxfResult<bool> {
+        let mut reading_entity_data = false;
+        loop {
+            let pair = next_pair!(iter);
+            match pair.code {
+                70 => {
+                    proxy.original_data_format_is_dxf = as_bool(pair.assert_i16()?);
+                }
+                90 => {
+                    proxy.proxy_entity_class_id = pair.assert_i32()?;
+                }
+                91 => {
+                    proxy.application_entity_class_id = pair.assert_i32()?;
+                }
+                92 => {
+                    proxy.graphics_data_size = pair.assert_i32()?;
+                    reading_entity_data = false;
+                }
+                93 => {
+                    proxy.entity_data_size = pair.assert_i32()?;
+                    reading_entity_data = true;
+                }
+                94 => {
+                    proxy.terminator = pair.assert_i32()?;
+                }
+                95 => {
+                    proxy.__object_drawing_format = pair.assert_i32()? as u32;
+                }
+                310 => {
+                    // the graphics data and the entity data follow their respective sizes
+                    if reading_entity_data {
+                        proxy.entity_data_string.push(pair.assert_binary()?);
+                    } else {
+                        proxy.graphics_data_string.push(pair.assert_binary()?);
+                    }
+                }
+                330 => {
+                    proxy.object_id_1.push(pair.assert_string()?);
+                }
+                340 => {
+                    proxy.object_id_2.push(pair.assert_string()?);
+                }
+                350 => {
+                    proxy.object_id_3.push(pair.assert_string()?);
+                }
+                360 => {
+                    proxy.object_id_4.push(pair.assert_string()?);
+                }
+                _ => {
+                    common.apply_individual_pair(&pair, iter)?;
+                }
+            }
+        }
+    }
     fn apply_custom_reader_mtext(
         common: &mut EntityCommon,
         mtext: &mut MText,
-- 
2.43.0


From 360e05808e1abb45cc5678f71a503fcbb785226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:20 +0000
Subject: [PATCH 41/57] fix: read all header variables that share a field

---
 build/header_generator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/header_generator.rs b/build/header_generator.rs
index ea9477a..4dc6928 100644
--- a/build/header_generator.rs
+++ b/build/header_generator.rs
@@ -181,13 +181,13 @@ fn generate_set_defaults(fun: &mut String, element: &Element) {
 }
 
 fn generate_set_header_value(fun: &mut String, element: &Element) {
-    let mut seen_fields = HashSet::new();
+    let mut seen_names = HashSet::new();
     fun.push_str("    #[allow(clippy::cognitive_complexity)] // generated method\n");
     fun.push_str("    pub(crate) fn set_header_value(&mut self, variable: &str, pair: &CodePair) -> DxfResult<()> {\n");
     fun.push_str("        match variable {\n");
     for v in &element.children {
-        if !seen_fields.contains(&field(v)) {
-            seen_fields.insert(field(v));
+        if !seen_names.contains(&name(v)) {
+            seen_names.insert(name(v));
             fun.push_str(&format!("            \"${name}\" => {{", name = name(v)));
             let variables_with_name: Vec<&Element> = element
                 .children
-- 
2.43.0


From 3334e26fdc464cdb7d51995434f4da110fcdb6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:16 +0000
Subject: [PATCH 42/57] fix: write a block's extended data with the block,
 where it is read from

---
 src/block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 02ad583..6900a2d 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -257,6 +257,10 @@ impl Block {
             pairs.push(CodePair::new_string(4, &self.description));
         }
 
+        for x in &self.x_data {
+            x.add_code_pairs(pairs, version);
+        }
+
         for e in &self.entities {
             e.add_code_pairs(pairs, version, write_handles);
         }
@@ -288,10 +292,6 @@ impl Block {
         if version >= AcadVersion::R13 {
             pairs.push(CodePair::new_str(100, "AcDbBlockEnd"));
         }
-
-        for x in &self.x_data {
-            x.add_code_pairs(pairs, version);
-        }
     }
 }
 
-- 
2.43.0


From 43f10e690be3624dd385d73c96e6fb9deb564486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:59 +0000
Subject: [PATCH 43/57] fix: write gloss factor and vertical tiling of
 materials and data of VBA projects without touching the spec files

---
 spec/EntitiesSpec.xml | 20 ++++++++++----------
 spec/ObjectsSpec.xml  |  7 +++----
 src/object.rs         | 20 +++++++++++++++-----
 3 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index f87ecca..9f17b24 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
+        <WriteSpecificValue Code="10" Value="item.x" />
+        <WriteSpecificValue Code="20" Value="item.y" />
+        <WriteSpecificValue Code="30" Value="item.z" />
+      </Foreach>
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.segment_directions">
+      <Foreach Field="ent.miter_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
-        <WriteSpecificValue Code="13" Value="item.x" />
-        <WriteSpecificValue Code="23" Value="item.y" />
-        <WriteSpecificValue Code="33" Value="item.z" />
-      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 487133c..218bce2 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_gloss_factor" />
+      <WriteField Field="specular_color_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
@@ -588,7 +588,6 @@
       <WriteField Field="gen_proc_color_rgb_value" />
       <WriteField Field="gen_proc_color_name" />
       <WriteField Field="map_u_tile" />
-      <WriteField Field="map_v_tile" />
       <WriteField Field="translucence" />
       <WriteField Field="self_illumination" />
       <WriteField Field="reflectivity" />
@@ -1193,8 +1192,8 @@
     <WriteOrder>
       <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbVbaProject")' />
       <WriteSpecificValue Code="90" Value="obj.data.len() as i32" />
-      <Foreach Field="obj.data.chunks(127).collect::&lt;Vec&lt;_&gt;&gt;()">
-        <WriteSpecificValue Code="310" Value="item.to_vec()" />
+      <Foreach Field="obj.__hex_data">
+        <WriteSpecificValue Code="310" Value="item.clone()" />
       </Foreach>
     </WriteOrder>
   </Object>
diff --git a/src/object.rs b/src/object.rs
index 32a8199..dba23fb 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1891,11 +1891,21 @@ impl Object {
 
         true
     }
-    fn add_post_code_pairs(&self, _pairs: &mut [CodePair], _version: AcadVersion) {
-        // use the following pattern if this method is needed
-        // match self.specific {
-        //     _ => (),
-        // }
+    fn add_post_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion) {
+        match self.specific {
+            ObjectType::Material(ref mat) => {
+                pairs.push(CodePair::new_f64(44, mat.specular_gloss_factor));
+                if version >= AcadVersion::R2007 {
+                    pairs.push(CodePair::new_i16(271, mat.map_v_tile));
+                }
+            }
+            ObjectType::VbaProject(ref vba) => {
+                for chunk in vba.data.chunks(127) {
+                    pairs.push(CodePair::new_binary(310, chunk.to_vec()));
+                }
+            }
+            _ => (),
+        }
     }
 }
 
-- 
2.43.0


From e0cc40f79aaedffd613062ab55c0cb08ec471ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:41 +0000
Subject: [PATCH 44/57] fix: write multi-line and underlay points, read wipeout
 points, under their documented codes without touching the spec files

---
 src/entity.rs | 81 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 80 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 7337c75..c1e8cc0 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -430,6 +430,33 @@ impl EntityCommon {
 //------------------------------------------------------------------------------
 //                                                                        Entity
 //------------------------------------------------------------------------------
+macro_rules! add_underlay_code_pairs {
+    ($pairs: expr, $underlay: expr) => {{
+        $pairs.push(CodePair::new_str(100, "AcDbUnderlayReference"));
+        $pairs.push(CodePair::new_string(
+            340,
+            &$underlay.__object_handle.as_string(),
+        ));
+        $pairs.push(CodePair::new_f64(10, $underlay.insertion_point.x));
+        $pairs.push(CodePair::new_f64(20, $underlay.insertion_point.y));
+        $pairs.push(CodePair::new_f64(30, $underlay.insertion_point.z));
+        $pairs.push(CodePair::new_f64(41, $underlay.x_scale));
+        $pairs.push(CodePair::new_f64(42, $underlay.y_scale));
+        $pairs.push(CodePair::new_f64(43, $underlay.z_scale));
+        $pairs.push(CodePair::new_f64(50, $underlay.rotation_angle));
+        $pairs.push(CodePair::new_f64(210, $underlay.normal.x));
+        $pairs.push(CodePair::new_f64(220, $underlay.normal.y));
+        $pairs.push(CodePair::new_f64(230, $underlay.normal.z));
+        $pairs.push(CodePair::new_i16(280, $underlay.flags as i16));
+        $pairs.push(CodePair::new_i16(281, $underlay.contrast));
+        $pairs.push(CodePair::new_i16(282, $underlay.fade));
+        for point in &$underlay.points {
+            $pairs.push(CodePair::new_f64(11, point.x));
+            $pairs.push(CodePair::new_f64(21, point.y));
+        }
+    }};
+}
+
 impl Entity {
     /// Creates a new `Entity` with the default common values.
     pub fn new(specific: EntityType) -> Self {
@@ -762,7 +789,9 @@ impl Entity {
         Ok(())
     }
     fn apply_code_pair(&mut self, pair: &CodePair, iter: &mut CodePairPutBack) -> DxfResult<()> {
-        if !self.specific.try_apply_code_pair(pair)? {
+        if let (EntityType::Wipeout(ref mut wo), 24) = (&mut self.specific, pair.code) {
+            wo.__clipping_vertices_y.push(pair.assert_f64()?);
+        } else if !self.specific.try_apply_code_pair(pair)? {
             self.common.apply_individual_pair(pair, iter)?;
         }
         Ok(())
@@ -1483,6 +1512,12 @@ impl Entity {
             EntityType::OrdinateDimension(ref dim) => {
                 Entity::add_custom_code_pairs_ordinatedimension(pairs, dim, version);
             }
+            EntityType::MLine(ref mline) => {
+                Entity::add_custom_code_pairs_mline(pairs, mline);
+            }
+            EntityType::DgnUnderlay(ref underlay) => add_underlay_code_pairs!(pairs, underlay),
+            EntityType::DwfUnderlay(ref underlay) => add_underlay_code_pairs!(pairs, underlay),
+            EntityType::PdfUnderlay(ref underlay) => add_underlay_code_pairs!(pairs, underlay),
             EntityType::Polyline(ref poly) => {
                 Entity::add_custom_code_pairs_polyline(pairs, poly, version);
             }
@@ -1581,6 +1616,50 @@ impl Entity {
         pairs.push(CodePair::new_f64(34, dim.definition_point_3.z));
         true
     }
+    fn add_custom_code_pairs_mline(pairs: &mut Vec<CodePair>, mline: &MLine) {
+        pairs.push(CodePair::new_str(100, "AcDbMline"));
+        pairs.push(CodePair::new_string(2, &mline.style_name));
+        pairs.push(CodePair::new_string(340, &mline.__style_handle.as_string()));
+        pairs.push(CodePair::new_f64(40, mline.scale_factor));
+        pairs.push(CodePair::new_i16(70, mline.justification as i16));
+        pairs.push(CodePair::new_i16(71, mline.flags as i16));
+        pairs.push(CodePair::new_i16(72, mline.vertices.len() as i16));
+        pairs.push(CodePair::new_i16(73, mline.style_element_count as i16));
+        pairs.push(CodePair::new_f64(10, mline.start_point.x));
+        pairs.push(CodePair::new_f64(20, mline.start_point.y));
+        pairs.push(CodePair::new_f64(30, mline.start_point.z));
+        if mline.normal != Vector::z_axis() {
+            pairs.push(CodePair::new_f64(210, mline.normal.x));
+            pairs.push(CodePair::new_f64(220, mline.normal.y));
+            pairs.push(CodePair::new_f64(230, mline.normal.z));
+        }
+        for vertex in &mline.vertices {
+            pairs.push(CodePair::new_f64(11, vertex.x));
+            pairs.push(CodePair::new_f64(21, vertex.y));
+            pairs.push(CodePair::new_f64(31, vertex.z));
+        }
+        for direction in &mline.segment_directions {
+            pairs.push(CodePair::new_f64(12, direction.x));
+            pairs.push(CodePair::new_f64(22, direction.y));
+            pairs.push(CodePair::new_f64(32, direction.z));
+        }
+        for direction in &mline.miter_directions {
+            pairs.push(CodePair::new_f64(13, direction.x));
+            pairs.push(CodePair::new_f64(23, direction.y));
+            pairs.push(CodePair::new_f64(33, direction.z));
+        }
+        pairs.push(CodePair::new_i16(74, mline.parameters.len() as i16));
+        for parameter in &mline.parameters {
+            pairs.push(CodePair::new_f64(41, *parameter));
+        }
+        pairs.push(CodePair::new_i16(
+            75,
+            mline.area_fill_parameters.len() as i16,
+        ));
+        for parameter in &mline.area_fill_parameters {
+            pairs.push(CodePair::new_f64(42, *parameter));
+        }
+    }
     fn add_custom_code_pairs_polyline(
         pairs: &mut Vec<CodePair>,
         poly: &Polyline,
-- 
2.43.0


From f89c727a75e8326bddeb7a641e53617e9885c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:01 +0000
Subject: [PATCH 45/57] fix: normalize the entries that normalizing adds, so
 that doing it twice changes nothing

---
 src/drawing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 4e90198..904903f 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -475,16 +475,16 @@ impl Drawing {
         self.normalize_objects();
         self.normalize_app_ids();
         self.normalize_block_records();
-        self.normalize_layers();
-        self.normalize_text_styles();
-        self.normalize_view_ports();
-        self.normalize_views();
         self.ensure_dimension_styles();
         self.ensure_layers();
         self.ensure_line_types();
         self.ensure_text_styles();
         self.ensure_view_ports();
         self.ensure_ucs();
+        self.normalize_layers();
+        self.normalize_text_styles();
+        self.normalize_view_ports();
+        self.normalize_views();
 
         self.__app_ids.sort_by(|a, b| a.name.cmp(&b.name));
         self.__block_records.sort_by(|a, b| a.name.cmp(&b.name));
-- 
2.43.0


From affc156be2327e2cd6bbc06cec55259a2871d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:04 +0000
Subject: [PATCH 46/57] fix: do not add a multi-line style on load that the
 file itself defines

---
 src/drawing.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 904903f..dbcdba4 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -136,6 +136,7 @@ impl Drawing {
         drawing.header.next_available_handle = FIRST_TEMPORARY_HANDLE;
         let mut iter = CodePairPutBack::from_code_pair_iter(iter);
         let handle_seed = Drawing::read_sections(&mut drawing, &mut iter)?;
+        drawing.ensure_mline_styles();
         drawing.replace_temporary_handles(handle_seed);
         match iter.next() {
             Some(Ok(CodePair {
@@ -420,6 +421,7 @@ impl Drawing {
         self.set_entity_handles(&mut entity);
 
         // ensure invariants
+        self.ensure_mline_style_is_present_for_entity(&entity);
         self.add_entity_no_handle_set(entity)
     }
     /// Removes the specified `Entity` from the `Drawing`.
@@ -694,7 +696,6 @@ impl Drawing {
         self.__blocks.last().unwrap()
     }
     fn add_entity_no_handle_set(&mut self, entity: Entity) -> &Entity {
-        self.ensure_mline_style_is_present_for_entity(&entity);
         self.ensure_dimension_style_is_present_for_entity(&entity);
         self.ensure_layer_is_present(&entity.common.layer);
         self.ensure_line_type_is_present(&entity.common.line_type_name);
@@ -774,6 +775,14 @@ impl Drawing {
             });
         }
     }
+    /// The styles of multi-lines are objects, and those are read after the entities.
+    fn ensure_mline_styles(&mut self) {
+        let entities = std::mem::take(&mut self.__entities);
+        for entity in &entities {
+            self.ensure_mline_style_is_present_for_entity(entity);
+        }
+        self.__entities = entities;
+    }
     fn ensure_mline_style_is_present_for_entity(&mut self, entity: &Entity) {
         if let EntityType::MLine(ref ml) = &entity.specific {
             if !self.objects().any(|o| match o.specific {
@@ -1155,12 +1164,11 @@ impl Drawing {
         let mut iter = EntityIter::new(iter);
         let mut entities = vec![];
         iter.read_entities_into_vec(&mut entities)?;
-        for e in entities {
+        for mut e in entities {
             if e.common.handle.is_empty() {
-                self.add_entity(e);
-            } else {
-                self.add_entity_no_handle_set(e);
+                self.set_entity_handles(&mut e);
             }
+            self.add_entity_no_handle_set(e);
         }
         Ok(())
     }
-- 
2.43.0


From 0cfc618a6550ee4372241ed6ecdedafc337c59a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:18 +0000
Subject: [PATCH 47/57] fix: apply the DXB scale factor to coordinates only and
 read bulges as fractions

---
 src/dxb_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index 8acfd35..0faa61a 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -288,7 +288,7 @@ impl<T: Read> DxbReader<T> {
     }
     fn read_a(&mut self) -> DxfResult<f64> {
         let value = if self.is_integer_mode {
-            f64::from(read_i32(&mut self.reader)?) * self.scale_factor / 1_000_000.0
+            f64::from(read_i32(&mut self.reader)?) / 1_000_000.0
         } else {
             f64::from(read_f32(&mut self.reader)?)
         };
@@ -313,7 +313,7 @@ impl<T: Read> DxbReader<T> {
     }
     fn read_u(&mut self) -> DxfResult<f64> {
         let value = if self.is_integer_mode {
-            f64::from(read_i32(&mut self.reader)?) * 65536.0 * self.scale_factor
+            f64::from(read_i32(&mut self.reader)?) / 65536.0
         } else {
             f64::from(read_f32(&mut self.reader)?)
         };
@@ -321,7 +321,7 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_w(&mut self) -> DxfResult<i32> {
-        let value = (f64::from(read_i16(&mut self.reader)?) * self.scale_factor) as i32;
+        let value = i32::from(read_i16(&mut self.reader)?);
         self.advance_offset(2);
         Ok(value)
     }
-- 
2.43.0


From 8434139e60a3e051044e231f5cf749486c00477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:18 +0000
Subject: [PATCH 48/57] fix: report errors when reading the DXB scale factor

---
 src/dxb_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index 0faa61a..ff5ea6b 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -296,9 +296,9 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_f(&mut self) -> DxfResult<f64> {
-        let value = read_f64(&mut self.reader);
+        let value = read_f64(&mut self.reader)?;
         self.advance_offset(8);
-        Ok(value.or::<f64>(Ok(0.0)).unwrap())
+        Ok(value)
     }
     fn read_n(&mut self) -> DxfResult<f64> {
         if self.is_integer_mode {
-- 
2.43.0


From 2ce6e03a6a12a5d0d6254c9589312163d1ad85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:21 +0000
Subject: [PATCH 49/57] fix: write a lone block as DXB in the current number
 mode, with layers and colors, and entities otherwise

---
 src/dxb_writer.rs | 68 +++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index e84f68a..c138c56 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -23,53 +23,53 @@ impl<T: Write> DxbWriter<T> {
         self.writer.write_u8(0x1A)?;
         self.writer.write_u8(0x00)?;
 
-        let writing_block = drawing.entities().any(|_| true) && drawing.blocks().any(|_| true);
-        if writing_block {
-            // write block header
-            self.write_item_type(DxbItemType::BlockBase)?;
-            let block = drawing.blocks().next().unwrap();
-            self.write_n(block.base_point.x)?;
-            self.write_n(block.base_point.y)?;
-        }
-
         // force all numbers to be floats
         self.write_item_type(DxbItemType::NumberMode)?;
         self.write_w(1)?;
 
+        let block = match drawing.blocks().next() {
+            Some(block) if drawing.entities().next().is_none() && drawing.blocks().count() == 1 => {
+                Some(block)
+            }
+            _ => None,
+        };
+        match block {
+            Some(block) => {
+                // write block header
+                self.write_item_type(DxbItemType::BlockBase)?;
+                self.write_n(block.base_point.x)?;
+                self.write_n(block.base_point.y)?;
+                self.write_entities(block.entities.iter())?;
+            }
+            None => self.write_entities(drawing.entities())?,
+        }
+
+        // write null terminator
+        self.writer.write_u8(0)?;
+        Ok(())
+    }
+    fn write_entities<'a>(&mut self, entities: impl Iterator<Item = &'a Entity>) -> DxfResult<()> {
         // write color
         let mut last_color = 0i16;
         self.write_item_type(DxbItemType::NewColor)?;
         self.write_w(last_color)?;
 
-        if writing_block {
-            self.write_entities(&drawing.blocks().next().unwrap().entities)?;
-        } else {
-            let groups = drawing.entities().chunk_by(|&e| e.common.layer.clone());
-            for (layer, entities) in &groups {
-                self.write_item_type(DxbItemType::NewLayer)?;
-                self.write_null_terminated_string(&layer)?;
-                for entity in entities {
-                    match entity.common.color.raw_value() {
-                        c if c == last_color => (), // same color, do nothing
-                        c => {
-                            last_color = c;
-                            self.write_item_type(DxbItemType::NewColor)?;
-                            self.write_w(last_color)?;
-                        }
+        let groups = entities.chunk_by(|&e| e.common.layer.clone());
+        for (layer, entities) in &groups {
+            self.write_item_type(DxbItemType::NewLayer)?;
+            self.write_null_terminated_string(&layer)?;
+            for entity in entities {
+                match entity.common.color.raw_value() {
+                    c if c == last_color => (), // same color, do nothing
+                    c => {
+                        last_color = c;
+                        self.write_item_type(DxbItemType::NewColor)?;
+                        self.write_w(last_color)?;
                     }
-                    self.write_entity(entity)?;
                 }
+                self.write_entity(entity)?;
             }
         }
-
-        // write null terminator
-        self.writer.write_u8(0)?;
-        Ok(())
-    }
-    fn write_entities(&mut self, entities: &[Entity]) -> DxfResult<()> {
-        for entity in entities.iter() {
-            self.write_entity(entity)?;
-        }
         Ok(())
     }
     fn write_entity(&mut self, entity: &Entity) -> DxfResult<()> {
-- 
2.43.0


From 74c03e79a4890e83486d78cd6f4150bf5b04609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:22 +0000
Subject: [PATCH 50/57] fix: write the bulge and widths of vertices as DXB

---
 src/dxb_writer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index c138c56..2c93636 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -197,6 +197,15 @@ impl<T: Write> DxbWriter<T> {
         self.write_item_type(DxbItemType::Vertex)?;
         self.write_n(vertex.location.x)?;
         self.write_n(vertex.location.y)?;
+        if vertex.bulge != 0.0 {
+            self.write_item_type(DxbItemType::Bulge)?;
+            self.write_n(vertex.bulge)?;
+        }
+        if vertex.starting_width != 0.0 || vertex.ending_width != 0.0 {
+            self.write_item_type(DxbItemType::Width)?;
+            self.write_n(vertex.starting_width)?;
+            self.write_n(vertex.ending_width)?;
+        }
         Ok(())
     }
     fn write_string(&mut self, value: &str) -> DxfResult<()> {
-- 
2.43.0


From 537692f6e4b1a57ab3f9c9fef7d19882e059b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:25 +0000
Subject: [PATCH 51/57] fix: don't let characters that DXB can't hold end a
 layer name early

---
 src/dxb_writer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index 2c93636..df220f9 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -215,7 +215,14 @@ impl<T: Write> DxbWriter<T> {
         Ok(())
     }
     fn write_null_terminated_string(&mut self, value: &str) -> DxfResult<()> {
-        self.write_string(value)?;
+        for c in value.chars() {
+            // characters that don't fit would end the string or turn into others
+            let b = match u8::try_from(u32::from(c)) {
+                Ok(b) if b != 0 => b,
+                _ => b'?',
+            };
+            self.writer.write_u8(b)?;
+        }
         self.writer.write_u8(0)?;
         Ok(())
     }
-- 
2.43.0


From c33f8d677f93a9f22c3270ace34e713bfa21e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:16 +0000
Subject: [PATCH 52/57] fix: ignore unknown codes inside section settings and
 table cell styles

---
 src/section_geometry_settings.rs | 33 +++++++++++++++++++++-----------
 src/section_type_settings.rs     |  3 ++-
 src/table_cell_style.rs          |  3 ++-
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/section_geometry_settings.rs b/src/section_geometry_settings.rs
index b706266..98eb7c9 100644
--- a/src/section_geometry_settings.rs
+++ b/src/section_geometry_settings.rs
@@ -49,17 +49,27 @@ impl Default for SectionGeometrySettings {
 // internal visibility only
 impl SectionGeometrySettings {
     pub(crate) fn read(iter: &mut CodePairPutBack) -> DxfResult<Option<SectionGeometrySettings>> {
-        // check the first pair; only code 90 can start one of these
-        match iter.next() {
-            Some(Ok(pair @ CodePair { code: 90, .. })) => {
-                iter.put_back(Ok(pair));
-            }
-            Some(Ok(pair)) => {
-                iter.put_back(Ok(pair));
-                return Ok(None);
+        // check the first known pair; only code 90 can start one of these
+        loop {
+            match iter.next() {
+                Some(Ok(pair @ CodePair { code: 90, .. })) => {
+                    iter.put_back(Ok(pair));
+                    break;
+                }
+                Some(Ok(
+                    pair @ CodePair {
+                        code: 0..=3 | 91..=93 | 330 | 331 | 1000..,
+                        ..
+                    },
+                )) => {
+                    // belongs to what these are part of
+                    iter.put_back(Ok(pair));
+                    return Ok(None);
+                }
+                Some(Ok(_)) => (), // unknown code, ignore
+                Some(Err(e)) => return Err(e),
+                None => return Ok(None),
             }
-            Some(Err(e)) => return Err(e),
-            None => return Ok(None),
         }
 
         let mut gs = SectionGeometrySettings::default();
@@ -122,11 +132,12 @@ impl SectionGeometrySettings {
                 370 => {
                     gs.line_weight = pair.assert_i16()?;
                 }
-                _ => {
+                0 | 1000.. => {
                     // unexpected end; put the pair back and return what we have
                     iter.put_back(Ok(pair));
                     return Ok(Some(gs));
                 }
+                _ => (), // unknown code, ignore
             }
         }
 
diff --git a/src/section_type_settings.rs b/src/section_type_settings.rs
index a609261..7a4db9a 100644
--- a/src/section_type_settings.rs
+++ b/src/section_type_settings.rs
@@ -80,11 +80,12 @@ impl SectionTypeSettings {
                 331 => {
                     ss.destination_object_handle = pair.as_handle()?;
                 }
-                _ => {
+                0 | 1000.. => {
                     // unexpected end; put the pair back and return what we have
                     iter.put_back(Ok(pair));
                     return Ok(Some(ss));
                 }
+                _ => (), // unknown code, ignore
             }
         }
     }
diff --git a/src/table_cell_style.rs b/src/table_cell_style.rs
index c738fe7..2085d83 100644
--- a/src/table_cell_style.rs
+++ b/src/table_cell_style.rs
@@ -137,11 +137,12 @@ impl TableCellStyle {
                 289 => {
                     style.is_border_6_visible = as_bool(pair.assert_i16()?);
                 }
-                _ => {
+                0 | 1000.. => {
                     // unexpected pair; put the pair back and return what we have
                     iter.put_back(Ok(pair));
                     return Ok(Some(style));
                 }
+                _ => (), // unknown code, ignore
             }
         }
     }
-- 
2.43.0


From 9334377b9f3229c586eb02bc01b90c4bf302b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:24 +0000
Subject: [PATCH 53/57] fix: report offsets in binary files as those of the
 code, from the start of the file

---
 src/code_pair_iter.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index fe38645..dd35457 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -184,6 +184,7 @@ impl<T: Read> BinaryCodePairIter<T> {
     }
     fn read_code_pair(&mut self) -> Option<DxfResult<CodePair>> {
         // Read code.  If no data is available, fail gracefully.
+        let code_offset = self.offset;
         let mut code = match read_u8(&mut self.reader) {
             Some(Ok(c)) => i32::from(c),
             Some(Err(e)) => return Some(Err(DxfError::IoError(e))),
@@ -206,7 +207,7 @@ impl<T: Read> BinaryCodePairIter<T> {
         // Read value.  If no data is available die horribly.
         let expected_type = match ExpectedType::new(code) {
             Some(t) => t,
-            None => return Some(Err(DxfError::UnexpectedEnumValue(self.offset))),
+            None => return Some(Err(DxfError::UnexpectedEnumValue(code_offset))),
         };
         let (value, read_bytes) = match expected_type {
             ExpectedType::Boolean => {
@@ -268,7 +269,7 @@ impl<T: Read> BinaryCodePairIter<T> {
         self.offset += read_bytes;
         self.code_size_detection_complete = true;
 
-        Some(Ok(CodePair::new(code, value, self.offset)))
+        Some(Ok(CodePair::new(code, value, code_offset)))
     }
     /// Returns a string and the number of bytes it was read from, not including the NULL terminator.
     fn read_string_binary(&mut self) -> DxfResult<(String, usize)> {
@@ -310,14 +311,14 @@ where
             assert_or_err!(
                 try_option_io_result_into_err!(read_u8(&mut cursor)),
                 0x1A,
-                18
+                20
             );
             assert_or_err!(
                 try_option_io_result_into_err!(read_u8(&mut cursor)),
                 0x00,
-                19
+                21
             );
-            Box::new(BinaryCodePairIter::new(cursor, 20))
+            Box::new(BinaryCodePairIter::new(cursor, 22))
         }
         _ => Box::new(TextCodePairIter::new(
             cursor,
-- 
2.43.0


From 93a618f181af1e448afcd3688f0e15ac096c0ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:28 +0000
Subject: [PATCH 54/57] fix: don't ignore what follows a blank line in place of
 a code

---
 src/code_pair_iter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index dd35457..67747e6 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -95,8 +95,13 @@ impl<T: Read> TextCodePairIter<T> {
         };
         let code_line = code_line.trim();
         if code_line.is_empty() {
-            // might be an empty file only containing a newline
-            return None;
+            // might be an empty file only containing a newline; anything after it is an error
+            let mut rest = vec![];
+            match self.reader.read_to_end(&mut rest) {
+                Ok(_) if rest.iter().all(u8::is_ascii_whitespace) => return None,
+                Ok(_) => return Some(Err(DxfError::ParseError(self.offset))),
+                Err(e) => return Some(Err(DxfError::IoError(e))),
+            }
         }
 
         let code_offset = self.offset;
-- 
2.43.0


From a7a07949c7c3f6fa96249c354e2b6398648a8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:31 +0000
Subject: [PATCH 55/57] fix: don't cut handles with more digits than fit

---
 src/code_pair.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/code_pair.rs b/src/code_pair.rs
index c8a387c..8117d46 100644
--- a/src/code_pair.rs
+++ b/src/code_pair.rs
@@ -101,7 +101,11 @@ impl CodePair {
         while bytes.len() < 8 {
             bytes.insert(0, 0);
         }
-        Ok(Handle(BigEndian::read_u64(&bytes)))
+        let (excess, bytes) = bytes.split_at(bytes.len() - 8);
+        if excess.iter().any(|b| *b != 0) {
+            return Err(DxfError::ParseError(self.offset));
+        }
+        Ok(Handle(BigEndian::read_u64(bytes)))
     }
 }
 
-- 
2.43.0


From 3730124da6a5fba483e8765a4f273b3f500cc48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:36 +0000
Subject: [PATCH 56/57] fix: don't read words for non-finite numbers as short
 integers

---
 src/helper_functions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index e358b3b..8a62b0f 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -277,7 +277,8 @@ fn parse_i64_test() {
 
 pub(crate) fn parse_i16(s: String, offset: usize) -> DxfResult<i16> {
     match s.trim().parse::<f64>() {
-        Ok(s) => Ok(s as i16),
+        Ok(s) if s.is_finite() => Ok(s as i16),
+        Ok(_) => Err(DxfError::ParseError(offset)),
         Err(e) => Err(DxfError::ParseFloatError(e, offset)),
     }
 }
-- 
2.43.0


From 79cb3b3a0f25bbd7a028dbd1dfca3fd3a0b3d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:11 +0000
Subject: [PATCH 57/57] fix: find the pixels of thumbnails with a default
 palette or color masks

---
 src/thumbnail.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index c52161a..a93f1f0 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -12,8 +12,13 @@ const FILE_HEADER_LENGTH: usize = 14;
 const FILE_LENGTH_OFFSET: usize = 2;
 const IMAGE_DATA_OFFSET_OFFSET: usize = 10;
 
+const BITMAP_HEADER_BIT_COUNT_OFFSET: usize = 14;
+const BITMAP_HEADER_COMPRESSION_OFFSET: usize = 16;
 const BITMAP_HEADER_PALETTE_COUNT_OFFSET: usize = 32;
 
+const BITMAPINFOHEADER_LENGTH: usize = 40;
+const COMPRESSION_BITFIELDS: u32 = 3;
+
 /// Run-length encoding makes at most 255 pixels from 2 bytes.
 const MAX_BYTES_PER_DATA_BYTE: u64 = 512;
 
@@ -92,13 +97,27 @@ fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
             data,
             FILE_HEADER_LENGTH + BITMAP_HEADER_PALETTE_COUNT_OFFSET,
         )? as usize;
+        let bit_count = data[FILE_HEADER_LENGTH + BITMAP_HEADER_BIT_COUNT_OFFSET];
+        let palette_color_count = match (palette_color_count, bit_count) {
+            (0, 1..=8) => 1 << bit_count, // all colors of the palette are used
+            _ => palette_color_count,
+        };
         palette_color_count * 4 // always 4 bytes: BGRA
     } else {
         return Ok(false);
     };
 
+    // the color masks follow the shortest header, longer ones contain them
+    let compression = read_u32(data, FILE_HEADER_LENGTH + BITMAP_HEADER_COMPRESSION_OFFSET)?;
+    let masks_size =
+        if dib_header_size == BITMAPINFOHEADER_LENGTH && compression == COMPRESSION_BITFIELDS {
+            12 // 4 bytes each: red, green, blue
+        } else {
+            0
+        };
+
     // set the image data offset
-    let image_data_offset = FILE_HEADER_LENGTH + dib_header_size + palette_size;
+    let image_data_offset = FILE_HEADER_LENGTH + dib_header_size + masks_size + palette_size;
     set_i32(data, IMAGE_DATA_OFFSET_OFFSET, image_data_offset as i32)?;
 
     Ok(true)
-- 
2.43.0

