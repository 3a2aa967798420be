From 279f9543969893c00c164302356dc89285470858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 01/29] fix: stop at the end of the input in an unterminated
 single-quoted scalar

The parser looped forever (and grew its scratch buffer without bound when
the scalar contained an escaped quote).
---
 src/yaml/parsing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 836afb1..0d763f9 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -327,6 +327,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                [EOF, _] if self.is_eof() => {
+                    break;
+                }
                 _ => {
                     self.bump(1);
                 }
@@ -353,6 +356,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                [EOF, _] if self.is_eof() => {
+                    break;
+                }
                 [b, _] => {
                     self.bump(1);
                     self.scratch.push(b);
-- 
2.43.0


From 32cabdfa28704bc1908a7bb93585d9c5c456161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 02/29] fix: make nth_back on the mapping and sequence
 iterators count from the back

---
 src/yaml/mapping/iter.rs  | 2 +-
 src/yaml/sequence/iter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mapping/iter.rs b/src/yaml/mapping/iter.rs
index 36119a7..66d0eb6 100644
--- a/src/yaml/mapping/iter.rs
+++ b/src/yaml/mapping/iter.rs
@@ -59,7 +59,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.mapping_item(*self.iter.nth(n)?);
+        let item = self.data.mapping_item(*self.iter.nth_back(n)?);
         let key = self.data.str(item.key.id);
         let value = Value::new(self.data, item.value);
         Some((key, value))
diff --git a/src/yaml/sequence/iter.rs b/src/yaml/sequence/iter.rs
index 5dc2de7..538141a 100644
--- a/src/yaml/sequence/iter.rs
+++ b/src/yaml/sequence/iter.rs
@@ -51,7 +51,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.sequence_item(*self.iter.nth(n)?);
+        let item = self.data.sequence_item(*self.iter.nth_back(n)?);
         Some(Value::new(self.data, item.value))
     }
 }
-- 
2.43.0


From 93529ba1b2e83c0c5175b257d7642383231f5a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 03/29] fix: keep directives and the document delimiter when
 writing a document

The text up to and including `%` directives and `---` was dropped by both
write_to and Display.
---
 src/yaml/document.rs | 20 ++++++++++++++++++--
 src/yaml/parsing.rs  | 19 +++++++++++++++----
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 85c7dde..8046c16 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -30,6 +30,9 @@ use crate::yaml::{Value, ValueMut};
 #[derive(Clone)]
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub struct Document {
+    /// Headers and the document delimiter preceeding the root value, if any.
+    #[cfg_attr(feature = "serde-edits", serde(default))]
+    header: Option<StringId>,
     suffix: StringId,
     pub(crate) root: Id,
     pub(crate) data: Data,
@@ -37,8 +40,13 @@ pub struct Document {
 
 impl Document {
     /// Construct a new document.
-    pub(crate) fn new(suffix: StringId, root: Id, data: Data) -> Self {
-        Self { suffix, root, data }
+    pub(crate) fn new(header: Option<StringId>, suffix: StringId, root: Id, data: Data) -> Self {
+        Self {
+            header,
+            suffix,
+            root,
+            data,
+        }
     }
 
     /// Get the document as a [`Value`].
@@ -267,6 +275,10 @@ impl Document {
     where
         O: io::Write,
     {
+        if let Some(header) = self.header {
+            output.write_all(self.data.str(header))?;
+        }
+
         output.write_all(self.data.prefix(self.root))?;
         self.data.raw(self.root).write_to(&self.data, &mut output)?;
         output.write_all(self.data.str(self.suffix))?;
@@ -277,6 +289,10 @@ impl Document {
     fn display(&self, f: &mut fmt::Formatter) -> fmt::Result {
         use std::fmt::Display;
 
+        if let Some(header) = self.header {
+            self.data.str(header).fmt(f)?;
+        }
+
         self.data.prefix(self.root).fmt(f)?;
         self.data.raw(self.root).display(&self.data, f, None)?;
         self.data.str(self.suffix).fmt(f)?;
diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 0d763f9..9fc8701 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -107,7 +107,7 @@ impl<'a> Parser<'a> {
 
     /// Parses a single value, and returns its kind.
     pub(crate) fn parse(mut self) -> Result<Document> {
-        let prefix = self.start_of_document();
+        let (header, prefix) = self.start_of_document();
 
         let (root, suffix) = self.value(&State::new(prefix).with_tabular())?;
 
@@ -120,25 +120,31 @@ impl<'a> Parser<'a> {
             return Err(Error::new(self.n..self.input.len(), ErrorKind::ExpectedEof));
         }
 
-        Ok(Document::new(suffix, root, self.data))
+        Ok(Document::new(header, suffix, root, self.data))
     }
 
     /// Process document delimiter.
     ///
     /// This is a `---` that is allowed to exist at the beginning of the document.
-    fn start_of_document(&mut self) -> StringId {
+    ///
+    /// Returns everything up until the end of the headers and the delimiter, if
+    /// there are any, and the whitespace preceeding the root value.
+    fn start_of_document(&mut self) -> (Option<StringId>, StringId) {
         let mut prefix = self.ws();
+        let mut header = 0;
 
         loop {
             match self.peek() {
                 // Process headers.
                 [b'%', _, _] => {
                     self.find(raw::NEWLINE);
+                    header = self.n;
                     prefix = self.ws();
                 }
                 // Process start-of-document.
                 [b'-', b'-', b'-'] => {
                     self.bump(3);
+                    header = self.n;
                     prefix = self.ws();
                     break;
                 }
@@ -148,7 +154,12 @@ impl<'a> Parser<'a> {
             }
         }
 
-        prefix
+        let header = match self.input.get(..header) {
+            None | Some([]) => None,
+            Some(header) => Some(self.data.insert_str(header)),
+        };
+
+        (header, prefix)
     }
 
     /// Test if eof.
-- 
2.43.0


From 80abfee9d331d4048ed4114075bb32673c2dad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 04/29] fix: write flow collections back with the separators
 and spacing they had

A missing comma was accepted and then written out (`[1a]` became `[1,a]`),
whitespace before `,` was dropped in mappings and rejected in sequences, and
whitespace after a block scalar moved across the following separator.
---
 src/yaml/mapping/mapping_mut.rs   | 10 +++-
 src/yaml/parsing.rs               | 87 ++++++++++++++++++++-----------
 src/yaml/raw.rs                   | 28 ++++++++++
 src/yaml/sequence/sequence_mut.rs |  9 +++-
 4 files changed, 100 insertions(+), 34 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index c1d4654..9c63793 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -198,8 +198,14 @@ impl<'a> MappingMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
-        self.data
-            .replace(item_id, Raw::MappingItem(raw::MappingItem { key, value }));
+        self.data.replace(
+            item_id,
+            Raw::MappingItem(raw::MappingItem {
+                key,
+                value,
+                suffix: None,
+            }),
+        );
 
         self.data.mapping_mut(self.id).items.push(item_id);
         value
diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 9fc8701..b80569d 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -269,6 +269,28 @@ impl<'a> Parser<'a> {
         true
     }
 
+    /// Test if the current position is followed by a control character, after
+    /// any amount of whitespace.
+    fn is_inline_end(&self) -> bool {
+        let mut n = self.n;
+
+        while let Some(&b) = self.input.get(n) {
+            match b {
+                ws!() => {
+                    n = n.wrapping_add(1);
+                }
+                ctl!() => {
+                    return true;
+                }
+                _ => {
+                    return false;
+                }
+            }
+        }
+
+        true
+    }
+
     /// Consume a single number.
     fn number(&mut self, s: &State, start: usize) -> Option<Raw> {
         let mut hint = serde_hint::U64;
@@ -314,6 +336,10 @@ impl<'a> Parser<'a> {
             return None;
         }
 
+        if s.inline && !self.is_inline_end() {
+            return None;
+        }
+
         let string = self.data.insert_str(self.string(start));
         Some(Raw::Number(raw::Number::new(string, hint)))
     }
@@ -514,35 +540,29 @@ impl<'a> Parser<'a> {
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut item_prefix = self.ws();
 
         while !matches!(self.peek1(), b']' | EOF) {
-            trailing = false;
-
             let item_id = self.placeholder(item_prefix, Some(id));
             let value_prefix = self.ws();
             let (value, next_prefix) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
+            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            trailing = matches!(self.peek1(), b',');
+            let suffix = trailing.then_some(item_prefix);
 
+            self.data
+                .replace(item_id, raw::SequenceItem { value, suffix });
             items.push(item_id);
 
-            if last {
-                item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            if !trailing {
                 break;
             }
 
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
-            } else {
-                last = true;
-            }
-
-            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            self.bump(1);
+            item_prefix = self.ws();
         }
 
         if !matches!(self.peek1(), b']') {
@@ -575,14 +595,11 @@ impl<'a> Parser<'a> {
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut start = self.n;
         let mut item_prefix = self.ws();
 
         while !matches!(self.peek1(), b'}' | EOF) {
-            trailing = false;
-
             let Some(key) = self.until_colon(self.n) else {
                 return Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator));
             };
@@ -593,22 +610,19 @@ impl<'a> Parser<'a> {
             let (value, next_prefix) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
-            items.push(item_id);
-
             item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            trailing = matches!(self.peek1(), b',');
+            let suffix = trailing.then_some(item_prefix);
 
-            if last {
-                break;
-            }
+            self.data
+                .replace(item_id, raw::MappingItem { key, value, suffix });
+            items.push(item_id);
 
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
-            } else {
-                last = true;
+            if !trailing {
+                break;
             }
 
+            self.bump(1);
             start = self.n;
             item_prefix = self.ws();
         }
@@ -653,7 +667,13 @@ impl<'a> Parser<'a> {
             let (value, ws) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
+            self.data.replace(
+                item_id,
+                raw::SequenceItem {
+                    value,
+                    suffix: None,
+                },
+            );
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
@@ -722,7 +742,14 @@ impl<'a> Parser<'a> {
                     .with_parent_indent(indent),
             )?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
+            self.data.replace(
+                item_id,
+                raw::MappingItem {
+                    key,
+                    value,
+                    suffix: None,
+                },
+            );
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 25ebc81..102a167 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -834,11 +834,20 @@ impl Sequence {
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub(crate) struct SequenceItem {
     pub(crate) value: Id,
+    /// Whitespace between the value and the `,` which separates it from the
+    /// next item in an inline collection, if any.
+    #[cfg_attr(feature = "serde-edits", serde(default))]
+    pub(crate) suffix: Option<StringId>,
 }
 
 impl SequenceItem {
     fn display(&self, data: &Data, f: &mut fmt::Formatter) -> fmt::Result {
         data.raw(self.value).display(data, f, Some(self.value))?;
+
+        if let Some(suffix) = self.suffix {
+            write!(f, "{}", data.str(suffix))?;
+        }
+
         Ok(())
     }
 
@@ -848,6 +857,11 @@ impl SequenceItem {
     {
         o.write_all(data.prefix(self.value))?;
         data.raw(self.value).write_to(data, o)?;
+
+        if let Some(suffix) = self.suffix {
+            o.write_all(data.str(suffix))?;
+        }
+
         Ok(())
     }
 }
@@ -973,6 +987,10 @@ impl Mapping {
 pub(crate) struct MappingItem {
     pub(crate) key: String,
     pub(crate) value: Id,
+    /// Whitespace between the value and the `,` which separates it from the
+    /// next item in an inline collection, if any.
+    #[cfg_attr(feature = "serde-edits", serde(default))]
+    pub(crate) suffix: Option<StringId>,
 }
 
 impl MappingItem {
@@ -980,6 +998,11 @@ impl MappingItem {
         self.key.display(data, f)?;
         write!(f, ":")?;
         data.raw(self.value).display(data, f, Some(self.value))?;
+
+        if let Some(suffix) = self.suffix {
+            write!(f, "{}", data.str(suffix))?;
+        }
+
         Ok(())
     }
 
@@ -991,6 +1014,11 @@ impl MappingItem {
         write!(o, ":")?;
         o.write_all(data.prefix(self.value))?;
         data.raw(self.value).write_to(data, o)?;
+
+        if let Some(suffix) = self.suffix {
+            o.write_all(data.str(suffix))?;
+        }
+
         Ok(())
     }
 }
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index c4397c6..cf07745 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -127,8 +127,13 @@ impl<'a> SequenceMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
-        self.data
-            .replace(item_id, Raw::SequenceItem(raw::SequenceItem { value }));
+        self.data.replace(
+            item_id,
+            Raw::SequenceItem(raw::SequenceItem {
+                value,
+                suffix: None,
+            }),
+        );
         self.data.sequence_mut(self.id).items.push(item_id);
         value
     }
-- 
2.43.0


From f335ee8793bcb0a70aa78f5d95a7fba95dd826dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 05/29] fix: don't duplicate the whitespace after a block
 scalar without lines

---
 src/yaml/parsing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index b80569d..9e179a3 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -837,6 +837,7 @@ impl<'a> Parser<'a> {
         let prefix = self.data.insert_str(self.string(start));
 
         let start = self.n;
+        let mut end = start;
         let (mut ws, mut nl) = self.ws_nl();
 
         if nl == 0 {
@@ -844,6 +845,7 @@ impl<'a> Parser<'a> {
             let out = self.input.get(start..self.n).unwrap_or_default().trim();
             self.scratch.extend_from_slice(out);
 
+            end = self.n;
             (ws, nl) = self.ws_nl();
 
             if !self.is_eof() {
@@ -851,7 +853,6 @@ impl<'a> Parser<'a> {
             }
         }
 
-        let mut end = self.n;
         let indent = self.indent();
 
         while !self.is_eof() {
-- 
2.43.0


From 31b20f8671ef6c17c2d80dda4c812c488d7e443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 06/29] fix: keep a single trailing line break in a block
 scalar unless '+' is used

---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 9e179a3..0ea579c 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -927,7 +927,7 @@ impl<'a> Parser<'a> {
                 if a == b'>' { raw::SPACE } else { raw::NEWLINE },
                 a == b'>',
                 b != b'-',
-                b == b'-',
+                b != b'+',
             ),
             _ => {
                 'default: {
-- 
2.43.0


From 54860eb4b9998bc541f3212190d632b0dad709ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 07/29] fix: don't recurse forever when deserializing a number
 which doesn't fit its hint

---
 src/yaml/serde/de.rs | 60 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 5a146c4..704791a 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -40,18 +40,54 @@ impl<'de> Deserializer<'de> for Value<'de> {
             raw::Raw::Null(..) => visitor.visit_none(),
             raw::Raw::Boolean(bool) => visitor.visit_bool(bool.value),
             raw::Raw::Number(raw) => match raw.hint {
-                RawNumberHint::Float32 => self.deserialize_f32(visitor),
-                RawNumberHint::Float64 => self.deserialize_f64(visitor),
-                RawNumberHint::Unsigned8 => self.deserialize_u8(visitor),
-                RawNumberHint::Unsigned16 => self.deserialize_u16(visitor),
-                RawNumberHint::Unsigned32 => self.deserialize_u32(visitor),
-                RawNumberHint::Unsigned64 => self.deserialize_u64(visitor),
-                RawNumberHint::Unsigned128 => self.deserialize_u128(visitor),
-                RawNumberHint::Signed8 => self.deserialize_i8(visitor),
-                RawNumberHint::Signed16 => self.deserialize_i16(visitor),
-                RawNumberHint::Signed32 => self.deserialize_i32(visitor),
-                RawNumberHint::Signed64 => self.deserialize_i64(visitor),
-                RawNumberHint::Signed128 => self.deserialize_i128(visitor),
+                RawNumberHint::Float32 => match self.as_f32() {
+                    Some(value) => visitor.visit_f32(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
+                RawNumberHint::Float64 => match self.as_f64() {
+                    Some(value) => visitor.visit_f64(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
+                RawNumberHint::Unsigned8 => match self.as_u8() {
+                    Some(value) => visitor.visit_u8(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
+                RawNumberHint::Unsigned16 => match self.as_u16() {
+                    Some(value) => visitor.visit_u16(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
+                RawNumberHint::Unsigned32 => match self.as_u32() {
+                    Some(value) => visitor.visit_u32(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
+                RawNumberHint::Unsigned64 => match self.as_u64() {
+                    Some(value) => visitor.visit_u64(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
+                RawNumberHint::Unsigned128 => match self.as_u128() {
+                    Some(value) => visitor.visit_u128(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
+                RawNumberHint::Signed8 => match self.as_i8() {
+                    Some(value) => visitor.visit_i8(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
+                RawNumberHint::Signed16 => match self.as_i16() {
+                    Some(value) => visitor.visit_i16(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
+                RawNumberHint::Signed32 => match self.as_i32() {
+                    Some(value) => visitor.visit_i32(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
+                RawNumberHint::Signed64 => match self.as_i64() {
+                    Some(value) => visitor.visit_i64(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
+                RawNumberHint::Signed128 => match self.as_i128() {
+                    Some(value) => visitor.visit_i128(value),
+                    None => Err(Self::Error::custom("number out of range")),
+                },
             },
             raw::Raw::String(raw) => {
                 let string = self.data.str(raw.id);
-- 
2.43.0


From 8dbfb7faedd3405461c6643b817a83dd0df7517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 08/29] fix: support deserializing 128-bit integers

---
 src/yaml/serde/de.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 704791a..e392c91 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -163,6 +163,17 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_i128() {
+            Some(value) => visitor.visit_i128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
@@ -207,6 +218,17 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_u128() {
+            Some(value) => visitor.visit_u128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
-- 
2.43.0


From 10766bb9ac86099aed968ed3350d2fa3330f1000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 09/29] fix: don't write the prefix of an omitted value in
 write_to

Display leaves it out for empty nulls and for block collections without
items, so the two produced different documents.
---
 src/yaml/raw.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 102a167..617d2a7 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -308,6 +308,21 @@ impl Raw {
         Ok(())
     }
 
+    /// Test if the value has no textual representation, in which case its
+    /// prefix isn't written either.
+    fn is_omitted(&self) -> bool {
+        match self {
+            Self::Null(Null::Empty) => true,
+            Self::Mapping(raw) => {
+                matches!(raw.kind, MappingKind::Mapping) && raw.items.is_empty()
+            }
+            Self::Sequence(raw) => {
+                matches!(raw.kind, SequenceKind::Mapping) && raw.items.is_empty()
+            }
+            _ => false,
+        }
+    }
+
     pub(crate) fn is_tabular(&self) -> bool {
         matches!(
             self,
@@ -855,8 +870,13 @@ impl SequenceItem {
     where
         O: ?Sized + io::Write,
     {
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        let raw = data.raw(self.value);
+
+        if !raw.is_omitted() {
+            o.write_all(data.prefix(self.value))?;
+        }
+
+        raw.write_to(data, o)?;
 
         if let Some(suffix) = self.suffix {
             o.write_all(data.str(suffix))?;
@@ -1012,8 +1032,13 @@ impl MappingItem {
     {
         self.key.write_to(data, o)?;
         write!(o, ":")?;
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        let raw = data.raw(self.value);
+
+        if !raw.is_omitted() {
+            o.write_all(data.prefix(self.value))?;
+        }
+
+        raw.write_to(data, o)?;
 
         if let Some(suffix) = self.suffix {
             o.write_all(data.str(suffix))?;
-- 
2.43.0


From 042292a4294774189207c8b2ed7fefdca3484021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 10/29] fix: accept the \" escape in double-quoted scalars

---
 src/yaml/parsing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 0ea579c..d05f8da 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -485,6 +485,7 @@ impl<'a> Parser<'a> {
             b'f' => b'\x0c',
             b'r' => b'\r',
             b'e' => b'\x1b',
+            b'"' => b'"',
             b'\\' => b'\"',
             b'x' => {
                 self.bump(1);
-- 
2.43.0


From a943c782ab39fc48b34fa61f30f3c59e6eb60b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 11/29] fix: escape backslashes when writing double-quoted
 scalars

---
 src/yaml/raw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 617d2a7..8e35dd4 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -581,6 +581,7 @@ impl String {
                     '\r' => "\\r",
                     '\u{1b}' => "\\e",
                     '\"' => "\\\"",
+                    '\\' => "\\x5c",
                     c if c.is_ascii_control() => {
                         write!(f, "{}\\x{:02x}", &string[start..index], c as u8)?;
                         start = end;
@@ -663,7 +664,7 @@ impl String {
             let mut s = 0;
 
             for (index, b) in string.bytes().enumerate() {
-                let esc = match b {
+                let esc: &[u8] = match b {
                     b'\0' => b"\\0",
                     0x07 => b"\\a",
                     0x08 => b"\\b",
@@ -674,6 +675,7 @@ impl String {
                     b'\r' => b"\\r",
                     0x1b => b"\\e",
                     b'\"' => b"\\\"",
+                    b'\\' => b"\\x5c",
                     c if c.is_ascii_control() => {
                         o.write_all(&string[s..index])?;
                         write!(o, "\\x{c:02x}")?;
-- 
2.43.0


From 4584c3b0c9ca0a7ec3cc1854f4b2aa4fe8c93cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 12/29] fix: quote strings which wouldn't read back as
 themselves

Strings such as "", "~", "TRUE", "- a", "# a", "[a" or "a, b" (in a flow
collection) were written bare, and changed meaning when read back.
---
 src/yaml/raw.rs       | 42 +++++++++++++++++++++++++++++-------------
 src/yaml/value_mut.rs |  3 ++-
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 8e35dd4..e242e34 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -1,7 +1,6 @@
 use std::fmt::{self, Write};
 use std::io;
 use std::iter;
-use std::mem;
 
 use bstr::{BStr, ByteSlice};
 #[cfg(feature = "serde-edits")]
@@ -492,24 +491,18 @@ pub(crate) enum RawStringKind {
 impl RawStringKind {
     /// Detect the appropriate kind to use for the given string.
     pub(crate) fn detect(string: &str) -> RawStringKind {
-        if matches!(string, "true" | "false" | "null") {
-            return RawStringKind::Single;
-        }
-
-        let mut kind = RawStringKind::Bare;
-        let mut first = true;
+        let mut kind = if Self::is_ambiguous(string) {
+            RawStringKind::Single
+        } else {
+            RawStringKind::Bare
+        };
 
         for c in string.chars() {
-            let first = mem::take(&mut first);
-
             match c {
-                '0'..='9' if first => {
-                    kind = RawStringKind::Single;
-                }
                 '\'' => {
                     return RawStringKind::Double;
                 }
-                ':' => {
+                ':' | '#' | ',' | '[' | ']' | '{' | '}' => {
                     kind = RawStringKind::Single;
                 }
                 b if b.is_control() => {
@@ -521,6 +514,29 @@ impl RawStringKind {
 
         kind
     }
+
+    /// Test if a bare string would be read back as something else.
+    fn is_ambiguous(string: &str) -> bool {
+        let Some(first) = string.chars().next() else {
+            return true;
+        };
+
+        if matches!(first, '0'..='9' | '-' | ' ' | '"' | '>' | '|' | '%') || string.ends_with(' ') {
+            return true;
+        }
+
+        if string
+            .bytes()
+            .all(|b| matches!(b, b'0'..=b'9' | b'.' | b'e' | b'E'))
+        {
+            return true;
+        }
+
+        string == "~"
+            || string.eq_ignore_ascii_case("null")
+            || string.eq_ignore_ascii_case("true")
+            || string.eq_ignore_ascii_case("false")
+    }
 }
 
 /// A YAML string.
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 7e9c45d..e91a282 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -402,7 +402,8 @@ impl<'a> ValueMut<'a> {
     /// used.
     ///
     /// The heuristic used is:
-    /// * [`StringKind::Single`] will be used if the leading digit is numeric.
+    /// * [`StringKind::Single`] will be used if the leading digit is numeric, or
+    ///   if the bare string would be read back as something else.
     /// * [`StringKind::Double`] will be used if either a single `'` is
     ///   encounted, or a non-graphical component that requires escaping.
     /// * Otherwise, [`StringKind::Bare`] is used.
-- 
2.43.0


From f7bc105d07fc5a30b64de92f600204876cbec1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 13/29] fix: read every mapping key like the first one

Quoted keys were only decoded for the first entry of a block mapping, and
not at all in flow mappings, and other keys ended at any ':'.
---
 src/yaml/parsing.rs | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index d05f8da..8a057f1 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -601,7 +601,12 @@ impl<'a> Parser<'a> {
         let mut item_prefix = self.ws();
 
         while !matches!(self.peek1(), b'}' | EOF) {
-            let Some(key) = self.until_colon(self.n) else {
+            let key = match self.quoted_key()? {
+                Some(key) => Some(key),
+                None => self.until_colon(self.n),
+            };
+
+            let Some(key) = key else {
                 return Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator));
             };
 
@@ -761,7 +766,7 @@ impl<'a> Parser<'a> {
             }
 
             start = self.n;
-            current_key = self.next_mapping_key();
+            current_key = self.next_mapping_key()?;
         }
 
         self.data.replace(
@@ -810,6 +815,24 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Process a quoted key which is followed by `:`, if there is one.
+    fn quoted_key(&mut self) -> Result<Option<raw::String>> {
+        let start = self.n;
+
+        let key = match self.peek1() {
+            b'"' => self.double_quoted()?,
+            b'\'' => self.single_quoted(),
+            _ => return Ok(None),
+        };
+
+        if !matches!(self.peek1(), b':') {
+            self.n = start;
+            return Ok(None);
+        }
+
+        Ok(Some(key))
+    }
+
     /// Process a key up until `:`.
     fn until_colon(&mut self, start: usize) -> Option<raw::String> {
         while !matches!(self.peek1(), b':' | EOF) {
@@ -976,16 +999,20 @@ impl<'a> Parser<'a> {
     }
 
     /// Parse next mapping key.
-    fn next_mapping_key(&mut self) -> Option<raw::String> {
+    fn next_mapping_key(&mut self) -> Result<Option<raw::String>> {
         let start = self.n;
 
+        if let Some(key) = self.quoted_key()? {
+            return Ok(Some(key));
+        }
+
         let string = loop {
-            match self.peek1() {
-                b':' | EOF => {
+            match self.peek() {
+                [b':', ws!(EOF)] | [raw::NEWLINE | EOF, _] => {
                     let string = self.string(start);
 
                     if string.is_empty() {
-                        return None;
+                        return Ok(None);
                     }
 
                     break string;
@@ -997,6 +1024,10 @@ impl<'a> Parser<'a> {
         };
 
         let string = self.data.insert_str(string);
-        Some(raw::String::new(raw::RawStringKind::Bare, string, string))
+        Ok(Some(raw::String::new(
+            raw::RawStringKind::Bare,
+            string,
+            string,
+        )))
     }
 }
-- 
2.43.0


From 423a1601585c8b0dbe9b80372d64d54c69a8539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 14/29] fix: read an empty sequence item or value before a less
 indented sequence as null

What followed was nested inside of the empty item, such as `c` in
"a:\n-\nc: 1" or the second item in "- a:\n- b: 1".
---
 src/yaml/parsing.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 8a057f1..8ff7a78 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -38,6 +38,7 @@ struct State {
     inline: bool,
     tabular: bool,
     parent_indent: Option<usize>,
+    in_sequence: bool,
 }
 
 impl State {
@@ -49,6 +50,7 @@ impl State {
             inline: false,
             tabular: false,
             parent_indent: None,
+            in_sequence: false,
         }
     }
 
@@ -83,6 +85,14 @@ impl State {
             ..self
         }
     }
+
+    #[inline]
+    fn with_in_sequence(self) -> Self {
+        Self {
+            in_sequence: true,
+            ..self
+        }
+    }
 }
 
 /// A YAML parser.
@@ -654,6 +664,23 @@ impl<'a> Parser<'a> {
         Ok(id)
     }
 
+    /// Parse a sequence.
+    ///
+    /// A sequence which belongs to one of the parents of the value means that
+    /// we've encountered a nul value.
+    fn sequence_or_nul(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
+        let indent = self.indent();
+
+        // NB: The sequence inside of a mapping might have the same indentation
+        // as its keys.
+        if matches!(s.parent_indent, Some(i) if i > indent || (s.in_sequence && i == indent)) {
+            let empty = self.data.insert_str("");
+            return Ok((self.placeholder(empty, s.parent), Some(s.prefix)));
+        }
+
+        self.sequence(s)
+    }
+
     /// Parse a sequence.
     fn sequence(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
         let empty = self.data.insert_str("");
@@ -670,8 +697,13 @@ impl<'a> Parser<'a> {
             self.bump(1);
 
             let value_prefix = self.ws();
-            let (value, ws) =
-                self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
+            let (value, ws) = self.value(
+                &State::new(value_prefix)
+                    .with_parent(item_id)
+                    .with_tabular()
+                    .with_parent_indent(indent)
+                    .with_in_sequence(),
+            )?;
 
             self.data.replace(
                 item_id,
@@ -922,7 +954,7 @@ impl<'a> Parser<'a> {
     fn value(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
         let (raw, ws) = match self.peek() {
             [b'-', ws!()] if !s.inline => {
-                return self.sequence(s);
+                return self.sequence_or_nul(s);
             }
             [b'"', _] => {
                 let start = self.n;
-- 
2.43.0


From 0d4da17a5a435f28665281aaec129bc9f5bd918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 15/29] fix: don't write a trailing separator in a flow
 collection without items

---
 src/yaml/raw.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index e242e34..f23d673 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -813,7 +813,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(f, ",")?;
             }
 
@@ -850,7 +850,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(o, ",")?;
             }
 
@@ -974,7 +974,7 @@ impl Mapping {
         }
 
         if let MappingKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(f, ",")?;
             }
 
@@ -1007,7 +1007,7 @@ impl Mapping {
         }
 
         if let MappingKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(o, ",")?;
             }
 
-- 
2.43.0


From c83f388436f15ce1357a792f7d74172909650a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 16/29] fix: indent a block scalar deeper than the container
 it's set in

set_block used the whitespace directly in front of the replaced value, so in
nested containers its lines were indented less than what follows, which was
then read back as a part of the block.
---
 src/yaml/mapping/mapping_mut.rs   |  2 +-
 src/yaml/raw.rs                   | 57 ++++++++++++++++++++++++-------
 src/yaml/sequence/sequence_mut.rs |  2 +-
 src/yaml/value_mut.rs             |  2 +-
 4 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 9c63793..b72c491 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -661,7 +661,7 @@ impl<'a> MappingMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let value = raw::new_block_in(self.data, self.id, iter, block);
         self.inner_insert(key.as_ref(), Separator::Auto, value);
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index f23d673..c2d36b1 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -2,7 +2,7 @@ use std::fmt::{self, Write};
 use std::io;
 use std::iter;
 
-use bstr::{BStr, ByteSlice};
+use bstr::ByteSlice;
 #[cfg(feature = "serde-edits")]
 use serde::{Deserialize, Serialize};
 
@@ -130,24 +130,56 @@ where
     Raw::String(String::new(kind, string, string))
 }
 
-/// Construct a block with the given configuration.
-pub(crate) fn new_block<I>(data: &mut Data, id: Id, iter: I, block: Block) -> Raw
+/// Construct a block with the given configuration, which is going to be a
+/// direct child of the given container.
+pub(crate) fn new_block_in<I>(data: &mut Data, container: Id, iter: I, block: Block) -> Raw
 where
     I: IntoIterator,
     I::Item: AsRef<str>,
 {
-    let (indent, prefix) = match data.raw(id) {
-        Raw::Mapping(raw) => (raw.indent.wrapping_add(2), BStr::new(b"")),
-        Raw::Sequence(raw) => (raw.indent.wrapping_add(2), BStr::new(b"")),
-        _ => {
-            let prefix = data.str(data.layout(id).prefix);
+    let indent = container_indent(data, container).unwrap_or_default();
+    let prefix = vec![SPACE; indent.saturating_add(2)];
+    new_block(data, &prefix, iter, block)
+}
 
-            let n = prefix.rfind([NEWLINE]).map_or(0, |i| i.wrapping_add(1));
+/// Construct a block with the given configuration, which is going to replace
+/// the given value.
+pub(crate) fn new_block_at<I>(data: &mut Data, id: Id, iter: I, block: Block) -> Raw
+where
+    I: IntoIterator,
+    I::Item: AsRef<str>,
+{
+    let container = data
+        .layout(id)
+        .parent
+        .and_then(|id| data.layout(id).parent)
+        .and_then(|id| container_indent(data, id));
 
-            (2, &prefix[n..])
-        }
+    let mut prefix = match container {
+        Some(indent) => vec![SPACE; indent],
+        None => self::indent(data.prefix(id)).to_vec(),
     };
 
+    prefix.extend([SPACE; 2]);
+    new_block(data, &prefix, iter, block)
+}
+
+/// Get the indentation of the given container.
+fn container_indent(data: &Data, id: Id) -> Option<usize> {
+    match data.raw(id) {
+        Raw::Mapping(raw) => Some(raw.indent),
+        Raw::Sequence(raw) => Some(raw.indent),
+        _ => None,
+    }
+}
+
+/// Construct a block with the given configuration, where each line is preceeded
+/// by the given prefix.
+fn new_block<I>(data: &mut Data, prefix: &[u8], iter: I, block: Block) -> Raw
+where
+    I: IntoIterator,
+    I::Item: AsRef<str>,
+{
     let mut original = Vec::new();
     let mut out = Vec::new();
 
@@ -163,8 +195,7 @@ where
 
     while let Some(part) = it.next() {
         original.push(NEWLINE);
-        original.extend_from_slice(prefix.as_bytes());
-        original.resize(original.len() + indent, SPACE);
+        original.extend_from_slice(prefix);
         original.extend(part.as_ref().as_bytes());
         out.extend(part.as_ref().as_bytes());
 
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index cf07745..cfb7616 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -549,7 +549,7 @@ impl<'a> SequenceMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let value = raw::new_block_in(self.data, self.id, iter, block);
         self.inner_push(Separator::Auto, value);
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index e91a282..2623509 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -575,7 +575,7 @@ impl<'a> ValueMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let value = raw::new_block_at(self.data, self.id, iter, block);
         self.data.replace(self.id, value);
     }
 
-- 
2.43.0


From bc1f0d4bec53880b19a89ca64d65524be442603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 17/29] fix: indent a container made out of the first item of a
 sequence

The first item has no indentation of its own in front of it, so the entries
of the new container were written at the wrong column.
---
 src/yaml/raw.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index c2d36b1..b708eff 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -88,10 +88,8 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
         // - two: 2
         //   three: 3
         // ```
-        if let Some((Raw::SequenceItem(..), layout)) = parent.map(|id| data.pair(id)) {
-            let indent = self::count_indent(data.str(layout.prefix))
-                .saturating_add(2)
-                .saturating_add(extra);
+        if let Some(Raw::SequenceItem(..)) = parent.map(|id| data.raw(id)) {
+            let indent = indent.saturating_add(2).saturating_add(extra);
             return (indent, data.insert_str(" "));
         }
     }
-- 
2.43.0


From 5ea203de60d901643027bd3d4cc2fe22cf3ddeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 18/29] fix: separate a value pushed after an omitted one from
 its dash

---
 src/yaml/sequence/sequence_mut.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index cfb7616..d66b0b0 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -116,9 +116,17 @@ impl<'a> SequenceMut<'a> {
         let value_prefix = match separator {
             Separator::Auto => match self.data.sequence(self.id).items.last() {
                 Some(last) => {
-                    self.data
-                        .layout(self.data.sequence_item(*last).value)
-                        .prefix
+                    let raw = self.data.sequence(self.id);
+                    let prefix = self.data.prefix(self.data.sequence_item(*last).value);
+
+                    if matches!(raw.kind, raw::SequenceKind::Mapping) && prefix.is_empty() {
+                        // An omitted value isn't separated from its `-`.
+                        self.data.insert_str(" ")
+                    } else {
+                        self.data
+                            .layout(self.data.sequence_item(*last).value)
+                            .prefix
+                    }
                 }
                 None => self.data.insert_str(" "),
             },
-- 
2.43.0


From 88463aaaed72be4dae1b6315b787b56e2b330640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 19/29] fix: separate a value from its key or dash when it
 replaces an omitted one

Setting a value which was omitted wrote `a:5`, which isn't read back as an
entry anymore.
---
 src/yaml/data.rs                | 15 +++++++++++++++
 src/yaml/mapping/mapping_mut.rs |  2 +-
 src/yaml/value_mut.rs           | 14 +++++++-------
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 9207f74..5206003 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -306,6 +306,21 @@ impl Data {
         self.drop_kind(removed);
     }
 
+    /// Replace the value at the given location.
+    ///
+    /// This makes sure that a value which used to be omitted is separated from
+    /// whatever precedes it.
+    pub(crate) fn set(&mut self, id: Id, raw: raw::Raw) {
+        let is_omitted = matches!(self.raw(id), raw::Raw::Null(raw::Null::Empty));
+
+        if is_omitted && self.layout(id).parent.is_some() && self.prefix(id).is_empty() {
+            let prefix = self.insert_str(" ");
+            self.replace_with(id, prefix, raw);
+        } else {
+            self.replace(id, raw);
+        }
+    }
+
     /// Replace with indentation.
     pub(crate) fn replace_with(&mut self, id: Id, prefix: StringId, raw: raw::Raw) {
         let Some(value) = self.slab.get_mut(id.get()) else {
diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index b72c491..c15b343 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -160,7 +160,7 @@ impl<'a> MappingMut<'a> {
             .find(|item| item.key.id == key)
             .map(|item| item.value)
         {
-            self.data.replace(id, value);
+            self.data.set(id, value);
             return id;
         }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 2623509..1251913 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -334,7 +334,7 @@ macro_rules! set_float {
         pub fn $name(&mut self, value: $ty) {
             let mut buffer = ryu::Buffer::new();
             let string = self.data.insert_str(buffer.format(value));
-            self.data.replace(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
+            self.data.set(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
         }
     };
 }
@@ -358,7 +358,7 @@ macro_rules! set_number {
         pub fn $name(&mut self, value: $ty) {
             let mut buffer = itoa::Buffer::new();
             let string = self.data.insert_str(buffer.format(value));
-            self.data.replace(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
+            self.data.set(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
         }
     };
 }
@@ -392,7 +392,7 @@ impl<'a> ValueMut<'a> {
             Null::Tilde => raw::Null::Tilde,
             Null::Empty => raw::Null::Empty,
         };
-        self.data.replace(self.id, Raw::Null(raw_kind));
+        self.data.set(self.id, Raw::Null(raw_kind));
     }
 
     /// Set the value as a string.
@@ -444,7 +444,7 @@ impl<'a> ValueMut<'a> {
         S: AsRef<str>,
     {
         let value = raw::new_string(self.data, string);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     /// Set the value as a string with a custom [`StringKind`].
@@ -470,7 +470,7 @@ impl<'a> ValueMut<'a> {
         S: AsRef<str>,
     {
         let value = raw::new_string_with(self.data, string, kind);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     /// Set the value as a literal block.
@@ -576,7 +576,7 @@ impl<'a> ValueMut<'a> {
         I::Item: AsRef<str>,
     {
         let value = raw::new_block_at(self.data, self.id, iter, block);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     /// Set the value as a boolean.
@@ -595,7 +595,7 @@ impl<'a> ValueMut<'a> {
     /// ```
     pub fn set_bool(&mut self, value: bool) {
         let value = raw::new_bool(self.data, value);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     set_float!(set_f32, f32, "32-bit float", 10.42, F32);
-- 
2.43.0


From 9c472a70e49dc7022dd598458e31d892f3f46349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 20/29] fix: read an omitted value as null wherever it is
 omitted

An omitted value was null in front of another key, but an empty string at the
end of the document and in flow collections.
---
 src/yaml/parsing.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 8ff7a78..00faa0d 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -1007,8 +1007,18 @@ impl<'a> Parser<'a> {
                     // of line for us, so use the current span as the production
                     // string.
                     let string = self.string(start);
+
+                    // NB: The whitespace in front of an omitted value belongs
+                    // to whatever follows it.
+                    if string.is_empty() && s.parent.is_some() {
+                        let empty = self.data.insert_str("");
+                        return Ok((self.placeholder(empty, s.parent), Some(s.prefix)));
+                    }
+
                     (
-                        if string == b"~" {
+                        if string.is_empty() {
+                            Raw::Null(raw::Null::Empty)
+                        } else if string == b"~" {
                             Raw::Null(raw::Null::Tilde)
                         } else if string.eq_ignore_ascii_case(b"null") {
                             Raw::Null(raw::Null::Keyword(self.data.insert_str(string)))
-- 
2.43.0


From aa340250866e35f258be209cdf65191d87b5da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 21/29] fix: don't treat a NUL byte as the separator of an
 entry in a flow mapping

---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 00faa0d..0932908 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -871,7 +871,7 @@ impl<'a> Parser<'a> {
             self.bump(1);
         }
 
-        if self.is_eof() {
+        if !matches!(self.peek1(), b':') {
             return None;
         }
 
-- 
2.43.0


From 5c198f95a71eeb95614f78a2c447c1c23952f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 22/29] fix: write the whitespace and comments in front of
 sequence items as they are

---
 src/yaml/raw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index b708eff..5cca9df 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -863,7 +863,7 @@ impl Sequence {
         let mut it = self.items.iter().peekable();
 
         while let Some(item) = it.next() {
-            write!(o, "{}", data.prefix(*item))?;
+            o.write_all(data.prefix(*item))?;
 
             if let SequenceKind::Mapping = self.kind {
                 write!(o, "-")?;
-- 
2.43.0


From c7afe17d0cb22ef8318ab7de19b990feae32f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 23/29] fix: don't read a scalar without digits as a number

---
 src/yaml/parsing.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 0932908..d76ad6d 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -313,7 +313,6 @@ impl<'a> Parser<'a> {
         let mut wants_dot = true;
         let mut wants_e = true;
         let mut has_number = false;
-        let mut any = false;
 
         loop {
             match self.peek1() {
@@ -334,11 +333,10 @@ impl<'a> Parser<'a> {
                 }
             }
 
-            any = true;
             self.bump(1);
         }
 
-        if !any {
+        if !has_number {
             return None;
         }
 
-- 
2.43.0


From 284c613c921bf803ec5a6e523bc3cfc39de9c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 24/29] fix: end a plain scalar at trailing whitespace or a
 comment

---
 src/yaml/parsing.rs | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index d76ad6d..5eda200 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -221,17 +221,6 @@ impl<'a> Parser<'a> {
         }
     }
 
-    /// Find the given character.
-    fn find2(&mut self, a: u8, b: u8) {
-        let input = self.input.get(self.n..).unwrap_or_default();
-
-        if let Some(n) = memchr::memchr2(a, b, input) {
-            self.bump(n);
-        } else {
-            self.n = self.input.len();
-        }
-    }
-
     /// Consume whitespace.
     fn ws_nl(&mut self) -> (StringId, u32) {
         let start = self.n;
@@ -258,7 +247,8 @@ impl<'a> Parser<'a> {
         self.ws_nl().0
     }
 
-    /// Test if current position contains nothing but whitespace until we reach a line end.
+    /// Test if current position contains nothing but whitespace or a comment
+    /// until we reach a line end.
     fn is_eol(&self) -> bool {
         let mut n = self.n;
 
@@ -270,6 +260,9 @@ impl<'a> Parser<'a> {
                 other_ws!() => {
                     n = n.wrapping_add(1);
                 }
+                b'#' => {
+                    return n != self.n;
+                }
                 _ => {
                     return false;
                 }
@@ -292,6 +285,9 @@ impl<'a> Parser<'a> {
                 ctl!() => {
                     return true;
                 }
+                b'#' => {
+                    return n != self.n;
+                }
                 _ => {
                     return false;
                 }
@@ -823,13 +819,14 @@ impl<'a> Parser<'a> {
         raw::count_indent(string)
     }
 
-    /// Process a key up until `:` or end of the current line.
+    /// Process a key up until `:`, a comment, or end of the current line.
     fn key_or_eol(&mut self, start: usize) -> Option<raw::String> {
         loop {
-            self.find2(b':', raw::NEWLINE);
-
             match self.peek() {
-                [raw::NEWLINE | EOF, _] => {
+                [raw::NEWLINE, _] | [other_ws!(), b'#'] => {
+                    return None;
+                }
+                _ if self.is_eof() => {
                     return None;
                 }
                 // Only treat something as a key if it's a colon immediately
@@ -994,7 +991,7 @@ impl<'a> Parser<'a> {
                     if s.inline {
                         // Seek until we find a control character, since we're
                         // simply treating the current segment as a string.
-                        while !matches!(self.peek1(), ctl!()) {
+                        while !matches!(self.peek(), [ctl!(), _] | [ws!(), b'#']) {
                             self.bump(1);
                         }
                     } else if let Some(key) = self.key_or_eol(start) {
@@ -1003,8 +1000,12 @@ impl<'a> Parser<'a> {
 
                     // NB: calling `key_or_eol` will have consumed up until end
                     // of line for us, so use the current span as the production
-                    // string.
-                    let string = self.string(start);
+                    // string, without any trailing whitespace.
+                    let string = self
+                        .string(start)
+                        .trim_end_with(|c| c.is_ascii_whitespace());
+
+                    self.n = start.saturating_add(string.len());
 
                     // NB: The whitespace in front of an omitted value belongs
                     // to whatever follows it.
-- 
2.43.0


From 96fca6abb96de8bbe6e1e0cf631964ea63204f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:00 +0000
Subject: [PATCH 25/29] fix: return no integer for a number which doesn't fit
 the requested type

---
 src/yaml/number.rs | 50 ++++++++++++++++++++++++++++++++--------------
 src/yaml/value.rs  | 44 ++++++++++++++++++++++++----------------
 2 files changed, 62 insertions(+), 32 deletions(-)

diff --git a/src/yaml/number.rs b/src/yaml/number.rs
index 26d8a4c..22e66b2 100644
--- a/src/yaml/number.rs
+++ b/src/yaml/number.rs
@@ -1,12 +1,33 @@
 use core::fmt;
+use core::str::FromStr;
 
 use bstr::{BStr, ByteSlice};
+use lexical_core::FromLexical;
 
 use crate::yaml::data::Data;
 use crate::yaml::raw;
 
+/// Parse a float.
+pub(crate) fn float<T>(string: &BStr) -> Option<T>
+where
+    T: FromLexical,
+{
+    lexical_core::parse(string).ok()
+}
+
+/// Parse an integer.
+///
+/// NB: This doesn't use `lexical_core`, since it wraps some of the numbers which
+/// don't fit the type being parsed.
+pub(crate) fn integer<T>(string: &BStr) -> Option<T>
+where
+    T: FromStr,
+{
+    string.to_str().ok()?.parse().ok()
+}
+
 macro_rules! as_number {
-    ($name:ident, $ty:ty, $doc:literal, $lit:literal) => {
+    ($name:ident, $ty:ty, $doc:literal, $lit:literal, $parse:path) => {
         #[doc = concat!("Try and get the value as a ", $doc, ".")]
         ///
         /// # Examples
@@ -23,8 +44,7 @@ macro_rules! as_number {
         /// ```
         #[must_use]
         pub fn $name(&self) -> Option<$ty> {
-            let string = self.data.str(self.raw.string);
-            lexical_core::parse(string).ok()
+            $parse(self.data.str(self.raw.string))
         }
     };
 }
@@ -77,18 +97,18 @@ impl<'a> Number<'a> {
         self.data.str(self.raw.string)
     }
 
-    as_number!(as_f32, f32, "32-bit float", 10.42);
-    as_number!(as_f64, f64, "64-bit float", 10.42);
-    as_number!(as_u8, u8, "8-bit unsigned integer", 42);
-    as_number!(as_i8, i8, "8-bit signed integer", -42);
-    as_number!(as_u16, u16, "16-bit unsigned integer", 42);
-    as_number!(as_i16, i16, "16-bit signed integer", -42);
-    as_number!(as_u32, u32, "16-bit unsigned integer", 42);
-    as_number!(as_i32, i32, "32-bit signed integer", -42);
-    as_number!(as_u64, u64, "16-bit unsigned integer", 42);
-    as_number!(as_i64, i64, "64-bit signed integer", -42);
-    as_number!(as_u128, u128, "16-bit unsigned integer", 42);
-    as_number!(as_i128, i128, "128-bit signed integer", -42);
+    as_number!(as_f32, f32, "32-bit float", 10.42, float);
+    as_number!(as_f64, f64, "64-bit float", 10.42, float);
+    as_number!(as_u8, u8, "8-bit unsigned integer", 42, integer);
+    as_number!(as_i8, i8, "8-bit signed integer", -42, integer);
+    as_number!(as_u16, u16, "16-bit unsigned integer", 42, integer);
+    as_number!(as_i16, i16, "16-bit signed integer", -42, integer);
+    as_number!(as_u32, u32, "16-bit unsigned integer", 42, integer);
+    as_number!(as_i32, i32, "32-bit signed integer", -42, integer);
+    as_number!(as_u64, u64, "16-bit unsigned integer", 42, integer);
+    as_number!(as_i64, i64, "64-bit signed integer", -42, integer);
+    as_number!(as_u128, u128, "16-bit unsigned integer", 42, integer);
+    as_number!(as_i128, i128, "128-bit signed integer", -42, integer);
 }
 
 impl fmt::Debug for Number<'_> {
diff --git a/src/yaml/value.rs b/src/yaml/value.rs
index 7d3423c..01cce0f 100644
--- a/src/yaml/value.rs
+++ b/src/yaml/value.rs
@@ -5,6 +5,7 @@ use bstr::{BStr, ByteSlice};
 use serde::{Deserialize, Serialize};
 
 use crate::yaml::data::{Data, Id};
+use crate::yaml::number;
 use crate::yaml::raw::Raw;
 use crate::yaml::{Any, Mapping, Number, Sequence, String};
 
@@ -141,7 +142,7 @@ pub struct Value<'a> {
 }
 
 macro_rules! as_number {
-    ($name:ident, $ty:ty, $doc:literal, $lit:literal) => {
+    ($name:ident, $ty:ty, $doc:literal, $lit:literal, $parse:path) => {
         #[doc = concat!("Try and get the value as a ", $doc, ".")]
         ///
         /// # Examples
@@ -158,10 +159,7 @@ macro_rules! as_number {
         #[must_use]
         pub fn $name(&self) -> Option<$ty> {
             match self.data.raw(self.id) {
-                Raw::Number(raw) => {
-                    let string = self.data.str(raw.string);
-                    lexical_core::parse(string).ok()
-                }
+                Raw::Number(raw) => $parse(self.data.str(raw.string)),
                 _ => None,
             }
         }
@@ -568,18 +566,30 @@ impl<'a> Value<'a> {
         }
     }
 
-    as_number!(as_f32, f32, "32-bit float", 10.42);
-    as_number!(as_f64, f64, "64-bit float", 10.42);
-    as_number!(as_u8, u8, "8-bit unsigned integer", 42);
-    as_number!(as_i8, i8, "8-bit signed integer", -42);
-    as_number!(as_u16, u16, "16-bit unsigned integer", 42);
-    as_number!(as_i16, i16, "16-bit signed integer", -42);
-    as_number!(as_u32, u32, "16-bit unsigned integer", 42);
-    as_number!(as_i32, i32, "32-bit signed integer", -42);
-    as_number!(as_u64, u64, "16-bit unsigned integer", 42);
-    as_number!(as_i64, i64, "64-bit signed integer", -42);
-    as_number!(as_u128, u128, "16-bit unsigned integer", 42);
-    as_number!(as_i128, i128, "128-bit signed integer", -42);
+    as_number!(as_f32, f32, "32-bit float", 10.42, number::float);
+    as_number!(as_f64, f64, "64-bit float", 10.42, number::float);
+    as_number!(as_u8, u8, "8-bit unsigned integer", 42, number::integer);
+    as_number!(as_i8, i8, "8-bit signed integer", -42, number::integer);
+    as_number!(as_u16, u16, "16-bit unsigned integer", 42, number::integer);
+    as_number!(as_i16, i16, "16-bit signed integer", -42, number::integer);
+    as_number!(as_u32, u32, "16-bit unsigned integer", 42, number::integer);
+    as_number!(as_i32, i32, "32-bit signed integer", -42, number::integer);
+    as_number!(as_u64, u64, "16-bit unsigned integer", 42, number::integer);
+    as_number!(as_i64, i64, "64-bit signed integer", -42, number::integer);
+    as_number!(
+        as_u128,
+        u128,
+        "16-bit unsigned integer",
+        42,
+        number::integer
+    );
+    as_number!(
+        as_i128,
+        i128,
+        "128-bit signed integer",
+        -42,
+        number::integer
+    );
 }
 
 impl fmt::Display for Value<'_> {
-- 
2.43.0


From 6f5dffbf1c51f964597bd6ef714cc7dc0040b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 26/29] fix: don't count the end of the input as another line
 of a block scalar

---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 5eda200..1794e23 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -915,7 +915,7 @@ impl<'a> Parser<'a> {
             end = self.n;
             (ws, nl) = self.ws_nl();
 
-            if self.indent() < indent {
+            if self.is_eof() || self.indent() < indent {
                 break;
             }
 
-- 
2.43.0


From 108f01085586fef2b3c1c99803fc0c0a82dc9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 27/29] fix: end a block scalar without lines at the next entry

---
 src/yaml/parsing.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 1794e23..b64687e 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -877,6 +877,7 @@ impl<'a> Parser<'a> {
     /// Process a block as a string.
     fn block(
         &mut self,
+        s: &State,
         n: usize,
         join: u8,
         folded: bool,
@@ -906,10 +907,14 @@ impl<'a> Parser<'a> {
 
         let indent = self.indent();
 
-        while !self.is_eof() {
-            let s = self.n;
+        // NB: A line which isn't indented deeper than the container belongs to
+        // whatever follows the block.
+        let has_lines = !matches!(s.parent_indent, Some(i) if i >= indent);
+
+        while has_lines && !self.is_eof() {
+            let start = self.n;
             self.find(raw::NEWLINE);
-            let out = self.input.get(s..self.n).unwrap_or_default().trim();
+            let out = self.input.get(start..self.n).unwrap_or_default().trim();
             self.scratch.extend_from_slice(out);
 
             end = self.n;
@@ -974,6 +979,7 @@ impl<'a> Parser<'a> {
             [b'[', _] => return Ok((self.inline_sequence(s)?, None)),
             [b'{', _] => return Ok((self.inline_mapping(s)?, None)),
             [a @ (b'>' | b'|'), b] => self.block(
+                s,
                 matches!(b, b'-' | b'+').then_some(2).unwrap_or(1),
                 if a == b'>' { raw::SPACE } else { raw::NEWLINE },
                 a == b'>',
-- 
2.43.0


From b51e1d0823aaa7298e3d9e732b2159e69c7c1654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 28/29] fix: read an omitted item at the end of the input

---
 src/yaml/parsing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index b64687e..cac5d12 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -956,6 +956,10 @@ impl<'a> Parser<'a> {
             [b'-', ws!()] if !s.inline => {
                 return self.sequence_or_nul(s);
             }
+            // NB: An omitted item might be the last thing in the input.
+            [b'-', _] if !s.inline && self.n.saturating_add(1) == self.input.len() => {
+                return self.sequence_or_nul(s);
+            }
             [b'"', _] => {
                 let start = self.n;
                 let string = self.double_quoted()?;
-- 
2.43.0


From 4c44770b53d5130d5d0212d0b71d4ccd05c2ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 29/29] fix: read a line as a sequence item only when its dash
 is followed by whitespace

---
 src/yaml/parsing.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index cac5d12..0f051f8 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -247,6 +247,16 @@ impl<'a> Parser<'a> {
         self.ws_nl().0
     }
 
+    /// Test if the current position is at the dash of a sequence item.
+    fn is_item(&self) -> bool {
+        match self.peek() {
+            [b'-', ws!()] => true,
+            // NB: An omitted item might be the last thing in the input.
+            [b'-', _] => self.n.saturating_add(1) == self.input.len(),
+            _ => false,
+        }
+    }
+
     /// Test if current position contains nothing but whitespace or a comment
     /// until we reach a line end.
     fn is_eol(&self) -> bool {
@@ -711,7 +721,7 @@ impl<'a> Parser<'a> {
             let ws = ws.unwrap_or_else(|| self.ws());
             previous_ws = Some(ws);
 
-            if self.indent() != indent || !matches!(self.peek1(), b'-') {
+            if self.indent() != indent || !self.is_item() {
                 break;
             }
         }
@@ -953,11 +963,7 @@ impl<'a> Parser<'a> {
     /// Consume a single value.
     fn value(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
         let (raw, ws) = match self.peek() {
-            [b'-', ws!()] if !s.inline => {
-                return self.sequence_or_nul(s);
-            }
-            // NB: An omitted item might be the last thing in the input.
-            [b'-', _] if !s.inline && self.n.saturating_add(1) == self.input.len() => {
+            [b'-', _] if !s.inline && self.is_item() => {
                 return self.sequence_or_nul(s);
             }
             [b'"', _] => {
-- 
2.43.0

