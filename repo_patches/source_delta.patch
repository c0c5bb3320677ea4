From a1a00467a072f39a2d33644cd555c987843a8690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 01/13] fix: do not overflow when tracking the magnitude of
 i32::MIN

The absolute value of i32::MIN does not fit an i32: writing it panicked with
overflow checks on and recorded a negative magnitude without them.
---
 src/buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buf.rs b/src/buf.rs
index f6f69f0..b389ba3 100644
--- a/src/buf.rs
+++ b/src/buf.rs
@@ -192,7 +192,7 @@ impl Limits {
     }
 
     pub(crate) fn register_int(&mut self, val: i32) {
-        self.int = self.int.max(val.abs());
+        self.int = self.int.max(val.saturating_abs());
     }
 
     pub(crate) fn register_real(&mut self, val: f32) {
-- 
2.43.0


From c6f17e38069d25ae0073fa0c216d358e64c2316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 02/13] fix: separate an empty name from the token after it in
 compact mode

Nothing was written between an empty name and a following number, keyword or
operator, so that '/ 1' came out as '/1' and read back as a different name.
---
 src/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index a16146f..ba362ae 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -381,7 +381,9 @@ fn is_regular_character(byte: u8) -> bool {
 
 #[inline]
 pub(crate) fn is_delimiter_character(byte: u8) -> bool {
-    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'/' | b'%')
+    // The solidus is deliberately absent: it only ends a token as the empty name,
+    // and what follows directly would become part of that name.
+    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'%')
 }
 
 /// The null object.
-- 
2.43.0


From 9a7b44ee36818803a5d2b5f8c7bbc4812781a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 03/13] fix: make the xref stream field wide enough for free
 list links

The field width only accounted for offsets, so that the next free id of an
entry was truncated in a small file with large object ids.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ffa495e..b747009 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -379,7 +379,11 @@ impl Pdf {
         // Include the reference of the xref stream in the offsets as well!
         let xref_offset = buf.len();
         offsets.push((xref_id, xref_offset));
-        let field_width = determine_field_width(xref_offset);
+
+        // Apart from offsets, the field also holds the ids that link the free
+        // entries, which are bounded by the largest id in use.
+        let max_id = offsets.iter().map(|&(id, _)| id.get()).max().unwrap_or(0);
+        let field_width = determine_field_width(xref_offset.max(max_id as usize));
 
         let mut writer = XRefStreamWriter::new(field_width);
         let xref_len = write_offsets(offsets, &mut writer);
-- 
2.43.0


From 835c42596bb07f773beb4d6dd072f5337ecb16bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 04/13] fix: count the encoded length of text strings and dates
 in the limits

The limits counted the UTF-8 length of text that is written as UTF-16 and did
not count dates at all, so that they could be below a string that is present.
---
 src/object.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index ba362ae..6c0df3a 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -167,18 +167,22 @@ impl Sealed for TextStr<'_> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        buf.limits.register_str_len(self.0.len());
-
         // ASCII and PDFDocEncoding match for 32 up to 126.
         if self.0.bytes().all(|b| matches!(b, 32..=126)) {
             Str(self.0.as_bytes()).write(buf);
         } else {
+            // The byte order mark takes up two bytes.
+            let mut len = 2;
+
             buf.reserve(6 + 4 * self.0.len());
             write_utf16be_text_str_header(buf);
             for value in self.0.encode_utf16() {
                 buf.push_hex_u16(value);
+                len += 2;
             }
             write_utf16be_text_str_footer(buf);
+
+            buf.limits.register_str_len(len);
         }
     }
 }
@@ -256,13 +260,15 @@ impl<'a, 'b> Sealed for TextStrWithLang<'a, 'b> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        let mut len = 0;
+        // The byte order mark takes up two bytes.
+        let mut len = 2;
         let mut buf_len = 6;
 
         for (lang, text) in self.0 {
             // Each language tag is enclosed in two escape characters, plus the
-            // two-letter language code and optional two-letter region code.
-            len += text.len() + lang.len() + 2;
+            // two-letter language code and optional two-letter region code. All
+            // of these and the text are UTF-16 encoded.
+            len += 2 * (text.encode_utf16().count() + lang.len() + 2);
             // Each hexadecimal character is four bytes long, plus four bytes
             // for the escape sequence. The language tag is encoded in
             // hexadecimal, so each byte becomes two hexadecimal characters.
@@ -606,6 +612,7 @@ impl Sealed for Date {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
+        let start = buf.len();
         buf.extend(b"(D:");
 
         (|| {
@@ -630,6 +637,10 @@ impl Sealed for Date {
         })();
 
         buf.push(b')');
+
+        // Everything but the two parentheses.
+        let len = buf.len() - start - 2;
+        buf.limits.register_str_len(len);
     }
 }
 
-- 
2.43.0


From eb6cfc8d2da1b64ca43bb831d5e8ac48dc66283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 05/13] fix: write no padding before the first operand of a
 compact content stream

---
 src/content.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/content.rs b/src/content.rs
index 36224fc..640b4af 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -134,7 +134,8 @@ impl<'a> Operation<'a> {
 
             false
         } else {
-            true
+            // There is nothing to separate the very first token from.
+            !self.buf.is_empty()
         };
 
         self.first = false;
-- 
2.43.0


From 6af7fd9a6929443dcfa7b9325d1f3b433cca7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 06/13] fix: drop the torn line of a cmap pair whose iterator
 panicked

---
 src/font.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index 4adc32f..3fac980 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -851,6 +851,8 @@ impl WMode {
 pub struct UnicodeCmap<G = u16> {
     buf: Buf,
     mappings: Buf,
+    /// The length of the complete lines in `mappings`.
+    complete: usize,
     count: i32,
     glyph_id: PhantomData<G>,
 }
@@ -929,6 +931,7 @@ where
         Self {
             buf,
             mappings: Buf::new(),
+            complete: 0,
             count: 0,
             glyph_id: PhantomData,
         }
@@ -945,6 +948,9 @@ where
         glyph: G,
         codepoints: impl IntoIterator<Item = char>,
     ) {
+        // Drop the torn line of an earlier call whose iterator panicked.
+        self.mappings.inner.truncate(self.complete);
+
         self.mappings.push(b'<');
         glyph.push(&mut self.mappings);
         self.mappings.extend(b"> <");
@@ -956,6 +962,7 @@ where
         }
 
         self.mappings.extend(b">\n");
+        self.complete = self.mappings.len();
         self.count += 1;
 
         // At most 100 lines per range.
@@ -984,12 +991,13 @@ where
         if self.count > 0 {
             self.buf.push_int(self.count);
             self.buf.extend(b" beginbfchar\n");
-            self.buf.extend(self.mappings.as_slice());
+            self.buf.extend(&self.mappings[..self.complete]);
             self.buf.extend(b"endbfchar\n");
         }
 
         self.count = 0;
         self.mappings.inner.clear();
+        self.complete = 0;
     }
 }
 
-- 
2.43.0


From 48c941b7f82f6d472484e0e301e1591d2325257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 07/13] fix: write the page close action of an annotation under
 /PC

---
 src/actions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions.rs b/src/actions.rs
index 470e26e..769be02 100644
--- a/src/actions.rs
+++ b/src/actions.rs
@@ -339,7 +339,7 @@ impl AdditionalActions<'_> {
     /// shall be performed when the page containing the annotation is closed.
     /// Only permissible for annotations. PDF 1.5+.
     pub fn annot_page_close(&mut self) -> Action<'_> {
-        self.insert(Name(b"PV")).start()
+        self.insert(Name(b"PC")).start()
     }
 
     /// Start writing the `/PV` dictionary. This sets the action action that
-- 
2.43.0


From f7843ba2eea616ef9be232739ee10b5084f9e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 08/13] fix: write the appearance filter of a seed value under
 /AppearanceFilter

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index 6726fc7..e3357a4 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -726,7 +726,7 @@ impl SignatureSeedValue<'_> {
     /// the appearance must be available and used to sign the document.
     /// PDF 2.0+.
     pub fn appearance_filter(&mut self, signature_appearance: TextStr<'_>) -> &mut Self {
-        self.pair(Name(b"LockDocument"), signature_appearance);
+        self.pair(Name(b"AppearanceFilter"), signature_appearance);
         self
     }
 }
-- 
2.43.0


From b284c170cc19b21cdfde86f267c92b28bbf1e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 09/13] fix: write policy commitment types under
 /SignaturePolicyCommitmentType

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index e3357a4..64b876a 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -998,7 +998,7 @@ impl CertificateSeedValue<'_> {
         &mut self,
         commitment_types: impl IntoIterator<Item = Str<'b>>,
     ) -> &mut Self {
-        self.insert(Name(b"SignaturePolicyHashAlgorithm"))
+        self.insert(Name(b"SignaturePolicyCommitmentType"))
             .array()
             .items(commitment_types);
         self
-- 
2.43.0


From f93b6d0ba9bf38412943657ed9df62b78b67dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 10/13] fix: map the ruby punctuation role to itself in PDF 2.0

---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 535eb44..85992fc 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -973,7 +973,7 @@ impl StructRole {
             Self::Warichu => Some(StructRole2::Warichu),
             Self::RB => Some(StructRole2::RB),
             Self::RT => Some(StructRole2::RT),
-            Self::RP => Some(StructRole2::WP),
+            Self::RP => Some(StructRole2::RP),
             Self::WT => Some(StructRole2::WT),
             Self::WP => Some(StructRole2::WP),
             Self::Figure => Some(StructRole2::Figure),
-- 
2.43.0


From bb6e1116888f412e851b9eaa544d14094fb19166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 11/13] fix: write the opacity of a fly transition under /B

---
 src/transitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transitions.rs b/src/transitions.rs
index 83d3b65..885eb08 100644
--- a/src/transitions.rs
+++ b/src/transitions.rs
@@ -57,7 +57,7 @@ impl Transition<'_> {
 
     /// Write the `/B` attribute for the `Fly` transition. PDF 1.5+.
     pub fn opaque(&mut self, opaque: f32) -> &mut Self {
-        self.pair(Name(b"F"), opaque);
+        self.pair(Name(b"B"), opaque);
         self
     }
 }
-- 
2.43.0


From 72da25e472223a431b3140a800602cbc425819b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 12/13] fix: write the namespace names ISO 32000-2 defines

---
 src/structure.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 85992fc..00d2394 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -764,7 +764,7 @@ deref!('a, ClassMap<'a> => Dict<'a>, dict);
 /// Role the structure element fulfills in the document for PDF 1.7 and below.
 ///
 /// These are the predefined standard roles in PDF 1.7 and below, matching the
-/// `https://www.iso.org/pdf/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf/ssn` namespace. The writer may write their own
 /// roles and then provide a mapping with [`StructTreeRoot::role_map`], or, if
 /// writing PDF 2.0, with [`Namespace::role_map_ns`]. PDF 1.4+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
@@ -1089,7 +1089,7 @@ impl TryFrom<StructRole> for StructRole2 {
 /// PDF 2.0 roles the structure element fulfills in the document.
 ///
 /// These are the predefined standard roles in PDF 2.0, matching the
-/// `https://www.iso.org/pdf2/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf2/ssn` namespace. The writer may write their own
 /// types and then provide a mapping using [`Namespace::role_map_ns`]. PDF 2.0+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
 pub enum StructRole2 {
@@ -1546,18 +1546,18 @@ impl Namespace<'_> {
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 2.0_.
     pub fn pdf_2_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf2/ssn"));
+        self.ns(TextStr("http://iso.org/pdf2/ssn"));
     }
 
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 1.7_.
     pub fn pdf_1_7_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf/ssn"));
+        self.ns(TextStr("http://iso.org/pdf/ssn"));
     }
 
     /// Write the namespace dictionary for MathML 3.0.
     pub fn mathml_3_0_ns(mut self) {
-        self.ns(TextStr("https://www.w3.org/1998/Math/MathML"));
+        self.ns(TextStr("http://www.w3.org/1998/Math/MathML"));
     }
 }
 
-- 
2.43.0


From ca22e554d93a74a64ba9a644684711bcb1091ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 13/13] fix: write the limits of a name tree node as strings,
 as its keys are

---
 src/object.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 6c0df3a..1e444ec 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1480,7 +1480,11 @@ impl<T> NameTree<'_, T> {
     /// Write the `/Limits` array to set the range of names in this node. This
     /// is required for every node except the root node.
     pub fn limits(&mut self, min: Name, max: Name) -> &mut Self {
-        self.dict.insert(Name(b"Limits")).array().typed().items([min, max]);
+        self.dict
+            .insert(Name(b"Limits"))
+            .array()
+            .typed()
+            .items([Str(min.0), Str(max.0)]);
         self
     }
 }
-- 
2.43.0

