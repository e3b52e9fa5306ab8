From 00dce4ff59dda1bc17986327a5a487c215c4ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:15:41 +0000
Subject: [PATCH 01/36] fix: read and write the outsideMargin token for
 relative positions

ST_RelFromH and ST_RelFromV spell the value outsideMargin. The horizontal
type wrote outsizeMargin and neither type read outsideMargin back, so the
position silently became margin after a write and read. The old spelling
is still accepted when reading.
---
 docx-core/src/types/relative_from_type.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/types/relative_from_type.rs b/docx-core/src/types/relative_from_type.rs
index e877993..7b3e8fc 100644
--- a/docx-core/src/types/relative_from_type.rs
+++ b/docx-core/src/types/relative_from_type.rs
@@ -53,7 +53,7 @@ impl fmt::Display for RelativeFromHType {
             RelativeFromHType::InsideMargin => write!(f, "insideMargin"),
             RelativeFromHType::LeftMargin => write!(f, "leftMargin"),
             RelativeFromHType::Margin => write!(f, "margin"),
-            RelativeFromHType::OutsizeMargin => write!(f, "outsizeMargin"),
+            RelativeFromHType::OutsizeMargin => write!(f, "outsideMargin"),
             RelativeFromHType::Page => write!(f, "page"),
             RelativeFromHType::RightMargin => write!(f, "rightMargin"),
         }
@@ -69,7 +69,7 @@ impl FromStr for RelativeFromHType {
             "insideMargin" => Ok(RelativeFromHType::InsideMargin),
             "leftMargin" => Ok(RelativeFromHType::LeftMargin),
             "margin" => Ok(RelativeFromHType::Margin),
-            "outsizeMargin" => Ok(RelativeFromHType::OutsizeMargin),
+            "outsideMargin" | "outsizeMargin" => Ok(RelativeFromHType::OutsizeMargin),
             "page" => Ok(RelativeFromHType::Page),
             "rightMargin" => Ok(RelativeFromHType::RightMargin),
             _ => Ok(RelativeFromHType::Margin),
@@ -117,7 +117,7 @@ impl FromStr for RelativeFromVType {
             "insideMargin" => Ok(RelativeFromVType::InsideMargin),
             "line" => Ok(RelativeFromVType::Line),
             "margin" => Ok(RelativeFromVType::Margin),
-            "outsizeMargin" => Ok(RelativeFromVType::OutsizeMargin),
+            "outsideMargin" | "outsizeMargin" => Ok(RelativeFromVType::OutsizeMargin),
             "page" => Ok(RelativeFromVType::Page),
             "paragraph" => Ok(RelativeFromVType::Paragraph),
             "topMargin" => Ok(RelativeFromVType::TopMargin),
-- 
2.43.0


From 470aaa73230a53ca3bcdaa6e46ea76ea567c81ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:10:00 +0000
Subject: [PATCH 02/36] fix: escape markup characters left unescaped in
 attribute values and text

---
 docx-core/src/documents/elements/instr_tc.rs  |  4 +-
 docx-core/src/documents/elements/instr_toc.rs | 17 +++----
 docx-core/src/escape/mod.rs                   | 45 +++++++++++++++++++
 docx-core/src/xml/writer.rs                   |  9 ++--
 4 files changed, 62 insertions(+), 13 deletions(-)

diff --git a/docx-core/src/documents/elements/instr_tc.rs b/docx-core/src/documents/elements/instr_tc.rs
index d0465e0..fab9e5c 100644
--- a/docx-core/src/documents/elements/instr_tc.rs
+++ b/docx-core/src/documents/elements/instr_tc.rs
@@ -2,7 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
-use crate::escape::escape_owned;
+use crate::escape::{escape_owned, escape_stray};
 use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_TCTC_topic_ID0EU2N1.html
@@ -52,7 +52,7 @@ impl BuildXML for InstrTC {
         write!(raw, "TC \"{}\"", self.text)?;
 
         if let Some(ref t) = self.item_type_identifier {
-            write!(raw, " \\f {t}")?;
+            write!(raw, " \\f {}", escape_stray(t))?;
         }
 
         if let Some(level) = self.level {
diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index a73951f..22babeb 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape_stray;
 use crate::xml_builder::XMLBuilder;
 
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -172,28 +173,28 @@ impl BuildXML for InstrToC {
 
         // \a
         if let Some(ref t) = self.caption_label {
-            write!(raw, " \\a &quot;{t}&quot;")?;
+            write!(raw, " \\a &quot;{}&quot;", escape_stray(t))?;
         }
 
         // \b
         if let Some(ref t) = self.entry_bookmark_name {
-            write!(raw, " \\b &quot;{t}&quot;")?;
+            write!(raw, " \\b &quot;{}&quot;", escape_stray(t))?;
         }
 
         // \c
         if let Some(ref t) = self.caption_label_including_numbers {
-            write!(raw, " \\c &quot;{t}&quot;")?;
+            write!(raw, " \\c &quot;{}&quot;", escape_stray(t))?;
         }
 
         // \d
         if let Some(ref t) = self.sequence_and_page_numbers_separator {
-            write!(raw, " \\d &quot;{t}&quot;")?;
+            write!(raw, " \\d &quot;{}&quot;", escape_stray(t))?;
         }
 
         // \f
         if let Some(ref t) = self.tc_field_identifier {
             if let Some(ref t) = t {
-                write!(raw, " \\f &quot;{t}&quot;")?;
+                write!(raw, " \\f &quot;{}&quot;", escape_stray(t))?;
             } else {
                 write!(raw, " \\f")?;
             }
@@ -216,12 +217,12 @@ impl BuildXML for InstrToC {
 
         // \p
         if let Some(ref t) = self.entry_and_page_number_separator {
-            write!(raw, " \\p &quot;{t}&quot;")?;
+            write!(raw, " \\p &quot;{}&quot;", escape_stray(t))?;
         }
 
         // \s
         if let Some(ref t) = self.seq_field_identifier_for_prefix {
-            write!(raw, " \\s &quot;{t}&quot;")?;
+            write!(raw, " \\s &quot;{}&quot;", escape_stray(t))?;
         }
 
         // \t
@@ -232,7 +233,7 @@ impl BuildXML for InstrToC {
                 .map(|s| format!("{},{}", (s.0).0, (s.0).1))
                 .collect::<Vec<String>>()
                 .join(",");
-            write!(raw, " \\t &quot;{s}&quot;")?;
+            write!(raw, " \\t &quot;{}&quot;", escape_stray(&s))?;
         }
 
         // \h
diff --git a/docx-core/src/escape/mod.rs b/docx-core/src/escape/mod.rs
index abe5431..e9e5ca2 100644
--- a/docx-core/src/escape/mod.rs
+++ b/docx-core/src/escape/mod.rs
@@ -1,3 +1,5 @@
+use std::borrow::Cow;
+
 pub(crate) fn escape(text: &str) -> String {
     let mut escaped = String::with_capacity(text.len());
     for ch in text.chars() {
@@ -32,6 +34,49 @@ pub(crate) fn escape_owned(text: String) -> String {
     }
 }
 
+/// Escapes the markup characters of an XML value that are still unescaped.
+///
+/// References to predefined entities and to characters are kept, so a value
+/// that was escaped before is returned unchanged. Characters that XML cannot
+/// represent are dropped.
+pub(crate) fn escape_stray(text: &str) -> Cow<'_, str> {
+    let is_plain =
+        |ch: char| !matches!(ch, '&' | '<' | '>' | '"' | '\u{fffe}' | '\u{ffff}') && ch >= ' ';
+    if text.chars().all(is_plain) {
+        return Cow::Borrowed(text);
+    }
+    let mut escaped = String::with_capacity(text.len());
+    for (index, ch) in text.char_indices() {
+        match ch {
+            '&' if !starts_with_reference(&text[index + 1..]) => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            '&' | '\t' | '\n' | '\r' => escaped.push(ch),
+            _ if is_plain(ch) => escaped.push(ch),
+            _ => {}
+        }
+    }
+    Cow::Owned(escaped)
+}
+
+fn starts_with_reference(text: &str) -> bool {
+    let Some((name, _)) = text.split_once(';') else {
+        return false;
+    };
+    let code = match name.strip_prefix('#') {
+        None => return matches!(name, "amp" | "lt" | "gt" | "quot" | "apos"),
+        Some(number) if number.contains('+') => return false,
+        Some(number) => match number.strip_prefix('x') {
+            Some(hex) => u32::from_str_radix(hex, 16),
+            None => number.parse(),
+        },
+    };
+    code.ok().and_then(char::from_u32).is_some_and(
+        |ch| matches!(ch, '\t' | '\n' | '\r' | ' '..='\u{fffd}' | '\u{10000}'..='\u{10ffff}'),
+    )
+}
+
 pub(crate) fn replace_escaped(text: &str) -> String {
     let mut decoded = String::with_capacity(text.len());
     let mut rest = text;
diff --git a/docx-core/src/xml/writer.rs b/docx-core/src/xml/writer.rs
index 1575b27..3cd17ac 100644
--- a/docx-core/src/xml/writer.rs
+++ b/docx-core/src/xml/writer.rs
@@ -8,6 +8,7 @@ use quick_xml::Writer as QuickWriter;
 use smallvec::SmallVec;
 
 use super::common::XmlVersion;
+use crate::escape::escape_stray;
 
 pub type Result<T> = std::result::Result<T, Error>;
 
@@ -146,7 +147,7 @@ impl<W: Write> EventWriter<W> {
                 let text_event = if self.perform_escaping {
                     BytesText::new(text.as_ref())
                 } else {
-                    BytesText::from_escaped(text.as_ref())
+                    BytesText::from_escaped(escape_stray(text.as_ref()))
                 };
                 self.writer.write_event(Event::Text(text_event))?;
             }
@@ -233,12 +234,14 @@ impl From<String> for XmlEvent<'static> {
 impl<'a> StartElement<'a> {
     /// Appends an attribute with an already escaped string value.
     ///
-    /// The value is copied directly into the start tag and is not XML-escaped.
+    /// The value is copied directly into the start tag; only markup characters
+    /// left unescaped in it are escaped.
     pub fn attr(mut self, name: &str, value: &str) -> Self {
         self.encoded.push(b' ');
         self.encoded.extend_from_slice(name.as_bytes());
         self.encoded.extend_from_slice(b"=\"");
-        self.encoded.extend_from_slice(value.as_bytes());
+        self.encoded
+            .extend_from_slice(escape_stray(value).as_bytes());
         self.encoded.push(b'"');
         self
     }
-- 
2.43.0


From 39aaf83f0b963c095cd90953329ad0ad0a263776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:10:00 +0000
Subject: [PATCH 03/36] fix: escape comment authors, next style ids and
 hyperlink anchors like their siblings

---
 docx-core/src/documents/elements/comment.rs   | 3 ++-
 docx-core/src/documents/elements/hyperlink.rs | 4 ++--
 docx-core/src/documents/elements/next.rs      | 5 ++++-
 docx-core/src/reader/comment.rs               | 3 +--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/elements/comment.rs b/docx-core/src/documents/elements/comment.rs
index addbcde..41ee118 100644
--- a/docx-core/src/documents/elements/comment.rs
+++ b/docx-core/src/documents/elements/comment.rs
@@ -3,6 +3,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
@@ -64,7 +65,7 @@ impl Comment {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> Comment {
-        self.author = author.into();
+        self.author = escape_owned(author.into());
         self
     }
 
diff --git a/docx-core/src/documents/elements/hyperlink.rs b/docx-core/src/documents/elements/hyperlink.rs
index 2bd9483..86ce9ee 100644
--- a/docx-core/src/documents/elements/hyperlink.rs
+++ b/docx-core/src/documents/elements/hyperlink.rs
@@ -3,7 +3,7 @@ use std::io::Write;
 
 use super::*;
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
+use crate::escape::{escape, escape_owned};
 use crate::types::*;
 use crate::{create_hyperlink_rid, generate_hyperlink_id, xml_builder::*};
 
@@ -107,7 +107,7 @@ impl BuildXML for Hyperlink {
             .apply(|b| match self.link {
                 HyperlinkData::Anchor { ref anchor } => b.open_hyperlink(
                     None,
-                    Some(anchor.clone()).as_ref(),
+                    Some(escape(anchor)).as_ref(),
                     Some(self.history.unwrap_or(1)),
                 ),
                 HyperlinkData::External { ref rid, .. } => b.open_hyperlink(
diff --git a/docx-core/src/documents/elements/next.rs b/docx-core/src/documents/elements/next.rs
index 55c475e..0c3501d 100644
--- a/docx-core/src/documents/elements/next.rs
+++ b/docx-core/src/documents/elements/next.rs
@@ -2,6 +2,7 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -11,7 +12,9 @@ pub struct Next {
 
 impl Next {
     pub fn new(val: impl Into<String>) -> Next {
-        Next { val: val.into() }
+        Next {
+            val: escape_owned(val.into()),
+        }
     }
 }
 
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index e42ef42..b49aae4 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -2,7 +2,6 @@ use std::io::Read;
 use std::str::FromStr;
 
 use super::*;
-use crate::escape;
 
 impl ElementReader for Comment {
     fn read<R: Read>(
@@ -12,7 +11,7 @@ impl ElementReader for Comment {
         let id = usize::from_str(&read(attrs, "id").expect("should comment id exists."))?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
-            comment = comment.author(escape::escape(author.as_str()));
+            comment = comment.author(author);
         };
         if let Some(date) = read(attrs, "date") {
             comment = comment.date(date);
-- 
2.43.0


From 0222dde5b51cb1f045ba234c4c97b6678b1250a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:10:00 +0000
Subject: [PATCH 04/36] fix: escape document variables, custom properties and
 custom XML items when writing

---
 docx-core/src/documents/doc_props/custom.rs | 5 +++--
 docx-core/src/documents/elements/doc_var.rs | 3 ++-
 docx-core/src/xml_json/mod.rs               | 5 +++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/documents/doc_props/custom.rs b/docx-core/src/documents/doc_props/custom.rs
index 41cb22f..c6e45a8 100644
--- a/docx-core/src/documents/doc_props/custom.rs
+++ b/docx-core/src/documents/doc_props/custom.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
@@ -38,9 +39,9 @@ impl BuildXML for CustomProps {
                     // I can not find spec about this id.
                     // It is invalid if pid starts from 1...
                     &format!("{}", i + 2),
-                    key,
+                    &escape(key),
                 )?
-                .lpwstr(item)?
+                .lpwstr(&escape(item))?
                 .close()
             })?
             .close()?
diff --git a/docx-core/src/documents/elements/doc_var.rs b/docx-core/src/documents/elements/doc_var.rs
index 1dd24d4..46ad985 100644
--- a/docx-core/src/documents/elements/doc_var.rs
+++ b/docx-core/src/documents/elements/doc_var.rs
@@ -2,6 +2,7 @@ use serde::{Deserialize, Serialize};
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
@@ -25,7 +26,7 @@ impl BuildXML for DocVar {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .doc_var(&self.name, &self.val)?
+            .doc_var(&escape(&self.name), &escape(&self.val))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index c7558e8..98baf6f 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -13,6 +13,7 @@ use std::io::prelude::*;
 use std::io::Cursor;
 use std::str::FromStr;
 
+use crate::escape::escape;
 use crate::reader::{EventReader, Namespace, OwnedAttribute, OwnedName, XmlEvent};
 
 /// An XML Document
@@ -59,13 +60,13 @@ impl XmlData {
         write!(f, "<{}", self.name)?;
 
         for (key, val) in self.attributes.iter() {
-            write!(f, r#" {key}="{val}""#)?;
+            write!(f, r#" {key}="{}""#, escape(val))?;
         }
 
         f.write_char('>')?;
 
         if let Some(ref data) = self.data {
-            write!(f, "{data}")?
+            f.write_str(&escape(data))?
         }
 
         for child in self.children.iter() {
-- 
2.43.0


From 4c3a4dd9351756b2a576dbfd370c000c403bc95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:09 +0000
Subject: [PATCH 05/36] fix: escape table style ids like the other style ids

---
 docx-core/src/documents/elements/table_style.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/table_style.rs b/docx-core/src/documents/elements/table_style.rs
index b4477b1..5d87d84 100644
--- a/docx-core/src/documents/elements/table_style.rs
+++ b/docx-core/src/documents/elements/table_style.rs
@@ -2,6 +2,7 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -11,7 +12,9 @@ pub struct TableStyle {
 
 impl TableStyle {
     pub fn new(val: impl Into<String>) -> TableStyle {
-        TableStyle { val: val.into() }
+        TableStyle {
+            val: escape_owned(val.into()),
+        }
     }
 }
 
-- 
2.43.0


From 82fd7e113abac26e247eeb78910a18b99f7c95ee Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 18:43:57 +0000
Subject: [PATCH 06/36] fix: give every custom XML item its own relationship,
 content type and properties part

Custom XML relationships started at the id used for footnotes, content
types counted web extensions instead of items, and every item pointed to
the properties part of the first one.
---
 docx-core/src/documents/content_types.rs    | 2 +-
 docx-core/src/documents/custom_item_rels.rs | 9 ++++++++-
 docx-core/src/documents/document_rels.rs    | 2 +-
 docx-core/src/documents/mod.rs              | 4 +++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 8bbd8bf..2cc90a1 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -106,7 +106,7 @@ impl ContentTypes {
 
     pub fn add_custom_xml(mut self) -> Self {
         self.types.insert(
-            format!("/customXml/itemProps{}.xml", self.web_extension_count),
+            format!("/customXml/itemProps{}.xml", self.custom_xml_count),
             "application/vnd.openxmlformats-officedocument.customXmlProperties+xml".to_owned(),
         );
         self.custom_xml_count += 1;
diff --git a/docx-core/src/documents/custom_item_rels.rs b/docx-core/src/documents/custom_item_rels.rs
index 2cb0c74..8d09932 100644
--- a/docx-core/src/documents/custom_item_rels.rs
+++ b/docx-core/src/documents/custom_item_rels.rs
@@ -8,6 +8,8 @@ use crate::xml_builder::*;
 #[serde(rename_all = "camelCase")]
 pub struct CustomItemRels {
     custom_item_count: usize,
+    #[serde(skip)]
+    first_item: usize,
 }
 
 impl CustomItemRels {
@@ -15,6 +17,11 @@ impl CustomItemRels {
         Default::default()
     }
 
+    pub(crate) fn first_item(mut self, first_item: usize) -> Self {
+        self.first_item = first_item;
+        self
+    }
+
     pub fn add_item(mut self) -> Self {
         self.custom_item_count += 1;
         self
@@ -33,7 +40,7 @@ impl BuildXML for CustomItemRels {
                 b.relationship(
           &format!("rId{}", id + 1),
           "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXmlProps",
-          &format!("itemProps{}.xml", id + 1),
+          &format!("itemProps{}.xml", self.first_item + id + 1),
         )
             })?
             .close()?
diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index 2edfb2f..a7a6d93 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -110,7 +110,7 @@ impl BuildXML for DocumentRels {
             })?
             .apply_each(0..self.custom_xml_count, |i, b| {
                 b.relationship(
-                    &format!("rId{}", i + 8),
+                    &format!("rId{}", i + 9),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXml",
                     &format!("../customXml/item{}.xml", i + 1),
                 )
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index cdae806..a4613a7 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -684,7 +684,9 @@ impl Docx {
     pub fn add_custom_item(mut self, id: &str, xml: &str) -> Self {
         let x = CustomItem::from_str(xml).expect("should parse xml string");
         self.content_type = self.content_type.add_custom_xml();
-        let rel = CustomItemRels::new().add_item();
+        let rel = CustomItemRels::new()
+            .first_item(self.custom_items.len())
+            .add_item();
         self.custom_item_props.push(CustomItemProperty::new(id));
         self.document_rels = self.document_rels.add_custom_item();
         self.custom_item_rels.push(rel);
-- 
2.43.0


From dbdb7861a86af5404051d483101c66003d2587ee Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 18:48:02 +0000
Subject: [PATCH 07/36] fix: collect comments and hyperlinks from every
 container

Comments and external hyperlinks inside sections, content controls,
tracked changes and runs were not collected, and hyperlinks in headers and
footers had no relationships.  Comments with several paragraphs were
written once per paragraph.  Collection now uses the shared tree
traversal, in document order, and relationship ids taken from a read
document no longer clash with the fixed ones.
---
 docx-core/src/documents/document_rels.rs   |   9 +
 docx-core/src/documents/document_tree.rs   |  44 +-
 docx-core/src/documents/footer_rels.rs     |  11 +-
 docx-core/src/documents/header_rels.rs     |  11 +-
 docx-core/src/documents/image_collector.rs |  85 ++-
 docx-core/src/documents/mod.rs             | 697 +++------------------
 6 files changed, 232 insertions(+), 625 deletions(-)

diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index a7a6d93..638f517 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -43,6 +43,15 @@ impl DocumentRels {
             .push((id.into(), escape_owned(path.into()), r#type.into()));
         self
     }
+
+    /// Relationship IDs that are neither image nor hyperlink relationships.
+    pub(crate) fn reserved_ids(&self) -> HashSet<String> {
+        (1..=8 + self.custom_xml_count)
+            .map(|i| format!("rId{i}"))
+            .chain((1..=self.header_count).map(create_header_rid))
+            .chain((1..=self.footer_count).map(create_footer_rid))
+            .collect()
+    }
 }
 
 impl BuildXML for DocumentRels {
diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index e1ac0c5..f895c06 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,10 +5,11 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer, FooterChild, Header,
-    HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild,
-    Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild, StructuredDataTag,
-    StructuredDataTagChild, Table, TableCellContent, TableChild, TableOfContents, TableRowChild,
+    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer,
+    FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild,
+    MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild,
+    StructuredDataTag, StructuredDataTagChild, Table, TableCellContent, TableChild,
+    TableOfContents, TableRowChild,
 };
 
 /// Receives package-relevant nodes while the document tree is traversed.
@@ -27,6 +28,12 @@ pub(crate) trait DocumentTreeVisitor {
     /// Visits an embedded DrawingML picture.
     fn visit_picture(&mut self, _picture: &mut Pic) {}
 
+    /// Visits the start of a comment range.
+    fn visit_comment_start(&mut self, _start: &mut CommentRangeStart) {}
+
+    /// Visits a hyperlink before its children are traversed.
+    fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
+
     /// Visits a footnote reference stored in a run.
     fn visit_footnote_reference(&mut self, _reference: &crate::FootnoteReference) {}
 }
@@ -70,9 +77,9 @@ fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTr
         DocumentChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
         DocumentChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
         DocumentChild::Section(section) => visit_section(section, visitor),
+        DocumentChild::CommentStart(start) => visitor.visit_comment_start(start),
         DocumentChild::BookmarkStart(_)
         | DocumentChild::BookmarkEnd(_)
-        | DocumentChild::CommentStart(_)
         | DocumentChild::CommentEnd(_) => {}
     }
 }
@@ -84,9 +91,9 @@ fn visit_section(section: &mut Section, visitor: &mut impl DocumentTreeVisitor)
             SectionChild::Table(table) => visit_table(table, visitor),
             SectionChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             SectionChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
+            SectionChild::CommentStart(start) => visitor.visit_comment_start(start),
             SectionChild::BookmarkStart(_)
             | SectionChild::BookmarkEnd(_)
-            | SectionChild::CommentStart(_)
             | SectionChild::CommentEnd(_) => {}
         }
     }
@@ -131,9 +138,9 @@ fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl Doc
             StructuredDataTagChild::StructuredDataTag(tag) => {
                 visit_structured_data_tag(tag, visitor)
             }
+            StructuredDataTagChild::CommentStart(start) => visitor.visit_comment_start(start),
             StructuredDataTagChild::BookmarkStart(_)
             | StructuredDataTagChild::BookmarkEnd(_)
-            | StructuredDataTagChild::CommentStart(_)
             | StructuredDataTagChild::CommentEnd(_) => {}
         }
     }
@@ -157,9 +164,9 @@ fn visit_paragraph_children(
             ParagraphChild::MoveTo(moved) => visit_move_to(moved, visitor),
             ParagraphChild::Hyperlink(link) => visit_hyperlink(link, visitor),
             ParagraphChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
+            ParagraphChild::CommentStart(start) => visitor.visit_comment_start(start),
             ParagraphChild::BookmarkStart(_)
             | ParagraphChild::BookmarkEnd(_)
-            | ParagraphChild::CommentStart(_)
             | ParagraphChild::CommentEnd(_)
             | ParagraphChild::PageNum(_)
             | ParagraphChild::NumPages(_) => {}
@@ -168,6 +175,7 @@ fn visit_paragraph_children(
 }
 
 fn visit_hyperlink(link: &mut Hyperlink, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_hyperlink(link);
     visit_paragraph_children(&mut link.children, visitor);
 }
 
@@ -176,23 +184,28 @@ fn visit_insert(insert: &mut Insert, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             InsertChild::Run(run) => visit_run(run, visitor),
             InsertChild::Delete(delete) => visit_delete(delete, visitor),
-            InsertChild::CommentStart(_) | InsertChild::CommentEnd(_) => {}
+            InsertChild::CommentStart(start) => visitor.visit_comment_start(start),
+            InsertChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_delete(delete: &mut Delete, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut delete.children {
-        if let DeleteChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            DeleteChild::Run(run) => visit_run(run, visitor),
+            DeleteChild::CommentStart(start) => visitor.visit_comment_start(start),
+            DeleteChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_move_from(moved: &mut MoveFrom, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut moved.children {
-        if let MoveFromChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            MoveFromChild::Run(run) => visit_run(run, visitor),
+            MoveFromChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveFromChild::CommentEnd(_) => {}
         }
     }
 }
@@ -202,7 +215,8 @@ fn visit_move_to(moved: &mut MoveTo, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             MoveToChild::Run(run) => visit_run(run, visitor),
             MoveToChild::Delete(delete) => visit_delete(delete, visitor),
-            MoveToChild::CommentStart(_) | MoveToChild::CommentEnd(_) => {}
+            MoveToChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveToChild::CommentEnd(_) => {}
         }
     }
 }
@@ -216,6 +230,7 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
                     visitor.visit_picture(picture);
                 }
             }
+            RunChild::CommentStart(start) => visitor.visit_comment_start(start),
             RunChild::FootnoteReference(reference) => visitor.visit_footnote_reference(reference),
             RunChild::Text(_)
             | RunChild::Sym(_)
@@ -225,7 +240,6 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
             | RunChild::Break(_)
             | RunChild::CarriageReturn(_)
             | RunChild::Shape(_)
-            | RunChild::CommentStart(_)
             | RunChild::CommentEnd(_)
             | RunChild::FieldChar(_)
             | RunChild::InstrText(_)
diff --git a/docx-core/src/documents/footer_rels.rs b/docx-core/src/documents/footer_rels.rs
index 27a0b51..32b2168 100644
--- a/docx-core/src/documents/footer_rels.rs
+++ b/docx-core/src/documents/footer_rels.rs
@@ -1,5 +1,5 @@
 use crate::documents::BuildXML;
-use crate::{xml_builder::*, ImageIdAndPath};
+use crate::{xml_builder::*, HyperlinkIdPathAndMode, ImageIdAndPath};
 use serde::Serialize;
 use std::io::Write;
 
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct FooterRels {
     pub images: Vec<(String, String)>,
+    pub(crate) hyperlinks: Vec<HyperlinkIdPathAndMode>,
 }
 
 impl FooterRels {
@@ -39,6 +40,14 @@ impl BuildXML for FooterRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path, mode), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    mode,
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/header_rels.rs b/docx-core/src/documents/header_rels.rs
index f718643..6ed082c 100644
--- a/docx-core/src/documents/header_rels.rs
+++ b/docx-core/src/documents/header_rels.rs
@@ -1,5 +1,5 @@
 use crate::documents::BuildXML;
-use crate::{xml_builder::*, ImageIdAndPath};
+use crate::{xml_builder::*, HyperlinkIdPathAndMode, ImageIdAndPath};
 use serde::Serialize;
 use std::io::Write;
 
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct HeaderRels {
     pub images: Vec<(String, String)>,
+    pub(crate) hyperlinks: Vec<HyperlinkIdPathAndMode>,
 }
 
 impl HeaderRels {
@@ -39,6 +40,14 @@ impl BuildXML for HeaderRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path, mode), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    mode,
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index a57ca5e..282a10a 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -8,7 +8,8 @@ use std::collections::{HashMap, HashSet};
 
 use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use crate::{
-    Document, Footer, Footnote, FootnoteReference, Header, ImageIdAndBuf, ImageIdAndPath, Pic,
+    Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData,
+    HyperlinkIdPathAndMode, ImageIdAndBuf, ImageIdAndPath, Pic,
 };
 
 /// Stores physical media once for the entire OPC package.
@@ -23,9 +24,19 @@ pub(crate) struct MediaRegistry {
     media_by_id: HashMap<String, usize>,
     by_fingerprint: HashMap<(usize, u32), Vec<usize>>,
     next_suffix_by_id: HashMap<String, usize>,
+    /// IDs used by other relationships of the main document part.
+    reserved_relationship_ids: HashSet<String>,
 }
 
 impl MediaRegistry {
+    /// Keeps images of the main document part from using the given IDs.
+    pub(crate) fn reserving(reserved_relationship_ids: HashSet<String>) -> Self {
+        Self {
+            reserved_relationship_ids,
+            ..Default::default()
+        }
+    }
+
     /// Registers physical bytes and returns their stable registry index.
     ///
     /// Part collectors use the numeric index as their deduplication key. This
@@ -102,9 +113,70 @@ impl MediaRegistry {
     }
 }
 
+/// Gives the external hyperlinks of one XML part relationships with unique IDs.
+///
+/// Hyperlinks that share both ID and target share one relationship.
+#[derive(Default)]
+pub(crate) struct HyperlinkCollector {
+    relationships: Vec<HyperlinkIdPathAndMode>,
+    relationship_ids: HashSet<String>,
+    id_by_link: HashMap<(String, String), String>,
+}
+
+impl HyperlinkCollector {
+    /// Continues known relationships without using any of the reserved IDs.
+    pub(crate) fn new(
+        relationships: Vec<HyperlinkIdPathAndMode>,
+        reserved_ids: HashSet<String>,
+    ) -> Self {
+        let mut collector = Self {
+            relationship_ids: reserved_ids,
+            ..Default::default()
+        };
+        for (id, path, _) in &relationships {
+            collector.relationship_ids.insert(id.clone());
+            collector
+                .id_by_link
+                .insert((id.clone(), path.clone()), id.clone());
+        }
+        collector.relationships = relationships;
+        collector
+    }
+
+    /// Returns the hyperlink relationships and every ID in use in the part.
+    pub(crate) fn finish(self) -> (Vec<HyperlinkIdPathAndMode>, HashSet<String>) {
+        (self.relationships, self.relationship_ids)
+    }
+}
+
+impl DocumentTreeVisitor for HyperlinkCollector {
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        let HyperlinkData::External { rid, path } = &mut link.link else {
+            return;
+        };
+        let link = (rid.clone(), path.clone());
+        if let Some(id) = self.id_by_link.get(&link) {
+            rid.clone_from(id);
+            return;
+        }
+
+        let mut suffix = 2;
+        while self.relationship_ids.contains(rid) {
+            *rid = format!("{}_{suffix}", link.0);
+            suffix += 1;
+        }
+        self.relationship_ids.insert(rid.clone());
+        // Now support external only
+        self.relationships
+            .push((rid.clone(), path.clone(), "External".to_owned()));
+        self.id_by_link.insert(link, rid.clone());
+    }
+}
+
 /// Data collected from one relationship scope during a tree walk.
 pub(crate) struct CollectedPart {
     pub(crate) relationships: Vec<ImageIdAndPath>,
+    pub(crate) hyperlinks: Vec<HyperlinkIdPathAndMode>,
     pub(crate) footnotes: Vec<Footnote>,
 }
 
@@ -122,6 +194,7 @@ struct PackagePartCollector<'a> {
     next_relationship_suffix_by_id: HashMap<String, usize>,
     /// Maps media to the owning relationship entry, avoiding another owned ID.
     relationships_by_media: HashMap<usize, usize>,
+    hyperlinks: Vec<HyperlinkIdPathAndMode>,
     footnotes: Vec<Footnote>,
 }
 
@@ -134,6 +207,7 @@ impl<'a> PackagePartCollector<'a> {
             relationship_ids: HashSet::new(),
             next_relationship_suffix_by_id: HashMap::new(),
             relationships_by_media: HashMap::new(),
+            hyperlinks: Vec::new(),
             footnotes: Vec::new(),
         }
     }
@@ -141,6 +215,7 @@ impl<'a> PackagePartCollector<'a> {
     fn finish(self) -> CollectedPart {
         CollectedPart {
             relationships: self.relationships,
+            hyperlinks: self.hyperlinks,
             footnotes: self.footnotes,
         }
     }
@@ -216,7 +291,9 @@ pub(crate) fn collect_document_part(
     document: &mut Document,
     registry: &mut MediaRegistry,
 ) -> CollectedPart {
+    let reserved_ids = std::mem::take(&mut registry.reserved_relationship_ids);
     let mut collector = PackagePartCollector::new(registry, None);
+    collector.relationship_ids = reserved_ids;
     visit_document(document, &mut collector);
     collector.finish()
 }
@@ -249,7 +326,10 @@ pub(crate) fn collect_header_part(
     header: &mut Header,
     registry: &mut MediaRegistry,
 ) -> CollectedPart {
+    let mut hyperlinks = HyperlinkCollector::default();
+    visit_header(header, &mut hyperlinks);
     let mut collector = PackagePartCollector::new(registry, Some("header"));
+    (collector.hyperlinks, collector.relationship_ids) = hyperlinks.finish();
     visit_header(header, &mut collector);
     collector.finish()
 }
@@ -259,7 +339,10 @@ pub(crate) fn collect_footer_part(
     footer: &mut Footer,
     registry: &mut MediaRegistry,
 ) -> CollectedPart {
+    let mut hyperlinks = HyperlinkCollector::default();
+    visit_footer(footer, &mut hyperlinks);
     let mut collector = PackagePartCollector::new(registry, Some("footer"));
+    (collector.hyperlinks, collector.relationship_ids) = hyperlinks.finish();
     visit_footer(footer, &mut collector);
     collector.finish()
 }
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index a4613a7..7b4a1ea 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,9 +85,10 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
+use self::document_tree::{visit_document, DocumentTreeVisitor};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
-    MediaRegistry,
+    CollectedPart, HyperlinkCollector, MediaRegistry,
 };
 
 #[derive(Debug, Clone)]
@@ -105,6 +106,7 @@ pub struct Png(pub Vec<u8>);
 
 pub type ImageIdAndPath = (String, String);
 pub type ImageIdAndBuf = (String, Vec<u8>);
+pub(crate) type HyperlinkIdPathAndMode = (String, String, String);
 
 const PNG_SIGNATURE: &[u8; 8] = &[137, 80, 78, 71, 13, 10, 26, 10];
 
@@ -847,7 +849,14 @@ impl Docx {
     fn prepare_package(&mut self) -> PackageMetadata {
         let has_toc = self.prepare_for_build();
 
-        let mut media = MediaRegistry::default();
+        let mut reserved_ids = self.document_rels.reserved_ids();
+        reserved_ids.extend(
+            self.document_rels
+                .hyperlinks
+                .iter()
+                .map(|(id, ..)| id.clone()),
+        );
+        let mut media = MediaRegistry::reserving(reserved_ids);
         let document_part = collect_document_part(&mut self.document, &mut media);
         let header_images = self.collect_header_images(&mut media);
         let footer_images = self.collect_footer_images(&mut media);
@@ -855,18 +864,20 @@ impl Docx {
 
         let header_rels = header_images
             .into_iter()
-            .map(|(index, images)| {
+            .map(|(index, part)| {
                 let mut rels = HeaderRels::new();
-                rels.set_images(images);
+                rels.set_images(part.relationships);
+                rels.hyperlinks = part.hyperlinks;
                 (index, rels)
             })
             .collect();
 
         let footer_rels = footer_images
             .into_iter()
-            .map(|(index, images)| {
+            .map(|(index, part)| {
                 let mut rels = FooterRels::new();
-                rels.set_images(images);
+                rels.set_images(part.relationships);
+                rels.hyperlinks = part.hyperlinks;
                 (index, rels)
             })
             .collect();
@@ -919,337 +930,111 @@ impl Docx {
         refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
     }
 
-    fn insert_comment_to_map(
-        &self,
-        comment_map: &mut HashMap<usize, String>,
-        c: &CommentRangeStart,
-    ) {
-        let comment = c.get_comment_ref();
-        let comment_id = comment.id();
-        for child in &comment.children {
-            if let CommentChild::Paragraph(child) = child {
-                let para_id = child.id.clone();
-                comment_map.insert(comment_id, para_id);
-            }
-            // TODO: Support table in comment
-        }
-    }
-
     // Traverse and clone comments from document and add to comments node.
     fn update_dependencies(&mut self) {
-        let mut comments: Vec<Comment> = vec![];
-        let mut comments_extended: Vec<CommentExtended> = vec![];
-        let mut comment_map: HashMap<usize, String> = HashMap::new();
+        let mut hyperlinks = HyperlinkCollector::new(
+            std::mem::take(&mut self.document_rels.hyperlinks),
+            self.document_rels.reserved_ids(),
+        );
+        visit_document(&mut self.document, &mut hyperlinks);
+        (self.document_rels.hyperlinks, _) = hyperlinks.finish();
 
-        let mut hyperlink_map: HashMap<String, String> = HashMap::new();
+        #[derive(Default)]
+        struct CommentCollector {
+            comments: Vec<Comment>,
+            ids: HashSet<usize>,
+        }
 
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            self.insert_comment_to_map(&mut comment_map, c);
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            }
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    self.insert_comment_to_map(&mut comment_map, c);
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_comment_map_in_table(table, &mut comment_map, &mut hyperlink_map);
+        impl DocumentTreeVisitor for CommentCollector {
+            fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+                let comment = start.get_comment_ref();
+                if self.ids.insert(comment.id()) {
+                    self.comments.push(comment.clone());
                 }
-                DocumentChild::TableOfContents(toc) => {
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                }
-                _ => {}
             }
         }
 
-        if comment_map.is_empty() {
-            for (id, path) in hyperlink_map {
-                self.document_rels
-                    .hyperlinks
-                    .push((id, path, "External".to_owned()));
-            }
+        let mut collector = CommentCollector::default();
+        visit_document(&mut self.document, &mut collector);
+        let comments = collector.comments;
+        if comments.is_empty() {
             return;
         }
 
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            push_comment_and_comment_extended(
-                                &mut comments,
-                                &mut comments_extended,
-                                &comment_map,
-                                c,
-                            );
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            };
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_dependencies_in_table(
-                        table,
-                        &mut comments,
-                        &mut comments_extended,
-                        &mut comment_map,
-                        &mut hyperlink_map,
-                    );
-                }
-                DocumentChild::TableOfContents(toc) => {
-                    // TODO:refine later
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                }
-                _ => {}
-            }
-        }
+        // A thread entry names the last paragraph of its comment.
+        let comment_map: HashMap<usize, String> = comments
+            .iter()
+            .filter_map(|comment| Some((comment.id(), last_paragraph_id(comment)?)))
+            .collect();
+        let comments_extended = comments
+            .iter()
+            .filter_map(|comment| create_comment_extended(comment, &comment_map))
+            .collect();
+
         // If this document has comments, set comments.xml to document_rels.
         // This is because comments.xml without comment cause an error on word online.
-        if !comments.is_empty() {
-            self.document_rels.has_comments = true;
-        }
-
+        self.document_rels.has_comments = true;
         self.comments_extended
             .add_comments_extended(comments_extended);
-
         self.comments.add_comments(comments);
-
-        for (id, d) in hyperlink_map {
-            self.document_rels
-                .hyperlinks
-                .push((id, d, "External".to_string())); // Now support external only
-        }
     }
 
     // Traverse and clone comments from document and add to comments node.
     // reader only
     pub(crate) fn store_comments(&mut self, comments: &[Comment]) {
+        struct CommentSetter<'a> {
+            comments_by_id: HashMap<usize, &'a Comment>,
+        }
+
+        impl DocumentTreeVisitor for CommentSetter<'_> {
+            fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+                if let Some(comment) = self.comments_by_id.get(&start.get_id()).copied() {
+                    start.comment(comment.clone());
+                }
+            }
+        }
+
         let comments_by_id: HashMap<usize, &Comment> = comments
             .iter()
             .map(|comment| (comment.id(), comment))
             .collect();
-        for child in &mut self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &mut paragraph.children {
-                        if let ParagraphChild::CommentStart(ref mut c) = child {
-                            let comment_id = c.get_id();
-                            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                                let comment = Comment::clone(comment);
-                                c.as_mut().comment(comment);
-                            }
-                        }
-                        if let ParagraphChild::Insert(ref mut insert) = child {
-                            for child in &mut insert.children {
-                                if let InsertChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                } else if let InsertChild::Delete(ref mut d) = child {
-                                    for child in &mut d.children {
-                                        if let DeleteChild::CommentStart(ref mut c) = child {
-                                            let comment_id = c.get_id();
-                                            if let Some(comment) =
-                                                comments_by_id.get(&comment_id).copied()
-                                            {
-                                                let comment = Comment::clone(comment);
-                                                c.as_mut().comment(comment);
-                                            }
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let ParagraphChild::Delete(ref mut delete) = child {
-                            for child in &mut delete.children {
-                                if let DeleteChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => store_comments_in_table(table, &comments_by_id),
-                _ => {}
-            }
-        }
+        visit_document(&mut self.document, &mut CommentSetter { comments_by_id });
 
         if !comments.is_empty() {
             self.document_rels.has_comments = true;
         }
     }
 
-    /// Collects image relationships for every header in package order.
+    /// Collects image and hyperlink relationships for every header in package order.
     ///
     /// Each entry deliberately uses a separate relationship scope while all
     /// entries share the package-wide media registry. Relationship creation
     /// order matches the order used to render and write header parts.
-    fn collect_header_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    fn collect_header_images(&mut self, media: &mut MediaRegistry) -> Vec<(usize, CollectedPart)> {
         self.document
             .headers_mut()
             .enumerate()
             .filter_map(|(index, (_, header))| {
-                let relationships = collect_header_part(header, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_header_part(header, media);
+                (!part.relationships.is_empty() || !part.hyperlinks.is_empty())
+                    .then_some((index, part))
             })
             .collect()
     }
 
-    /// Collects image relationships for every footer in package order.
+    /// Collects image and hyperlink relationships for every footer in package order.
     ///
     /// Relationship creation order matches the package writer. A shared
     /// registry prevents repeated footer and body images from being emitted as
     /// separate physical media files.
-    fn collect_footer_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    fn collect_footer_images(&mut self, media: &mut MediaRegistry) -> Vec<(usize, CollectedPart)> {
         self.document
             .footers_mut()
             .enumerate()
             .filter_map(|(index, (_, footer))| {
-                let relationships = collect_footer_part(footer, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_footer_part(footer, media);
+                (!part.relationships.is_empty() || !part.hyperlinks.is_empty())
+                    .then_some((index, part))
             })
             .collect()
     }
@@ -1267,306 +1052,6 @@ impl Docx {
     }
 }
 
-fn collect_dependencies_in_paragraph(
-    paragraph: &Paragraph,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            };
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-                }
-            }
-        }
-    }
-}
-
-fn collect_comment_map_in_paragraph(
-    paragraph: &Paragraph,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            let comment = c.get_comment_ref();
-            let comment_id = comment.id();
-            for child in &comment.children {
-                if let CommentChild::Paragraph(child) = child {
-                    comment_map.insert(comment_id, child.id.clone());
-                }
-            }
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            }
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    let comment = c.get_comment_ref();
-                    let comment_id = comment.id();
-                    for child in &comment.children {
-                        if let CommentChild::Paragraph(child) = child {
-                            comment_map.insert(comment_id, child.id.clone());
-                        }
-                    }
-                }
-            }
-        }
-    }
-}
-
-fn collect_comment_map_in_table(
-    table: &Table,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_comment_map_in_paragraph(paragraph, comment_map, hyperlink_map);
-                    }
-                    TableCellContent::Table(table) => {
-                        collect_comment_map_in_table(table, comment_map, hyperlink_map)
-                    }
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
-}
-
-fn collect_dependencies_in_table(
-    table: &Table,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_dependencies_in_paragraph(
-                            paragraph,
-                            comments,
-                            comments_extended,
-                            comment_map,
-                            hyperlink_map,
-                        );
-                    }
-                    TableCellContent::Table(table) => collect_dependencies_in_table(
-                        table,
-                        comments,
-                        comments_extended,
-                        comment_map,
-                        hyperlink_map,
-                    ),
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
-}
-
-fn store_comments_in_paragraph(
-    paragraph: &mut Paragraph,
-    comments_by_id: &HashMap<usize, &Comment>,
-) {
-    for child in &mut paragraph.children {
-        if let ParagraphChild::CommentStart(ref mut c) = child {
-            let comment_id = c.get_id();
-            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                let comment = Comment::clone(comment);
-                c.as_mut().comment(comment);
-            }
-        }
-        if let ParagraphChild::Insert(ref mut insert) = child {
-            for child in &mut insert.children {
-                if let InsertChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
-        }
-        if let ParagraphChild::Delete(ref mut delete) = child {
-            for child in &mut delete.children {
-                if let DeleteChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
-        }
-    }
-}
-
-fn store_comments_in_table(table: &mut Table, comments_by_id: &HashMap<usize, &Comment>) {
-    for TableChild::TableRow(row) in &mut table.rows {
-        for TableRowChild::TableCell(cell) in &mut row.cells {
-            for content in &mut cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        store_comments_in_paragraph(paragraph, comments_by_id)
-                    }
-                    TableCellContent::Table(ref mut table) => {
-                        store_comments_in_table(table, comments_by_id);
-                    }
-                    TableCellContent::StructuredDataTag(ref mut tag) => {
-                        for child in &mut tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(ref mut t) => {
-                        for child in &mut t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-
-                        for child in &mut t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
-}
-
 fn collect_para_ids_in_docx<'a>(docx: &'a Docx, counts: &mut HashMap<&'a str, usize>) {
     for child in &docx.document.children {
         collect_para_ids_in_document_child(child, counts);
@@ -2266,28 +1751,26 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
-fn push_comment_and_comment_extended(
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &HashMap<usize, String>,
-    c: &CommentRangeStart,
-) {
-    let comment = c.get_comment_ref();
-    for child in &comment.children {
-        if let CommentChild::Paragraph(child) = child {
-            let para_id = child.id.clone();
-            comments.push(comment.clone());
-            let comment_extended = CommentExtended::new(para_id);
-            if let Some(parent_comment_id) = comment.parent_comment_id {
-                if let Some(parent_para_id) = comment_map.get(&parent_comment_id) {
-                    comments_extended
-                        .push(comment_extended.parent_paragraph_id(parent_para_id.clone()));
-                }
-            } else {
-                comments_extended.push(comment_extended);
-            }
-        }
+/// Returns the ID of the last paragraph of a comment.
+fn last_paragraph_id(comment: &Comment) -> Option<String> {
+    comment.children.iter().rev().find_map(|child| match child {
+        CommentChild::Paragraph(paragraph) => Some(paragraph.id.clone()),
         // TODO: Support table in comment
+        CommentChild::Table(_) => None,
+    })
+}
+
+/// Creates the thread entry of a comment. A reply to an unknown comment has none.
+fn create_comment_extended(
+    comment: &Comment,
+    comment_map: &HashMap<usize, String>,
+) -> Option<CommentExtended> {
+    let comment_extended = CommentExtended::new(comment_map.get(&comment.id())?.clone());
+    match comment.parent_comment_id {
+        Some(parent_comment_id) => comment_map
+            .get(&parent_comment_id)
+            .map(|parent| comment_extended.parent_paragraph_id(parent.clone())),
+        None => Some(comment_extended),
     }
 }
 
-- 
2.43.0


From 1feb423d80a4a945e84d1907c44d65cf1b9cb0ae Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 18:49:12 +0000
Subject: [PATCH 08/36] fix: number header and footer parts when the package is
 prepared

Setting a header twice, setting document headers after adding sections, or
writing a document that was read from another package left references that
did not match the written header and footer parts.  Even-page parts of a
section now also switch on different even and odd pages.
---
 docx-core/src/documents/content_types.rs      | 22 +++++++
 .../documents/elements/section_property.rs    | 57 ++++++++++++++++++-
 docx-core/src/documents/mod.rs                | 36 ++++++++++++
 3 files changed, 114 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 2cc90a1..552886d 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -130,6 +130,28 @@ impl ContentTypes {
         );
         self
     }
+
+    /// Lists exactly the given numbers of header and footer parts.
+    pub(crate) fn set_header_and_footer_count(mut self, headers: usize, footers: usize) -> Self {
+        while self.header_count > headers {
+            self.types
+                .remove(&format!("/word/header{}.xml", self.header_count));
+            self.header_count -= 1;
+        }
+        while self.header_count < headers {
+            self = self.add_header();
+        }
+        while self.footer_count > footers {
+            self.types
+                .remove(&format!("/word/footer{}.xml", self.footer_count));
+            self.footer_count -= 1;
+        }
+        while self.footer_count < footers {
+            self = self.add_footer();
+        }
+        self
+    }
+
     pub fn add_footnotes(mut self) -> Self {
         self.types.insert(
             "/word/footnotes.xml".to_owned(),
diff --git a/docx-core/src/documents/elements/section_property.rs b/docx-core/src/documents/elements/section_property.rs
index 74b8f9b..1c18ee0 100644
--- a/docx-core/src/documents/elements/section_property.rs
+++ b/docx-core/src/documents/elements/section_property.rs
@@ -2,7 +2,7 @@ use super::*;
 use crate::documents::BuildXML;
 use crate::types::*;
 use crate::xml_builder::*;
-use crate::{Footer, Header};
+use crate::{create_footer_rid, create_header_rid, Footer, Header};
 use std::io::Write;
 
 use serde::Serialize;
@@ -181,12 +181,67 @@ impl SectionProperty {
         .filter_map(Option::as_mut)
     }
 
+    /// Points every reference at the part that will be written for it.
+    ///
+    /// Parts are numbered in the order of [`Self::headers`] and
+    /// [`Self::footers`]. A reference without content is dropped.
+    pub(crate) fn number_parts(&mut self, headers: &mut usize, footers: &mut usize) {
+        self.header_reference = number_header("default", &mut self.header, headers);
+        self.first_header_reference = number_header("first", &mut self.first_header, headers);
+        self.even_header_reference = number_header("even", &mut self.even_header, headers);
+        self.footer_reference = number_footer("default", &mut self.footer, footers);
+        self.first_footer_reference = number_footer("first", &mut self.first_footer, footers);
+        self.even_footer_reference = number_footer("even", &mut self.even_footer, footers);
+    }
+
+    /// Removes references to parts that are not written for this section.
+    pub(crate) fn clear_references(&mut self) {
+        self.header_reference = None;
+        self.first_header_reference = None;
+        self.even_header_reference = None;
+        self.footer_reference = None;
+        self.first_footer_reference = None;
+        self.even_footer_reference = None;
+    }
+
     pub fn page_num_type(mut self, h: PageNumType) -> Self {
         self.page_num_type = Some(h);
         self
     }
 }
 
+/// Gives a header the next number and returns the reference to it.
+fn number_header(
+    kind: &str,
+    header: &mut Option<(String, Header)>,
+    count: &mut usize,
+) -> Option<HeaderReference> {
+    match header {
+        Some(header) => {
+            *count += 1;
+            header.0 = create_header_rid(*count);
+            Some(HeaderReference::new(kind, header.0.as_str()))
+        }
+        None => None,
+    }
+}
+
+/// Gives a footer the next number and returns the reference to it.
+fn number_footer(
+    kind: &str,
+    footer: &mut Option<(String, Footer)>,
+    count: &mut usize,
+) -> Option<FooterReference> {
+    match footer {
+        Some(footer) => {
+            *count += 1;
+            footer.0 = create_footer_rid(*count);
+            Some(FooterReference::new(kind, footer.0.as_str()))
+        }
+        None => None,
+    }
+}
+
 impl Default for SectionProperty {
     fn default() -> Self {
         Self {
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 7b4a1ea..f95c13b 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -449,6 +449,7 @@ impl Docx {
         }
 
         if let Some(header) = new_section.temp_even_header.take() {
+            self.settings = std::mem::take(&mut self.settings).even_and_odd_headers();
             self.attach_section_header(&mut new_section, header, SectionProperty::even_header);
         }
 
@@ -461,6 +462,7 @@ impl Docx {
         }
 
         if let Some(footer) = new_section.temp_even_footer.take() {
+            self.settings = std::mem::take(&mut self.settings).even_and_odd_headers();
             self.attach_section_footer(&mut new_section, footer, SectionProperty::even_footer);
         }
 
@@ -838,6 +840,7 @@ impl Docx {
     /// Prepares the complete document tree for package-part rendering.
     fn prepare_for_build(&mut self) -> bool {
         self.reset();
+        self.number_headers_and_footers();
         let has_toc = self.expand_auto_tocs();
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
@@ -909,6 +912,39 @@ impl Docx {
         }
     }
 
+    /// Numbers header and footer parts in package order.
+    ///
+    /// Replacing a header leaves its number unused, headers may be set after
+    /// sections were added, and documents that were read carry the IDs of
+    /// their original package.
+    fn number_headers_and_footers(&mut self) {
+        struct ReferenceCleaner;
+
+        impl DocumentTreeVisitor for ReferenceCleaner {
+            fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
+                if let Some(property) = &mut paragraph.property.section_property {
+                    property.clear_references();
+                }
+            }
+        }
+
+        let (mut headers, mut footers) = (0, 0);
+        self.document
+            .section_property
+            .number_parts(&mut headers, &mut footers);
+        for child in &mut self.document.children {
+            if let DocumentChild::Section(section) = child {
+                section.property.number_parts(&mut headers, &mut footers);
+            }
+        }
+        visit_document(&mut self.document, &mut ReferenceCleaner);
+
+        self.document_rels.header_count = headers;
+        self.document_rels.footer_count = footers;
+        self.content_type = std::mem::take(&mut self.content_type)
+            .set_header_and_footer_count(headers, footers);
+    }
+
     /// Replaces empty and duplicate paragraph IDs with unique values.
     fn refresh_duplicate_para_ids(&mut self) {
         let mut counts: HashMap<&str, usize> = HashMap::new();
-- 
2.43.0


From 7c0dfb5e3c1ab1c378b10d24f02f3fda37269c6c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 18:49:33 +0000
Subject: [PATCH 09/36] fix: keep generated paragraph ids apart from those of
 the document

Paragraphs that only exist in the output (section ends, empty cells, table
of contents entries) took ids that paragraphs of the document already had,
and paragraphs of footnotes were left out when duplicates are replaced.
---
 docx-core/src/documents/mod.rs          | 24 +++++++++++++++++----
 docx-core/src/documents/paragraph_id.rs | 28 ++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index f95c13b..13dd54f 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -957,6 +957,7 @@ impl Docx {
             .collect();
         let has_empty_id = counts.contains_key("");
         if duplicates.is_empty() && !has_empty_id {
+            reserve_para_ids(counts.into_keys());
             return;
         }
 
@@ -964,6 +965,7 @@ impl Docx {
         let mut seen: HashSet<String> = HashSet::new();
 
         refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
+        reserve_para_ids(used.iter().map(String::as_str));
     }
 
     // Traverse and clone comments from document and add to comments node.
@@ -1312,8 +1314,14 @@ fn collect_para_ids_in_move_to<'a>(moved: &'a MoveTo, counts: &mut HashMap<&'a s
 
 fn collect_para_ids_in_run<'a>(run: &'a Run, counts: &mut HashMap<&'a str, usize>) {
     for child in &run.children {
-        if let RunChild::CommentStart(c) = child {
-            collect_para_ids_in_comment(&c.comment, counts);
+        match child {
+            RunChild::CommentStart(c) => collect_para_ids_in_comment(&c.comment, counts),
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &reference.content {
+                    collect_para_ids_in_paragraph(paragraph, counts);
+                }
+            }
+            _ => {}
         }
     }
 }
@@ -1697,8 +1705,16 @@ fn refresh_para_ids_in_run(
     seen: &mut HashSet<String>,
 ) {
     for child in &mut run.children {
-        if let RunChild::CommentStart(c) = child {
-            refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen);
+        match child {
+            RunChild::CommentStart(c) => {
+                refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen)
+            }
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &mut reference.content {
+                    refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen);
+                }
+            }
+            _ => {}
         }
     }
 }
diff --git a/docx-core/src/documents/paragraph_id.rs b/docx-core/src/documents/paragraph_id.rs
index 051e311..889d9d1 100644
--- a/docx-core/src/documents/paragraph_id.rs
+++ b/docx-core/src/documents/paragraph_id.rs
@@ -1,26 +1,43 @@
 #[cfg(not(test))]
-use std::cell::Cell;
+use std::cell::{Cell, RefCell};
+#[cfg(not(test))]
+use std::collections::HashSet;
 #[cfg(not(test))]
 thread_local! {
     // Resetting a process-global counter lets one document reuse IDs while
     // another thread is still creating paragraphs. Keep reset scope local;
     // build-time normalization handles IDs from paragraphs merged across threads.
     static PARA_ID: Cell<u32> = const { Cell::new(1) };
+    // IDs of the document being written. Paragraphs that exist only in the
+    // output, such as the end of a section, must not take one of them.
+    static RESERVED_PARA_IDS: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
 }
 
 #[cfg(not(test))]
 pub fn generate_para_id() -> String {
-    let id = PARA_ID.with(|next| {
+    let id = PARA_ID.with(|next| loop {
         let id = next.get();
         next.set(id.checked_add(1).expect("paragraph ID space exhausted"));
-        id
+        if RESERVED_PARA_IDS.with(|reserved| !reserved.borrow().contains(&id)) {
+            break id;
+        }
     });
     format!("{id:08x}")
 }
 
+#[cfg(not(test))]
+pub(crate) fn reserve_para_ids<'a>(ids: impl Iterator<Item = &'a str>) {
+    RESERVED_PARA_IDS.with(|reserved| {
+        reserved
+            .borrow_mut()
+            .extend(ids.filter_map(|id| u32::from_str_radix(id, 16).ok()))
+    });
+}
+
 #[cfg(not(test))]
 pub fn reset_para_id() {
     PARA_ID.set(1);
+    RESERVED_PARA_IDS.with(|reserved| reserved.borrow_mut().clear());
 }
 
 #[cfg(test)]
@@ -28,6 +45,11 @@ pub fn generate_para_id() -> String {
     "12345678".to_owned()
 }
 
+#[cfg(test)]
+pub(crate) fn reserve_para_ids<'a>(_ids: impl Iterator<Item = &'a str>) {
+    // NOP
+}
+
 #[cfg(test)]
 pub fn reset_para_id() {
     // NOP
-- 
2.43.0


From 5a7ae3f7f1eaf49794ce5a573e608ba23aeb3bfe Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 18:53:15 +0000
Subject: [PATCH 10/36] fix: render parts in package order when building

---
 docx-core/src/documents/mod.rs | 63 ++++++++++++++--------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 13dd54f..21ef954 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -711,54 +711,43 @@ impl Docx {
     pub fn build(mut self) -> XMLDocx {
         let package = self.prepare_package();
 
-        let web_extensions = self.web_extensions.iter().map(|ext| ext.build()).collect();
-        let custom_items = self.custom_items.iter().map(|xml| xml.build()).collect();
-        let custom_item_props = self.custom_item_props.iter().map(|p| p.build()).collect();
-        let custom_item_rels = self
-            .custom_item_rels
-            .iter()
-            .map(|rel| rel.build())
-            .collect();
-
-        let headers = self
-            .document
-            .headers()
-            .map(|(_, header)| header.build())
-            .collect();
-
-        let footers = self
-            .document
-            .footers()
-            .map(|(_, footer)| footer.build())
-            .collect();
-
-        let header_rels = build_sparse_relationships(package.header_rels);
-        let footer_rels = build_sparse_relationships(package.footer_rels);
-
+        // Rendering assigns ids, so parts are rendered in package order.
         XMLDocx {
             content_type: self.content_type.build(),
             rels: self.rels.build(),
             doc_props: self.doc_props.build(),
-            styles: self.styles.build(),
-            document: self.document.build(),
-            comments: self.comments.build(),
             document_rels: self.document_rels.build(),
-            header_rels,
-            footer_rels,
+            document: self.document.build(),
+            styles: self.styles.build(),
             settings: self.settings.build(),
             font_table: self.font_table.build(),
+            comments: self.comments.build(),
             numberings: self.numberings.build(),
-            media: package.media,
-            headers,
-            footers,
             comments_extended: self.comments_extended.build(),
+            footnotes: self.footnotes.build(),
+            headers: self
+                .document
+                .headers()
+                .map(|(_, header)| header.build())
+                .collect(),
+            header_rels: build_sparse_relationships(package.header_rels),
+            footers: self
+                .document
+                .footers()
+                .map(|(_, footer)| footer.build())
+                .collect(),
+            footer_rels: build_sparse_relationships(package.footer_rels),
+            media: package.media,
             taskpanes: self.taskpanes.map(|taskpanes| taskpanes.build()),
             taskpanes_rels: self.taskpanes_rels.build(),
-            web_extensions,
-            custom_items,
-            custom_item_rels,
-            custom_item_props,
-            footnotes: self.footnotes.build(),
+            web_extensions: self.web_extensions.iter().map(|ext| ext.build()).collect(),
+            custom_items: self.custom_items.iter().map(|xml| xml.build()).collect(),
+            custom_item_rels: self
+                .custom_item_rels
+                .iter()
+                .map(|rel| rel.build())
+                .collect(),
+            custom_item_props: self.custom_item_props.iter().map(|p| p.build()).collect(),
         }
     }
 
-- 
2.43.0


From 1360bbb17fbc666128d643f9f6e2001439eab606 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 18:54:07 +0000
Subject: [PATCH 11/36] fix: reference the numbering part wherever a numbered
 paragraph is placed

---
 docx-core/src/documents/document_tree.rs | 20 +++++++---
 docx-core/src/documents/mod.rs           | 48 +++++++++++++++++++++++-
 2 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index f895c06..04664f0 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,11 +5,11 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer,
-    FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild,
-    MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild,
-    StructuredDataTag, StructuredDataTagChild, Table, TableCellContent, TableChild,
-    TableOfContents, TableRowChild,
+    Comment, CommentChild, CommentRangeStart, Delete, DeleteChild, Document, DocumentChild,
+    DrawingData, Footer, FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild,
+    MoveFrom, MoveFromChild, MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild,
+    Section, SectionChild, StructuredDataTag, StructuredDataTagChild, Table, TableCellContent,
+    TableChild, TableOfContents, TableRowChild,
 };
 
 /// Receives package-relevant nodes while the document tree is traversed.
@@ -70,6 +70,16 @@ pub(crate) fn visit_footer(footer: &mut Footer, visitor: &mut impl DocumentTreeV
     }
 }
 
+/// Traverses the content of one comment, which belongs to the comments part.
+pub(crate) fn visit_comment(comment: &mut Comment, visitor: &mut impl DocumentTreeVisitor) {
+    for child in &mut comment.children {
+        match child {
+            CommentChild::Paragraph(paragraph) => visit_paragraph(paragraph, visitor),
+            CommentChild::Table(table) => visit_table(table, visitor),
+        }
+    }
+}
+
 fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTreeVisitor) {
     match child {
         DocumentChild::Paragraph(paragraph) => visit_paragraph(paragraph, visitor),
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 21ef954..c905ea1 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,7 +85,9 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
-use self::document_tree::{visit_document, DocumentTreeVisitor};
+use self::document_tree::{
+    visit_comment, visit_document, visit_footer, visit_header, DocumentTreeVisitor,
+};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
     CollectedPart, HyperlinkCollector, MediaRegistry,
@@ -833,6 +835,7 @@ impl Docx {
         let has_toc = self.expand_auto_tocs();
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
+        self.update_numbering_reference();
         has_toc
     }
 
@@ -934,6 +937,49 @@ impl Docx {
             .set_header_and_footer_count(headers, footers);
     }
 
+    /// References the numbering part when a paragraph or style uses numbering.
+    fn update_numbering_reference(&mut self) {
+        #[derive(Default)]
+        struct NumberingFinder {
+            found: bool,
+        }
+
+        impl DocumentTreeVisitor for NumberingFinder {
+            fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
+                self.found |= paragraph.property.numbering_property.is_some();
+            }
+
+            fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+                visit_comment(&mut start.comment, self);
+            }
+
+            fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
+                self.found |= reference
+                    .content
+                    .iter()
+                    .any(|paragraph| paragraph.property.numbering_property.is_some());
+            }
+        }
+
+        let mut finder = NumberingFinder::default();
+        visit_document(&mut self.document, &mut finder);
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut finder);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut finder);
+        }
+        if finder.found
+            || self
+                .styles
+                .styles
+                .iter()
+                .any(|style| style.paragraph_property.numbering_property.is_some())
+        {
+            self.document_rels.has_numberings = true;
+        }
+    }
+
     /// Replaces empty and duplicate paragraph IDs with unique values.
     fn refresh_duplicate_para_ids(&mut self) {
         let mut counts: HashMap<&str, usize> = HashMap::new();
-- 
2.43.0


From 7a6cf6a7f996fc23eed6d94efe5f20565f07492c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 18:54:10 +0000
Subject: [PATCH 12/36] fix: let caller numbering definitions replace the
 defaults with the same id

---
 docx-core/src/documents/numberings.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/numberings.rs b/docx-core/src/documents/numberings.rs
index 0b42420..0adca52 100644
--- a/docx-core/src/documents/numberings.rs
+++ b/docx-core/src/documents/numberings.rs
@@ -34,12 +34,18 @@ impl BuildXML for Numberings {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // The default definitions give way to definitions with the same id.
+        let default_abstract_num = (!self.abstract_nums.iter().any(|n| n.id == 1))
+            .then(create_default_numbering);
+        let default_num =
+            (!self.numberings.iter().any(|n| n.id == 1)).then(|| Numbering::new(1, 1));
+
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_numbering()?
-            .add_child(&create_default_numbering())?
+            .add_optional_child(&default_abstract_num)?
             .add_children(&self.abstract_nums)?
-            .add_child(&Numbering::new(1, 1))?
+            .add_optional_child(&default_num)?
             .add_children(&self.numberings)?
             .close()?
             .into_inner()
-- 
2.43.0


From 0d7e03edded1c19b7c571dcd5f5146f24bbe13ce Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 18:54:13 +0000
Subject: [PATCH 13/36] fix: write task panes once and whenever there are web
 extensions

---
 docx-core/src/documents/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index c905ea1..aa050dc 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -674,6 +674,9 @@ impl Docx {
     }
 
     pub fn taskpanes(mut self) -> Self {
+        if self.taskpanes.is_some() {
+            return self;
+        }
         self.taskpanes = Some(Taskpanes::new());
         self.rels = self.rels.add_taskpanes_rel();
         self.content_type = self.content_type.add_taskpanes();
@@ -681,6 +684,8 @@ impl Docx {
     }
 
     pub fn web_extension(mut self, ext: WebExtension) -> Self {
+        // Web extensions are parts of the task panes.
+        self = self.taskpanes();
         self.web_extensions.push(ext);
         self.taskpanes_rels = self.taskpanes_rels.add_rel();
         self.content_type = self.content_type.add_web_extensions();
-- 
2.43.0


From 2694f7de68c5c1a3b8ea1509174d59eabffbfc36 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 18:54:23 +0000
Subject: [PATCH 14/36] fix: restore the targets of hyperlinks that were read

---
 docx-core/src/documents/mod.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index aa050dc..d1bcdc5 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,6 +85,8 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
+use crate::escape::escape_owned;
+
 use self::document_tree::{
     visit_comment, visit_document, visit_footer, visit_header, DocumentTreeVisitor,
 };
@@ -839,6 +841,7 @@ impl Docx {
         self.number_headers_and_footers();
         let has_toc = self.expand_auto_tocs();
         self.refresh_duplicate_para_ids();
+        self.restore_hyperlink_targets();
         self.update_dependencies();
         self.update_numbering_reference();
         has_toc
@@ -942,6 +945,31 @@ impl Docx {
             .set_header_and_footer_count(headers, footers);
     }
 
+    /// Gives hyperlinks that were read the targets they had in their package.
+    fn restore_hyperlink_targets(&mut self) {
+        struct TargetSetter<'a> {
+            hyperlinks: &'a [(String, String, String)],
+        }
+
+        impl DocumentTreeVisitor for TargetSetter<'_> {
+            fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+                let HyperlinkData::External { rid, path } = &mut link.link else {
+                    return;
+                };
+                if path.is_empty() {
+                    if let Some((_, target, _)) =
+                        self.hyperlinks.iter().find(|(id, ..)| id == rid)
+                    {
+                        *path = escape_owned(target.clone());
+                    }
+                }
+            }
+        }
+
+        let hyperlinks = &self.hyperlinks;
+        visit_document(&mut self.document, &mut TargetSetter { hyperlinks });
+    }
+
     /// References the numbering part when a paragraph or style uses numbering.
     fn update_numbering_reference(&mut self) {
         #[derive(Default)]
-- 
2.43.0


From 91d5774d2253598a69ca5b2a090d2691d98930b4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 18:56:43 +0000
Subject: [PATCH 15/36] fix: return errors instead of panicking or looping on
 malformed input

---
 docx-core/src/documents/content_types.rs   | 11 ++++++----
 docx-core/src/reader/attributes/width.rs   |  2 +-
 docx-core/src/reader/comment.rs            |  3 ++-
 docx-core/src/reader/comment_extended.rs   |  2 +-
 docx-core/src/reader/custom_properties.rs  |  1 +
 docx-core/src/reader/ignore.rs             | 12 +++++++----
 docx-core/src/reader/level.rs              | 25 +++++++++++++++-------
 docx-core/src/reader/level_override.rs     |  6 ++++--
 docx-core/src/reader/numbering_property.rs |  8 +++++--
 docx-core/src/reader/numberings.rs         | 15 +++++++++----
 docx-core/src/reader/paragraph_property.rs | 16 +++++++++-----
 docx-core/src/reader/read_xml.rs           |  8 +++----
 docx-core/src/reader/read_zip.rs           |  6 ++++--
 docx-core/src/reader/run_property.rs       | 22 ++++++++++++++-----
 docx-core/src/reader/style.rs              |  4 +++-
 docx-core/src/reader/table.rs              |  4 +++-
 docx-core/src/reader/table_property.rs     |  6 ++++--
 docx-core/src/reader/xml_parser.rs         | 25 ++++++++--------------
 18 files changed, 113 insertions(+), 63 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 552886d..118df0d 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -4,7 +4,7 @@ use std::collections::BTreeMap;
 use std::io::{Read, Write};
 
 use crate::documents::BuildXML;
-use crate::reader::{FromXML, ReaderError};
+use crate::reader::{read, FromXML, ReaderError};
 use crate::xml_builder::*;
 
 #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
@@ -207,9 +207,12 @@ impl FromXML for ContentTypes {
             match e {
                 Ok(XmlEvent::StartElement { attributes, .. }) => {
                     if depth == 1 {
-                        let namespace = attributes[0].value.clone();
-                        let path = attributes[1].value.clone();
-                        s = s.add_content(path, namespace);
+                        if let (Some(path), Some(namespace)) = (
+                            read(&attributes, "PartName"),
+                            read(&attributes, "ContentType"),
+                        ) {
+                            s = s.add_content(path, namespace);
+                        }
                     }
                     depth += 1;
                 }
diff --git a/docx-core/src/reader/attributes/width.rs b/docx-core/src/reader/attributes/width.rs
index 2a01be5..b33f87f 100644
--- a/docx-core/src/reader/attributes/width.rs
+++ b/docx-core/src/reader/attributes/width.rs
@@ -15,7 +15,7 @@ pub fn read_width(attrs: &[OwnedAttribute]) -> Result<(isize, WidthType), Reader
             width_type = WidthType::from_str(&a.value)?;
         } else if local_name == "w" {
             let v = a.value.replace('%', "");
-            w = f64::from_str(&v).expect("should read width.") as isize;
+            w = f64::from_str(&v)? as isize;
         }
     }
     Ok((w, width_type))
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index b49aae4..9a53912 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -8,7 +8,8 @@ impl ElementReader for Comment {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let id = usize::from_str(&read(attrs, "id").expect("should comment id exists."))?;
+        let id = read(attrs, "id").ok_or(ReaderError::XMLReadError)?;
+        let id = usize::from_str(&id)?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
             comment = comment.author(author);
diff --git a/docx-core/src/reader/comment_extended.rs b/docx-core/src/reader/comment_extended.rs
index 02a2ceb..6c81721 100644
--- a/docx-core/src/reader/comment_extended.rs
+++ b/docx-core/src/reader/comment_extended.rs
@@ -7,7 +7,7 @@ impl ElementReader for CommentExtended {
         _r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let para_id = read(attrs, "paraId").expect("should comment id exists.");
+        let para_id = read(attrs, "paraId").ok_or(ReaderError::XMLReadError)?;
         let mut comment_extended = CommentExtended::new(para_id);
         if let Some(done) = read(attrs, "done") {
             if !is_false(&done) {
diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index dfc71f2..d3f1928 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -37,6 +37,7 @@ impl FromXML for CustomProps {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/ignore.rs b/docx-core/src/reader/ignore.rs
index 727addf..4c3b35d 100644
--- a/docx-core/src/reader/ignore.rs
+++ b/docx-core/src/reader/ignore.rs
@@ -7,11 +7,15 @@ pub(crate) fn ignore_element<R: Read>(el: XMLElement, ignore: XMLElement, r: &mu
     if ignore == el {
         loop {
             let e = r.next_event();
-            if let Ok(XmlEvent::EndElement { name, .. }) = e {
-                let e = XMLElement::from_str(&name.local_name).unwrap();
-                if e == ignore {
-                    break;
+            match e {
+                Ok(XmlEvent::EndElement { name, .. }) => {
+                    let e = XMLElement::from_str(&name.local_name).unwrap();
+                    if e == ignore {
+                        break;
+                    }
                 }
+                Err(_) => break,
+                _ => {}
             }
         }
     }
diff --git a/docx-core/src/reader/level.rs b/docx-core/src/reader/level.rs
index 4e2fd38..b891e01 100644
--- a/docx-core/src/reader/level.rs
+++ b/docx-core/src/reader/level.rs
@@ -36,8 +36,7 @@ impl ElementReader for Level {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::ParagraphStyle => {
-                            let id = attributes[0].value.clone();
-                            style_id = Some(id);
+                            style_id = read_val(&attributes);
                         }
                         XMLElement::ParagraphProperty => {
                             if let Ok(pr) = ParagraphProperty::read(r, attrs) {
@@ -52,27 +51,37 @@ impl ElementReader for Level {
                             continue;
                         }
                         XMLElement::Start => {
-                            start = Start::new(usize::from_str(&attributes[0].value)?);
+                            if let Some(val) = read_val(&attributes) {
+                                start = Start::new(usize::from_str(&val)?);
+                            }
                         }
                         XMLElement::NumberFormat => {
-                            num_fmt = NumberFormat::new(attributes[0].value.clone());
+                            if let Some(val) = read_val(&attributes) {
+                                num_fmt = NumberFormat::new(val);
+                            }
                         }
                         XMLElement::Suffix => {
-                            suffix = LevelSuffixType::from_str(&attributes[0].value)?;
+                            if let Some(val) = read_val(&attributes) {
+                                suffix = LevelSuffixType::from_str(&val)?;
+                            }
                         }
                         XMLElement::IsLgl => {
                             is_lgl = Some(IsLgl::new());
                         }
                         XMLElement::LevelText => {
-                            level_text = LevelText::new(attributes[0].value.clone());
+                            if let Some(val) = read_val(&attributes) {
+                                level_text = LevelText::new(val);
+                            }
                         }
                         XMLElement::LevelRestart => {
-                            if let Ok(v) = u32::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) = read_val(&attributes).map(|v| u32::from_str(&v)) {
                                 level_restart = Some(LevelRestart::new(v));
                             }
                         }
                         XMLElement::LevelJustification => {
-                            jc = LevelJc::new(attributes[0].value.clone());
+                            if let Some(val) = read_val(&attributes) {
+                                jc = LevelJc::new(val);
+                            }
                         }
                         XMLElement::Indent => {
                             let i = read_indent(&attributes)?;
diff --git a/docx-core/src/reader/level_override.rs b/docx-core/src/reader/level_override.rs
index 4cfc5eb..c29a902 100644
--- a/docx-core/src/reader/level_override.rs
+++ b/docx-core/src/reader/level_override.rs
@@ -8,7 +8,7 @@ impl ElementReader for LevelOverride {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        if let Ok(level) = usize::from_str(&attrs[0].value) {
+        if let Some(Ok(level)) = read(attrs, "ilvl").map(|v| usize::from_str(&v)) {
             let mut o = LevelOverride::new(level);
             loop {
                 let e = r.next_event();
@@ -19,7 +19,9 @@ impl ElementReader for LevelOverride {
                         let e = XMLElement::from_str(&name.local_name).unwrap();
                         match e {
                             XMLElement::StartOverride => {
-                                if let Ok(val) = usize::from_str(&attributes[0].value) {
+                                if let Some(Ok(val)) =
+                                    read_val(&attributes).map(|v| usize::from_str(&v))
+                                {
                                     o = o.start(val);
                                 }
                                 continue;
diff --git a/docx-core/src/reader/numbering_property.rs b/docx-core/src/reader/numbering_property.rs
index f1678bf..619c3ba 100644
--- a/docx-core/src/reader/numbering_property.rs
+++ b/docx-core/src/reader/numbering_property.rs
@@ -19,11 +19,15 @@ impl ElementReader for NumberingProperty {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::IndentLevel => {
-                            level = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(val) = read_val(&attributes) {
+                                level = Some(usize::from_str(&val)?);
+                            }
                             continue;
                         }
                         XMLElement::NumberingId => {
-                            id = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(val) = read_val(&attributes) {
+                                id = Some(usize::from_str(&val)?);
+                            }
                             continue;
                         }
                         _ => {}
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index 5034add..df28924 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -38,11 +38,14 @@ impl FromXML for Numberings {
                                                 abs_num = abs_num.add_level(l);
                                             }
                                             XMLElement::StyleLink => {
-                                                abs_num = abs_num.style_link(&attributes[0].value)
+                                                if let Some(val) = read_val(&attributes) {
+                                                    abs_num = abs_num.style_link(val)
+                                                }
                                             }
                                             XMLElement::NumStyleLink => {
-                                                abs_num =
-                                                    abs_num.num_style_link(&attributes[0].value)
+                                                if let Some(val) = read_val(&attributes) {
+                                                    abs_num = abs_num.num_style_link(val)
+                                                }
                                             }
                                             _ => {}
                                         }
@@ -54,6 +57,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
@@ -79,7 +83,9 @@ impl FromXML for Numberings {
                                         let e = XMLElement::from_str(&name.local_name).unwrap();
                                         match e {
                                             XMLElement::AbstractNumberingId => {
-                                                abs_num_id = usize::from_str(&attributes[0].value)?
+                                                if let Some(val) = read_val(&attributes) {
+                                                    abs_num_id = usize::from_str(&val)?
+                                                }
                                             }
                                             XMLElement::LvlOverride => {
                                                 if let Ok(o) =
@@ -100,6 +106,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 361450c..1a26613 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -42,14 +42,18 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = AlignmentType::from_str(&attributes[0].value) {
-                                p = p.align(v);
+                            if let Some(val) = read_val(&attributes) {
+                                if let Ok(v) = AlignmentType::from_str(&val) {
+                                    p = p.align(v);
+                                }
                             }
                             continue;
                         }
                         XMLElement::TextAlignment => {
-                            if let Ok(v) = TextAlignmentType::from_str(&attributes[0].value) {
-                                p = p.text_alignment(v);
+                            if let Some(val) = read_val(&attributes) {
+                                if let Ok(v) = TextAlignmentType::from_str(&val) {
+                                    p = p.text_alignment(v);
+                                }
                             }
                             continue;
                         }
@@ -62,7 +66,9 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::ParagraphStyle => {
-                            p = p.style(&attributes[0].value);
+                            if let Some(val) = read_val(&attributes) {
+                                p = p.style(&val);
+                            }
                             continue;
                         }
                         XMLElement::RunProperty => {
diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 8bb9871..73302b9 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -228,7 +228,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             // Extract name attribute (handle both standard and double-quoted patterns)
             let name = if let Some(name_start) = part_xml.find("pkg:name=\"\"") {
                 // Handle double-quoted pattern: pkg:name=""value""
-                let name_start = name_start + 12; // 12 = "pkg:name=\"\"".len()
+                let name_start = name_start + 11; // 11 = "pkg:name=\"\"".len()
                 if let Some(name_end) = part_xml[name_start..].find("\"\"") {
                     decode_html_entities(&part_xml[name_start..name_start + name_end])
                 } else {
@@ -255,7 +255,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             // Extract contentType attribute (handle both standard and double-quoted patterns)
             let content_type = if let Some(type_start) = part_xml.find("pkg:contentType=\"\"") {
                 // Handle double-quoted pattern: pkg:contentType=""value""
-                let type_start = type_start + 19; // 19 = "pkg:contentType=\"\"".len()
+                let type_start = type_start + 18; // 18 = "pkg:contentType=\"\"".len()
                 if let Some(type_end) = part_xml[type_start..].find("\"\"") {
                     decode_html_entities(&part_xml[type_start..type_start + type_end])
                 } else {
@@ -315,8 +315,8 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
 
             start_idx = part_end;
         } else {
-            // No closing tag found, move to next position to avoid infinite loop
-            start_idx = part_start + 1;
+            // No closing tag found, so there is none for later parts either
+            break;
         }
     }
 
diff --git a/docx-core/src/reader/read_zip.rs b/docx-core/src/reader/read_zip.rs
index df37556..b6ca93b 100644
--- a/docx-core/src/reader/read_zip.rs
+++ b/docx-core/src/reader/read_zip.rs
@@ -15,9 +15,11 @@ pub fn read_zip(
         name.trim_start_matches('/')
     };
     let mut xml = archive.by_name(path)?;
-    let capacity = usize::try_from(xml.size()).unwrap_or(0);
+    // The size comes from the archive, do not trust it with large allocations.
+    let capacity = usize::try_from(xml.size()).unwrap_or(0).min(1 << 20);
     let mut data = Vec::with_capacity(capacity);
-    xml.read_to_end(&mut data).unwrap();
+    xml.read_to_end(&mut data)
+        .map_err(zip::result::ZipError::Io)?;
     // Remove BOM
     if data.starts_with(&[0xef, 0xbb, 0xbf]) {
         data.copy_within(3.., 0);
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 187f50d..8ef6fbc 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -107,7 +107,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.ptab(v)
                             }
                         }
-                        XMLElement::Highlight => rp = rp.highlight(attributes[0].value.clone()),
+                        XMLElement::Highlight => {
+                            if let Some(val) = read_val(&attributes) {
+                                rp = rp.highlight(val);
+                            }
+                        }
                         XMLElement::Strike => {
                             if !read_bool(&attributes) {
                                 rp.strike = Some(Strike::new().disable());
@@ -123,13 +127,17 @@ impl ElementReader for RunProperty {
                             rp = rp.dstrike();
                         }
                         XMLElement::VertAlign => {
-                            if let Ok(v) = VertAlignType::from_str(&attributes[0].value) {
-                                rp = rp.vert_align(v)
+                            if let Some(val) = read_val(&attributes) {
+                                if let Ok(v) = VertAlignType::from_str(&val) {
+                                    rp = rp.vert_align(v)
+                                }
                             }
                         }
                         XMLElement::Color => rp = read_color(rp, &attributes),
                         XMLElement::Size => {
-                            rp = rp.size(f64::from_str(&attributes[0].value)? as usize)
+                            if let Some(val) = read_val(&attributes) {
+                                rp = rp.size(f64::from_str(&val)? as usize)
+                            }
                         }
                         XMLElement::Spacing => {
                             if let Some(v) = read_val(&attributes) {
@@ -152,7 +160,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.fonts(f);
                             }
                         }
-                        XMLElement::Underline => rp = rp.underline(attributes[0].value.clone()),
+                        XMLElement::Underline => {
+                            if let Some(val) = read_val(&attributes) {
+                                rp = rp.underline(val);
+                            }
+                        }
                         XMLElement::Italic => {
                             if !read_bool(&attributes) {
                                 rp = rp.disable_italic();
diff --git a/docx-core/src/reader/style.rs b/docx-core/src/reader/style.rs
index 9d611ab..bb9557a 100644
--- a/docx-core/src/reader/style.rs
+++ b/docx-core/src/reader/style.rs
@@ -30,7 +30,9 @@ impl ElementReader for Style {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::Name => {
-                            style = style.name(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                style = style.name(v);
+                            }
                             continue;
                         }
                         XMLElement::BasedOn => {
diff --git a/docx-core/src/reader/table.rs b/docx-core/src/reader/table.rs
index 5c0e511..2a32f5d 100644
--- a/docx-core/src/reader/table.rs
+++ b/docx-core/src/reader/table.rs
@@ -35,7 +35,9 @@ impl ElementReader for Table {
                             }
                         }
                         XMLElement::Justification => {
-                            t = t.align(TableAlignmentType::from_str(&attributes[0].value)?);
+                            if let Some(val) = read_val(&attributes) {
+                                t = t.align(TableAlignmentType::from_str(&val)?);
+                            }
                         }
                         XMLElement::TableIndent => {
                             let (w, _) = read_width(&attributes)?;
diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index aeca707..3dc1b6e 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -37,8 +37,10 @@ impl ElementReader for TableProperty {
                             }
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = TableAlignmentType::from_str(&attributes[0].value) {
-                                tp = tp.align(v);
+                            if let Some(val) = read_val(&attributes) {
+                                if let Ok(v) = TableAlignmentType::from_str(&val) {
+                                    tp = tp.align(v);
+                                }
                             }
                         }
                         XMLElement::TableIndent => {
diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 8ef0eda..b9e6a2c 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -81,8 +81,14 @@ impl<R: Read> EventReader<R> {
         }
     }
 
+    /// Reads one event, and fails once the input has ended or was erroneous.
     pub fn next_event(&mut self) -> Result<XmlEvent, quick_xml::Error> {
-        self.read_next()
+        if self.finished {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
+        let event = self.read_next();
+        self.finished = matches!(event, Ok(XmlEvent::EndDocument) | Err(_));
+        event
     }
 
     fn read_next(&mut self) -> Result<XmlEvent, quick_xml::Error> {
@@ -123,10 +129,7 @@ impl<R: Read> EventReader<R> {
                     let decoded = self.reader.decoder().decode(text.as_ref())?.into_owned();
                     return Ok(XmlEvent::Characters(decoded));
                 }
-                Event::Eof => {
-                    self.finished = true;
-                    return Ok(XmlEvent::EndDocument);
-                }
+                Event::Eof => return Ok(XmlEvent::EndDocument),
                 Event::Decl(_) | Event::PI(_) | Event::Comment(_) | Event::DocType(_) => {
                     // Skip non-structural events
                 }
@@ -216,17 +219,7 @@ impl<R: Read> Iterator for EventReader<R> {
         if self.finished {
             return None;
         }
-        match self.read_next() {
-            Ok(XmlEvent::EndDocument) => {
-                self.finished = true;
-                Some(Ok(XmlEvent::EndDocument))
-            }
-            Ok(event) => Some(Ok(event)),
-            Err(e) => {
-                self.finished = true;
-                Some(Err(e))
-            }
-        }
+        Some(self.next_event())
     }
 }
 
-- 
2.43.0


From c3ec5a14aaf5095a6d5b83b05d10ed67349cf80c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Sun, 15 Nov 2026 18:57:18 +0000
Subject: [PATCH 16/36] fix: keep every hyperlink and run id when reading

---
 docx-core/src/reader/hyperlink.rs | 2 +-
 docx-core/src/reader/read_xml.rs  | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/hyperlink.rs b/docx-core/src/reader/hyperlink.rs
index 800745b..840ea6f 100644
--- a/docx-core/src/reader/hyperlink.rs
+++ b/docx-core/src/reader/hyperlink.rs
@@ -38,7 +38,7 @@ impl ElementReader for Hyperlink {
 
                     match e {
                         XMLElement::Run => {
-                            if let Ok(run) = Run::read(r, attrs) {
+                            if let Ok(run) = Run::read(r, &attributes) {
                                 link = link.add_run(run);
                             }
                             continue;
diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 73302b9..fb84620 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -630,9 +630,11 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
     }
 
     // Read and add hyperlinks - simplified for XML packages
-    if let Some((id, _, target)) = document_rels.find_target(HYPERLINK_TYPE) {
-        // For XML packages, we'll add the hyperlink with a default mode
-        docx = docx.add_hyperlink(id, target, "External".to_string());
+    for (rel_type, id, target) in &document_rels.rels {
+        if rel_type == HYPERLINK_TYPE {
+            // For XML packages, we'll add the hyperlink with a default mode
+            docx = docx.add_hyperlink(id, target, "External".to_string());
+        }
     }
 
     Ok(docx)
-- 
2.43.0


From a9e05ed4c377514f2c8b518c57ac8122392eb316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:07:08 +0000
Subject: [PATCH 17/36] fix: keep tables when reading comments

---
 docx-core/src/reader/comment.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index 9a53912..c97b0bb 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -25,9 +25,16 @@ impl ElementReader for Comment {
                 }) => {
                     let e = XMLElement::from_str(&name.local_name)
                         .expect("should convert to XMLElement");
-                    if let XMLElement::Paragraph = e {
-                        let p = Paragraph::read(r, &attributes)?;
-                        comment = comment.add_paragraph(p);
+                    match e {
+                        XMLElement::Paragraph => {
+                            let p = Paragraph::read(r, &attributes)?;
+                            comment = comment.add_paragraph(p);
+                        }
+                        XMLElement::Table => {
+                            let t = Table::read(r, &attributes)?;
+                            comment = comment.add_table(t);
+                        }
+                        _ => {}
                     }
                 }
                 Ok(XmlEvent::EndElement { name, .. }) => {
-- 
2.43.0


From 26be5b9ab996b5b32b7ff9d7b473a891df63677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:07:25 +0000
Subject: [PATCH 18/36] fix: read custom property values that are empty or
 blank

---
 docx-core/src/reader/custom_properties.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index d3f1928..0c28a33 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -24,10 +24,8 @@ impl FromXML for CustomProps {
                                         if let Ok(VtXMLElement::Lpwstr) =
                                             VtXMLElement::from_str(&name.local_name)
                                         {
-                                            let e = r.next_event();
-                                            if let Ok(XmlEvent::Characters(c)) = e {
-                                                props = props.add_custom_property(&key, c)
-                                            }
+                                            let value = read_value(&mut r)?;
+                                            props = props.add_custom_property(&key, value)
                                         }
                                     }
                                     Ok(XmlEvent::EndElement { name, .. }) => {
@@ -53,3 +51,16 @@ impl FromXML for CustomProps {
         }
     }
 }
+
+/// Reads the text of a value, which may be empty, up to its end.
+fn read_value<R: Read>(r: &mut EventReader<R>) -> Result<String, ReaderError> {
+    let mut value = String::new();
+    loop {
+        match r.next_event() {
+            Ok(XmlEvent::Characters(c)) | Ok(XmlEvent::Whitespace(c)) => value.push_str(&c),
+            Ok(XmlEvent::EndElement { .. }) => return Ok(value),
+            Ok(_) => {}
+            Err(_) => return Err(ReaderError::XMLReadError),
+        }
+    }
+}
-- 
2.43.0


From e40f0e0ff3cb643fe89badf8cf10128dcc8108e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:07:25 +0000
Subject: [PATCH 19/36] fix: write custom properties in a fixed order

---
 docx-core/src/documents/doc_props/custom.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/doc_props/custom.rs b/docx-core/src/documents/doc_props/custom.rs
index c6e45a8..4138bee 100644
--- a/docx-core/src/documents/doc_props/custom.rs
+++ b/docx-core/src/documents/doc_props/custom.rs
@@ -27,13 +27,17 @@ impl BuildXML for CustomProps {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // The same properties are always written in the same order.
+        let mut properties: Vec<_> = self.properties.iter().collect();
+        properties.sort();
+
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_custom_properties(
                 "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties",
                 "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes",
             )?
-            .apply_each(self.properties.iter().enumerate(), |(i, (key, item)), b| {
+            .apply_each(properties.into_iter().enumerate(), |(i, (key, item)), b| {
                 b.open_property(
                     "{D5CDD505-2E9C-101B-9397-08002B2CF9AE}",
                     // I can not find spec about this id.
-- 
2.43.0


From 53e5bdcd625dc2afe0fa233e29e637ae62cea03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:45 +0000
Subject: [PATCH 20/36] fix: read nested content controls as nested

---
 docx-core/src/reader/structured_data_tag.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/docx-core/src/reader/structured_data_tag.rs b/docx-core/src/reader/structured_data_tag.rs
index b97e008..4999bdb 100644
--- a/docx-core/src/reader/structured_data_tag.rs
+++ b/docx-core/src/reader/structured_data_tag.rs
@@ -34,6 +34,13 @@ impl ElementReader for StructuredDataTag {
                             }
                             continue;
                         }
+                        XMLElement::StructuredDataTag => {
+                            if let Ok(tag) = StructuredDataTag::read(r, &attributes) {
+                                sdt.children
+                                    .push(StructuredDataTagChild::StructuredDataTag(Box::new(tag)));
+                            }
+                            continue;
+                        }
                         XMLElement::BookmarkStart => {
                             if let Ok(s) = BookmarkStart::read(r, &attributes) {
                                 sdt.children.push(StructuredDataTagChild::BookmarkStart(s));
-- 
2.43.0


From 7f665d5c220304d7776c77696ceea43bb93cef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:41:31 +0000
Subject: [PATCH 21/36] fix: write the style links of abstract numbering
 definitions

---
 docx-core/src/documents/elements/abstract_numbering.rs | 6 ++++++
 docx-core/src/xml_builder/elements.rs                  | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/docx-core/src/documents/elements/abstract_numbering.rs b/docx-core/src/documents/elements/abstract_numbering.rs
index 9794f9c..0ad1a19 100644
--- a/docx-core/src/documents/elements/abstract_numbering.rs
+++ b/docx-core/src/documents/elements/abstract_numbering.rs
@@ -53,6 +53,12 @@ impl BuildXML for AbstractNumbering {
         if let Some(ref multi_level_type) = self.multi_level_type {
             builder = builder.multi_level_type(multi_level_type)?;
         }
+        if let Some(ref link) = self.style_link {
+            builder = builder.style_link(link)?;
+        }
+        if let Some(ref link) = self.num_style_link {
+            builder = builder.num_style_link(link)?;
+        }
 
         builder.add_children(&self.levels)?.close()?.into_inner()
     }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index f1aed6d..8ffbe2c 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -469,6 +469,8 @@ impl<W: Write> XMLBuilder<W> {
     );
 
     closed_with_str!(multi_level_type, "w:multiLevelType");
+    closed_with_str!(style_link, "w:styleLink");
+    closed_with_str!(num_style_link, "w:numStyleLink");
 
     open!(open_abstract_num, "w:abstractNum", "w:abstractNumId");
     open!(open_level, "w:lvl", "w:ilvl");
-- 
2.43.0


From 48991d5e0e6216aaa8b0a45f16f08373a12b1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:33:01 +0000
Subject: [PATCH 22/36] fix: keep run formatting when adding a footnote
 reference

---
 docx-core/src/documents/elements/run.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/run.rs b/docx-core/src/documents/elements/run.rs
index cebf03a..992917d 100644
--- a/docx-core/src/documents/elements/run.rs
+++ b/docx-core/src/documents/elements/run.rs
@@ -364,7 +364,7 @@ impl Run {
     }
 
     pub fn add_footnote_reference(mut self, footnote: Footnote) -> Run {
-        self.run_property = RunProperty::new().style("FootnoteReference");
+        self.run_property = self.run_property.style("FootnoteReference");
         self.children
             .push(RunChild::FootnoteReference(footnote.into()));
         self
-- 
2.43.0


From 5d735b3028f22115d8d2f360420df66c640398cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:33:01 +0000
Subject: [PATCH 23/36] fix: keep the page orientation when the page size is
 set

---
 docx-core/src/documents/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index d1bcdc5..0ebd769 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -641,7 +641,8 @@ impl Docx {
     }
 
     pub fn page_size(mut self, w: u32, h: u32) -> Self {
-        self.document = self.document.page_size(PageSize::new().size(w, h));
+        let size = self.document.section_property.page_size.clone();
+        self.document = self.document.page_size(size.size(w, h));
         self
     }
 
-- 
2.43.0


From c654c0d1eafd2f197992f30082e250672ff84226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:33:01 +0000
Subject: [PATCH 24/36] fix: apply character-based indents when no indent was
 set before

---
 docx-core/src/documents/elements/paragraph_property.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/elements/paragraph_property.rs b/docx-core/src/documents/elements/paragraph_property.rs
index 29dfdca..d8ad64f 100644
--- a/docx-core/src/documents/elements/paragraph_property.rs
+++ b/docx-core/src/documents/elements/paragraph_property.rs
@@ -185,16 +185,14 @@ impl ParagraphProperty {
     }
 
     pub(crate) fn hanging_chars(mut self, chars: i32) -> Self {
-        if let Some(indent) = self.indent {
-            self.indent = Some(indent.hanging_chars(chars));
-        }
+        let indent = self.indent.unwrap_or_else(|| Indent::new(None, None, None, None));
+        self.indent = Some(indent.hanging_chars(chars));
         self
     }
 
     pub(crate) fn first_line_chars(mut self, chars: i32) -> Self {
-        if let Some(indent) = self.indent {
-            self.indent = Some(indent.first_line_chars(chars));
-        }
+        let indent = self.indent.unwrap_or_else(|| Indent::new(None, None, None, None));
+        self.indent = Some(indent.first_line_chars(chars));
         self
     }
 
-- 
2.43.0


From fa9bce566cd4f39a619a026862f1479a404af75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:07:59 +0000
Subject: [PATCH 25/36] fix: keep spaces inside quoted values of
 table-of-contents instructions

---
 docx-core/src/documents/elements/instr_toc.rs | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index 22babeb..97513e8 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -280,11 +280,32 @@ fn parse_level_range(i: &str) -> Option<(usize, usize)> {
     None
 }
 
+/// Splits an instruction at the spaces outside of quotation marks.
+fn split_instr(instr: &str) -> Vec<String> {
+    let mut tokens = vec![];
+    let mut token = String::new();
+    let mut quoted = false;
+    for c in instr.replace("&quot;", "\"").chars() {
+        if c == '"' {
+            quoted = !quoted;
+        }
+        if c == ' ' && !quoted {
+            tokens.push(token);
+            token = String::new();
+        } else {
+            token.push(c);
+        }
+    }
+    tokens.push(token);
+    tokens
+}
+
 impl std::str::FromStr for InstrToC {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ').peekable();
+        let tokens = split_instr(instr);
+        let mut s = tokens.iter().map(String::as_str).peekable();
         let mut toc = InstrToC::new();
         loop {
             if let Some(i) = s.next() {
-- 
2.43.0


From 308aab5ad1d462c52d94a511badae2d7237dd7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:07:59 +0000
Subject: [PATCH 26/36] fix: recognise the table-of-contents identifier switch
 at the end of an instruction

---
 docx-core/src/documents/elements/instr_toc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index 97513e8..937f307 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -348,6 +348,8 @@ impl std::str::FromStr for InstrToC {
                             } else {
                                 toc = toc.tc_field_identifier(None);
                             }
+                        } else {
+                            toc = toc.tc_field_identifier(None);
                         }
                     }
                     "\\h" => toc = toc.hyperlink(),
-- 
2.43.0


From 08dda779c396ababe5a7e3467496109d9cde1190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:56:59 +0000
Subject: [PATCH 27/36] fix: parse custom XML siblings in a loop

Each sibling element nested one more call, so an item with a few thousand
elements overflowed the stack.
---
 docx-core/src/xml_json/mod.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index 98baf6f..b25cc4b 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -102,12 +102,12 @@ fn map_owned_attributes(attrs: Vec<OwnedAttribute>) -> Vec<(String, String)> {
 
 fn parse(
     mut data: Vec<XmlEvent>,
-    current: Option<XmlData>,
+    mut current: Option<XmlData>,
     mut current_vec: Vec<XmlData>,
     trim: bool,
-    current_namespace: Namespace,
+    mut current_namespace: Namespace,
 ) -> Result<(Vec<XmlData>, Vec<XmlEvent>), String> {
-    if let Some(elmt) = data.pop() {
+    while let Some(elmt) = data.pop() {
         match elmt {
             XmlEvent::StartElement {
                 name,
@@ -159,21 +159,20 @@ fn parse(
 
                 let (inner, rest) = parse(data, Some(inner), Vec::new(), trim, namespace.clone())?;
 
-                if let Some(mut crnt) = current {
+                data = rest;
+                current_namespace = namespace;
+                if let Some(ref mut crnt) = current {
                     crnt.children.extend(inner);
-                    parse(rest, Some(crnt), current_vec, trim, namespace)
                 } else {
                     current_vec.extend(inner);
-                    parse(rest, None, current_vec, trim, namespace)
                 }
             }
             XmlEvent::Characters(chr) => {
                 let chr = if trim { chr.trim().to_string() } else { chr };
-                if let Some(mut crnt) = current {
+                if let Some(ref mut crnt) = current {
                     crnt.data = Some(chr);
-                    parse(data, Some(crnt), current_vec, trim, current_namespace)
                 } else {
-                    Err("Invalid form of XML doc".to_string())
+                    return Err("Invalid form of XML doc".to_string());
                 }
             }
             XmlEvent::EndElement { name } => {
@@ -184,7 +183,7 @@ fn parse(
                     Some(prefix) => prefix.clone(),
                     None => name.local_name.clone(),
                 };
-                if let Some(crnt) = current {
+                return if let Some(crnt) = current {
                     if crnt.name == fmt_name {
                         current_vec.push(crnt);
                         Ok((current_vec, data))
@@ -196,11 +195,12 @@ fn parse(
                     }
                 } else {
                     Err(format!("Invalid end tag: {}", name.local_name))
-                }
+                };
             }
-            _ => parse(data, current, current_vec, trim, current_namespace),
+            _ => {}
         }
-    } else if let Some(_current) = current {
+    }
+    if let Some(_current) = current {
         Err("Invalid end tag".to_string())
     } else {
         Ok((current_vec, Vec::new()))
-- 
2.43.0


From acd5cbdd005de8d131ed041dc539d4d33c3ad45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:56:59 +0000
Subject: [PATCH 28/36] fix: keep all text of a custom XML element

A comment or CDATA section splits text into several events, and each one
replaced the text before it.
---
 docx-core/src/xml_json/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index b25cc4b..3c413b7 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -168,13 +168,24 @@ fn parse(
                 }
             }
             XmlEvent::Characters(chr) => {
-                let chr = if trim { chr.trim().to_string() } else { chr };
                 if let Some(ref mut crnt) = current {
-                    crnt.data = Some(chr);
+                    if let Some(ref mut text) = crnt.data {
+                        text.push_str(&chr);
+                    } else {
+                        crnt.data = Some(chr);
+                    }
                 } else {
                     return Err("Invalid form of XML doc".to_string());
                 }
             }
+            XmlEvent::Whitespace(space) => {
+                if let Some(XmlData {
+                    data: Some(text), ..
+                }) = &mut current
+                {
+                    text.push_str(&space);
+                }
+            }
             XmlEvent::EndElement { name } => {
                 let fmt_name = match &name.prefix {
                     Some(prefix) if !name.local_name.is_empty() => {
@@ -183,8 +194,11 @@ fn parse(
                     Some(prefix) => prefix.clone(),
                     None => name.local_name.clone(),
                 };
-                return if let Some(crnt) = current {
+                return if let Some(mut crnt) = current {
                     if crnt.name == fmt_name {
+                        if trim {
+                            crnt.data = crnt.data.map(|text| text.trim().to_string());
+                        }
                         current_vec.push(crnt);
                         Ok((current_vec, data))
                     } else {
-- 
2.43.0


From a9eca6193790b861c51995f8a6af33b4a32ab31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:56:59 +0000
Subject: [PATCH 29/36] fix: report malformed custom XML as an error

Parsing a custom XML item that is not well formed panicked.
---
 docx-core/src/xml_json/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index 3c413b7..ef1e376 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -227,7 +227,10 @@ impl XmlDocument {
         R: Read,
     {
         let parser = EventReader::new(source);
-        let mut events: Vec<XmlEvent> = parser.into_iter().map(|x| x.unwrap()).collect();
+        let mut events: Vec<XmlEvent> = parser
+            .into_iter()
+            .collect::<Result<_, _>>()
+            .map_err(|e| ParseXmlError(e.to_string()))?;
         events.reverse();
 
         parse(events, None, Vec::new(), trim, Namespace::empty())
-- 
2.43.0


From 80372a530e3c8dd5d23c6c633240e359e4a47fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:11:33 +0000
Subject: [PATCH 30/36] fix: refuse to read XML nested more than 256 elements
 deep

Elements are read recursively, so a document with deeply nested tables or
content controls overflowed the stack and aborted the process.
---
 docx-core/src/reader/xml_parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index b9e6a2c..0d33127 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -57,10 +57,14 @@ pub enum XmlEvent {
     EndDocument,
 }
 
+/// Elements are read recursively, so deeper nesting could exhaust the stack.
+const MAX_DEPTH: usize = 256;
+
 pub struct EventReader<R: Read> {
     reader: Reader<BufReader<R>>,
     buf: Vec<u8>,
     pending: VecDeque<XmlEvent>,
+    depth: usize,
     finished: bool,
 }
 
@@ -77,6 +81,7 @@ impl<R: Read> EventReader<R> {
             reader,
             buf: Vec::new(),
             pending: VecDeque::new(),
+            depth: 0,
             finished: false,
         }
     }
@@ -86,7 +91,15 @@ impl<R: Read> EventReader<R> {
         if self.finished {
             return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
         }
-        let event = self.read_next();
+        let mut event = self.read_next();
+        match event {
+            Ok(XmlEvent::StartElement { .. }) => self.depth += 1,
+            Ok(XmlEvent::EndElement { .. }) => self.depth = self.depth.saturating_sub(1),
+            _ => {}
+        }
+        if self.depth > MAX_DEPTH {
+            event = Err(std::io::Error::other("elements are nested too deeply").into());
+        }
         self.finished = matches!(event, Ok(XmlEvent::EndDocument) | Err(_));
         event
     }
-- 
2.43.0


From 154accb4dffcd42e1b11a3d932f02fd86a6cfc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:12:58 +0000
Subject: [PATCH 31/36] fix: read lengths in points without overflow

A length such as 999999999pt overflowed when it was converted to twentieths
of a point.
---
 docx-core/src/reader/attributes/val.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/reader/attributes/val.rs b/docx-core/src/reader/attributes/val.rs
index 0f8dc21..16ce58c 100644
--- a/docx-core/src/reader/attributes/val.rs
+++ b/docx-core/src/reader/attributes/val.rs
@@ -17,7 +17,7 @@ pub fn read_val(attrs: &[OwnedAttribute]) -> Option<String> {
 pub fn value_to_dax(v: &str) -> Result<i32, ReaderError> {
     if v.ends_with("pt") {
         let v = f64::from_str(&v.replace("pt", ""))? as i32;
-        Ok(v * 20)
+        Ok(v.saturating_mul(20))
     } else {
         Ok(f64::from_str(v)? as i32)
     }
-- 
2.43.0


From 2bb57ff5eed3133557b9408d0981b444fa097f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:45 +0000
Subject: [PATCH 32/36] fix: write the frame spacing attributes under their
 standard names

---
 docx-core/src/xml_builder/elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 8ffbe2c..63e094e 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -649,10 +649,10 @@ impl<W: Write> XMLBuilder<W> {
             w = w.attr_display("w:y", y);
         }
         if let Some(h_space) = prop.h_space {
-            w = w.attr_display("w:h_space", h_space);
+            w = w.attr_display("w:hSpace", h_space);
         }
         if let Some(v_space) = prop.v_space {
-            w = w.attr_display("w:v_space", v_space);
+            w = w.attr_display("w:vSpace", v_space);
         }
         if let Some(width) = prop.w {
             w = w.attr_display("w:w", width);
-- 
2.43.0


From 4db49614c92ef7ee08d57309215dc5d3f24fc03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:45 +0000
Subject: [PATCH 33/36] fix: keep the spacing of text borders when reading

---
 docx-core/src/reader/run_property.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 8ef6fbc..b8e341b 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -187,6 +187,9 @@ impl ElementReader for RunProperty {
                                 if let Some(size) = attr.size {
                                     border = border.size(size as usize);
                                 };
+                                if let Some(space) = attr.space {
+                                    border = border.space(space as usize);
+                                };
                                 rp = rp.text_border(border);
                                 continue;
                             }
-- 
2.43.0


From b5fa6787fb95555711c655f23caa22b5b272d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:45 +0000
Subject: [PATCH 34/36] fix: write the Normal style once

---
 docx-core/src/documents/styles.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/styles.rs b/docx-core/src/documents/styles.rs
index 2eaa748..4708620 100644
--- a/docx-core/src/documents/styles.rs
+++ b/docx-core/src/documents/styles.rs
@@ -81,11 +81,13 @@ impl BuildXML for Styles {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        let normal = Style::new("Normal", StyleType::Paragraph).name("Normal");
+        // The default style gives way to one with the same id.
+        let normal = (!self.styles.iter().any(|s| s.style_id == "Normal"))
+            .then(|| Style::new("Normal", StyleType::Paragraph).name("Normal"));
         XMLBuilder::from(stream)
             .open_styles()?
             .add_child(&self.doc_defaults)?
-            .add_child(&normal)?
+            .add_optional_child(&normal)?
             .add_children(&self.styles)?
             .close()?
             .into_inner()
-- 
2.43.0


From 35ad1261c8c0f3f187bd0012ef86f658f58fc476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:46 +0000
Subject: [PATCH 35/36] fix: keep the targets of hyperlinks in headers and
 footers when reading

---
 docx-core/src/documents/mod.rs                |  2 +-
 docx-core/src/reader/header_or_footer_rels.rs | 18 ++++++++++++++++++
 docx-core/src/reader/read_docx.rs             | 11 ++++++++---
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 0ebd769..b2a4501 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -14,7 +14,7 @@ mod custom_item_rels;
 mod doc_props;
 mod document;
 mod document_rels;
-mod document_tree;
+pub(crate) mod document_tree;
 mod elements;
 mod font_table;
 mod footer;
diff --git a/docx-core/src/reader/header_or_footer_rels.rs b/docx-core/src/reader/header_or_footer_rels.rs
index 1c2dc31..2eb636a 100644
--- a/docx-core/src/reader/header_or_footer_rels.rs
+++ b/docx-core/src/reader/header_or_footer_rels.rs
@@ -8,7 +8,10 @@ use header_or_footer_rels::rels::find_rels_filename;
 use self::rels::read_rels_xml;
 
 use super::errors::*;
+use super::namespace::HYPERLINK_TYPE;
 use super::*;
+use crate::documents::document_tree::DocumentTreeVisitor;
+use crate::escape::escape_owned;
 
 pub type RId = String;
 
@@ -33,6 +36,21 @@ impl ReadHeaderOrFooterRels {
     }
 }
 
+/// Gives hyperlinks that were read the targets they have in the part's relationships.
+pub(crate) struct LinkTargets<'a>(pub &'a ReadHeaderOrFooterRels);
+
+impl DocumentTreeVisitor for LinkTargets<'_> {
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        let HyperlinkData::External { rid, path } = &mut link.link else {
+            return;
+        };
+        let mut links = self.0.target_paths(HYPERLINK_TYPE).into_iter().flatten();
+        if let Some((_, target, _)) = links.find(|(id, ..)| id == rid) {
+            *path = escape_owned(target.to_string_lossy().into_owned());
+        }
+    }
+}
+
 pub fn read_header_or_footer_rels(
     archive: &mut zip::read::ZipArchive<Cursor<&[u8]>>,
     header_or_footer_path: impl AsRef<Path>,
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 24ef048..f8318cc 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -1,6 +1,9 @@
-use super::header_or_footer_rels::{read_header_or_footer_rels, ReadHeaderOrFooterRels};
+use super::header_or_footer_rels::{
+    read_header_or_footer_rels, LinkTargets, ReadHeaderOrFooterRels,
+};
 use super::namespace::*;
 use super::*;
+use crate::documents::document_tree::{visit_footer, visit_header};
 
 use zip::ZipArchive;
 
@@ -15,8 +18,9 @@ fn read_headers(
         .filter_map(|(rid, path, ..)| {
             let data = read_zip(archive, path.to_str().expect("should have header path."));
             if let Ok(d) = data {
-                if let Ok(h) = Header::from_xml(&d[..]) {
+                if let Ok(mut h) = Header::from_xml(&d[..]) {
                     let rels = read_header_or_footer_rels(archive, path).unwrap_or_default();
+                    visit_header(&mut h, &mut LinkTargets(&rels));
                     return Some((rid.clone(), (h, rels)));
                 }
             }
@@ -37,8 +41,9 @@ fn read_footers(
         .filter_map(|(rid, path, ..)| {
             let data = read_zip(archive, path.to_str().expect("should have footer path."));
             if let Ok(d) = data {
-                if let Ok(h) = Footer::from_xml(&d[..]) {
+                if let Ok(mut h) = Footer::from_xml(&d[..]) {
                     let rels = read_header_or_footer_rels(archive, path).unwrap_or_default();
+                    visit_footer(&mut h, &mut LinkTargets(&rels));
                     return Some((rid.clone(), (h, rels)));
                 }
             }
-- 
2.43.0


From eb19b5598e7a2d85f6547505975949802f041ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:23 +0000
Subject: [PATCH 36/36] fix: read the reference of a positional tab from its
 own attribute

---
 docx-core/src/reader/positional_tab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/reader/positional_tab.rs b/docx-core/src/reader/positional_tab.rs
index 9f9cf1e..a66831e 100644
--- a/docx-core/src/reader/positional_tab.rs
+++ b/docx-core/src/reader/positional_tab.rs
@@ -36,7 +36,7 @@ fn read_alignment(
 fn read_relative_to(attributes: &[OwnedAttribute]) -> Result<PositionalTabRelativeTo, ReaderError> {
     for a in attributes {
         let local_name = &a.name.local_name;
-        if local_name == "alignment" {
+        if local_name == "relativeTo" {
             let v = a.value.to_owned();
             if let Ok(t) = PositionalTabRelativeTo::from_str(&v) {
                 return Ok(t);
-- 
2.43.0

