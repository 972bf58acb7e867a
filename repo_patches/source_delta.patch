From 73fa09cb03e31f3c8a278cbc66c33164a5dacd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 01/12] fix: count error columns in characters, so describing
 an error on a long non-ASCII line cannot panic

---
 src/parser/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/error.rs b/src/parser/error.rs
index 74bce1d..e8e1846 100644
--- a/src/parser/error.rs
+++ b/src/parser/error.rs
@@ -98,7 +98,7 @@ impl<'a> LocatedLine<'a> {
 
         let line_start_offset = input_before.rfind('\n').map(|n| n + 1).unwrap_or(0);
         let line_number = input_before.split('\n').count();
-        let column_number = offset - line_start_offset + 1;
+        let column_number = input_before[line_start_offset..].chars().count() + 1;
 
         LocatedLine {
             line: input[line_start_offset..].lines().next().unwrap_or(""),
-- 
2.43.0


From 821293a8ec8e130c0b3ba69268165eb417cbb78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:49 +0000
Subject: [PATCH 02/12] fix: report unsupported events following an end tag
 instead of panicking

---
 src/de/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 387547e..1de5529 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -769,9 +769,12 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
                     }
                     continue;
                 }
-                SgmlEvent::ProcessingInstruction(_)
+                // Not rejected earlier when immediately following an end tag
+                event @ (SgmlEvent::ProcessingInstruction(_)
                 | SgmlEvent::MarkupDeclaration { .. }
-                | SgmlEvent::MarkedSection { .. } => unreachable!(),
+                | SgmlEvent::MarkedSection { .. }) => Err(DeserializationError::Unsupported(
+                    event.clone().into_owned(),
+                )),
             };
         }
     }
-- 
2.43.0


From 9505b9cc2c301c0f17bd817e570f525c0ec68af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 03/12] fix: do not silently drop the unparsed remainder of an
 expanded INCLUDE section

---
 src/parser/events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 029db1f..d01c0c1 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -175,7 +175,7 @@ where
                     |input| content(input, config, MarkedSectionEndHandling::StopParsing),
                     EventIter::from_iter,
                 ),
-                raw::marked_section_body_character_data,
+                raw::marked_section_end,
             )(input),
         },
     }
-- 
2.43.0


From 0cb24f1816e7968cfd0af2eae7c56c1b2569fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 04/12] fix: normalize the case of titlecase letters in names
 too

---
 src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 15e0f87..a82e57f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -158,10 +158,15 @@ impl Default for NameNormalization {
 impl NameNormalization {
     pub fn normalize<'a>(&self, name: Cow<'a, str>) -> Cow<'a, str> {
         match self {
-            NameNormalization::ToLowercase if name.chars().any(char::is_uppercase) => {
+            // Titlecase letters (e.g. `ǅ`) are neither uppercase nor lowercase
+            NameNormalization::ToLowercase
+                if name.chars().any(|c| c.to_lowercase().ne(Some(c))) =>
+            {
                 name.to_lowercase().into()
             }
-            NameNormalization::ToUppercase if name.chars().any(char::is_lowercase) => {
+            NameNormalization::ToUppercase
+                if name.chars().any(|c| c.to_uppercase().ne(Some(c))) =>
+            {
                 name.to_uppercase().into()
             }
             _ => name,
-- 
2.43.0


From c972ad4bda35ab0bea1e0036ac65750705f6ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:17 +0000
Subject: [PATCH 05/12] fix: treat the empty comment declaration (<!>) as a
 comment in text

---
 src/parser/raw.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index 31c6ece..fb24df8 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -182,6 +182,7 @@ where
                 not(alt((
                     tag("?"),
                     tag("!-"),
+                    tag("!>"),
                     tag("!["),
                     preceded(tag("!"), name_start),
                     // Minimally matching start/end tags: "<>", "</>", "<x", or "</x"
-- 
2.43.0


From 40897c6cce27110d66af31aabf952e1bdf6640af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:30 +0000
Subject: [PATCH 06/12] fix: accept empty INCLUDE sections and comments at
 their start

---
 src/parser/events.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index d01c0c1..0b7b5f8 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -5,10 +5,10 @@ use std::iter::{FromIterator, FusedIterator};
 use std::{fmt, mem};
 
 use nom::branch::alt;
-use nom::combinator::{all_consuming, cut, map, recognize, value};
+use nom::combinator::{all_consuming, cut, map, opt, recognize, value};
 use nom::error::{context, ContextError, ErrorKind, FromExternalError, ParseError};
 use nom::multi::{many0, many0_count, many1};
-use nom::sequence::{terminated, tuple};
+use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
 
 use crate::marked_sections::MarkedSectionStatus;
@@ -140,9 +140,7 @@ where
                 MarkedSectionStatus::CData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::RcData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::Include => terminated(
-                    recognize(|input| {
-                        content(input, config, MarkedSectionEndHandling::StopParsing)
-                    }),
+                    recognize(|input| marked_section_body_include(input, config)),
                     raw::marked_section_end,
                 )(input),
             }?;
@@ -171,16 +169,31 @@ where
                 ))
             }
             MarkedSectionStatus::Include => terminated(
-                map(
-                    |input| content(input, config, MarkedSectionEndHandling::StopParsing),
-                    EventIter::from_iter,
-                ),
+                |input| marked_section_body_include(input, config),
                 raw::marked_section_end,
             )(input),
         },
     }
 }
 
+/// Matches the content of an `INCLUDE` marked section, which may be empty
+/// or start with comments.
+fn marked_section_body_include<'a, E>(
+    input: &'a str,
+    config: &ParserConfig,
+) -> IResult<&'a str, EventIter<'a>, E>
+where
+    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
+{
+    map(
+        preceded(
+            many0_count(comment_declaration),
+            opt(|input| content(input, config, MarkedSectionEndHandling::StopParsing)),
+        ),
+        |items| items.into_iter().flatten().collect(),
+    )(input)
+}
+
 pub fn processing_instruction<'a, E>(
     input: &'a str,
     config: &ParserConfig,
-- 
2.43.0


From e2e623e523381ac7bcc2aeded78c3ce2760df55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 07/12] fix: let an XML-style empty element end where it closes
 when read as text

---
 src/de/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 1de5529..46c61ff 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -302,7 +302,7 @@ impl<'de> SgmlDeserializer<'de> {
                 SgmlEvent::OpenStartTag { .. } => {
                     self.push_elt()?;
                 }
-                SgmlEvent::EndTag { .. } => {
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => {
                     self.pop_elt()?;
                     if self.stack.len() == starting_stack_size {
                         break;
-- 
2.43.0


From fd23ef9b21b7b7e04b7dc3297bd4047a2d8448ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 08/12] fix: refuse empty start tags following an end tag when
 deserializing too

---
 src/de/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 46c61ff..26b8f82 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -215,6 +215,12 @@ impl<'de> SgmlDeserializer<'de> {
     /// Consumes the current event, asserting it is an open tag, and pushes it to the stack.
     fn push_elt(&mut self) -> Result<&str, DeserializationError> {
         let stag = match self.events.next() {
+            // Not rejected earlier when immediately following an end tag
+            Some(SgmlEvent::OpenStartTag { name }) if name.is_empty() => {
+                return Err(DeserializationError::Unsupported(SgmlEvent::OpenStartTag {
+                    name: "".into(),
+                }));
+            }
             Some(SgmlEvent::OpenStartTag { name }) => name,
             _ => return Err(DeserializationError::ExpectedStartTag),
         };
-- 
2.43.0


From ab4b9ccba6993a46003011040bb6b5845c08b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 09/12] fix: do not classify an XML-style empty element by the
 elements that follow it

---
 src/de/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 26b8f82..b9c835e 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -161,10 +161,12 @@ impl<'de> SgmlDeserializer<'de> {
             .events
             .as_slice()
             .iter()
-            .skip(1)
-            .find_map(|event| match event {
+            .enumerate()
+            .find_map(|(i, event)| match event {
+                // The start tag of the element itself
+                SgmlEvent::OpenStartTag { .. } if i == 0 => None,
                 SgmlEvent::OpenStartTag { .. } => Some(true),
-                SgmlEvent::EndTag { .. } => Some(false),
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => Some(false),
                 SgmlEvent::Attribute { .. } => {
                     contains_attributes = true;
                     None
-- 
2.43.0


From f11ba0d193c989a55308eae4da2a0b6bb46fbc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 10/12] fix: refuse to deserialize an attribute as a sequence
 instead of never consuming it

---
 src/de/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index b9c835e..90769ad 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -531,6 +531,10 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         V: de::Visitor<'de>,
     {
         trace!("deserialize_seq (tag: {:?})", self.map_key);
+        if let Ok(SgmlEvent::Attribute { .. }) = self.peek() {
+            // An attribute would never be consumed as a sequence
+            return Err(DeserializationError::ExpectedStartTag);
+        }
         let stack_size = self.stack.len();
 
         let tag_name = self.map_key.take().map(Into::into);
-- 
2.43.0


From 914929c0db1409b09fabb1deeff24c12cb4405cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 11/12] fix: never read the content of an enum variant from
 beyond the element that names it

---
 src/de/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 90769ad..b7da1ae 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -872,6 +872,19 @@ impl<'de, 'r> EnumAccess<'de, 'r> {
             use_tag_name_for_variant,
         }
     }
+
+    /// Ensures there is an element with the content of the variant. When its name came
+    /// from text, that text was already consumed, and what follows belongs to something else.
+    fn expect_variant_content(
+        &self,
+        expected: &dyn de::Expected,
+    ) -> Result<(), DeserializationError> {
+        if self.use_tag_name_for_variant {
+            Ok(())
+        } else {
+            Err(de::Error::invalid_type(Unexpected::UnitVariant, expected))
+        }
+    }
 }
 
 impl<'de, 'r> de::EnumAccess<'de> for EnumAccess<'de, 'r> {
@@ -912,6 +925,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         seed: T,
     ) -> Result<T::Value, Self::Error> {
         trace!("newtype_variant");
+        self.expect_variant_content(&"newtype variant")?;
         // If we just used the current tag name as a variant, we need to push the tag into the stack,
         // or else we might get stuck in a loop
         let push =
@@ -932,6 +946,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("tuple_variant({} items)", len);
+        self.expect_variant_content(&"tuple variant")?;
         if self.use_tag_name_for_variant {
             self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
         }
@@ -947,6 +962,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("struct_variant");
+        self.expect_variant_content(&"struct variant")?;
         self.de.do_map(visitor, fields.contains(&"$value"))
     }
 }
-- 
2.43.0


From c73a2b4cf93606899d26450aa7adec8644050ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 12/12] fix: keep the contents of a sequence variant inside a
 named element

---
 src/de/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index b7da1ae..268ea65 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -620,6 +620,8 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
                 // <key><variant (fields)>(fields)</variant></key>
                 // Advance cursor to `<variant`
                 self.push_elt()?;
+                // The key names this element, not the ones inside it
+                self.map_key = None;
                 self.advance_to_content()?;
                 true
             } else {
-- 
2.43.0

