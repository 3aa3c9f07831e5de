From 5584dd6b66addbb638c48e7a36ad83872727d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 01/35] fix: date-and-or-time value starting with a multi-byte
 character panicked

---
 src/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 7b39a64..0b4a675 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -539,8 +539,8 @@ impl FromStr for DateAndOrTime {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        if !s.is_empty() && &s[0..1] == "T" {
-            return Ok(Self::Time(parse_time(&s[1..])?));
+        if let Some(time) = s.strip_prefix('T') {
+            return Ok(Self::Time(parse_time(time)?));
         }
 
         match parse_date_time(s) {
-- 
2.43.0


From 18878b7869d6a99fcb8aafea3344be097d018e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 02/35] fix: TZ utc-offset between -00:59 and -00:01 was
 printed with a positive sign

---
 src/property.rs | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 0b4a675..898b896 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -758,21 +758,7 @@ impl From<UtcOffset> for UtcOffsetProperty {
 
 impl fmt::Display for UtcOffsetProperty {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let (h, m, _) = self.value.as_hms();
-        let sign = if h >= 0 { '+' } else { '-' };
-        let h = h.abs();
-        let m = m.abs();
-        let h = if h < 10 {
-            format!("0{}", h)
-        } else {
-            h.to_string()
-        };
-        let m = if m < 10 {
-            format!("0{}", m)
-        } else {
-            m.to_string()
-        };
-        write!(f, "{}{}{}", sign, h, m,)
+        format_utc_offset(f, &self.value)
     }
 }
 
-- 
2.43.0


From bbc36113d930a699b89b4f94376727f93dbbd1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 03/35] fix: a time in a date-and-or-time value was printed
 without the leading T

---
 src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 898b896..6a680f3 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -529,7 +529,8 @@ impl fmt::Display for DateAndOrTime {
                 format_date_time(val).map_err(|_| fmt::Error)?
             ),
             Self::Time(val) => {
-                write!(f, "{}", format_time(val).map_err(|_| fmt::Error)?)
+                // Without the leading "T" the value is ambiguous with a date
+                write!(f, "T{}", format_time(val).map_err(|_| fmt::Error)?)
             }
         }
     }
-- 
2.43.0


From f6886bc552d6218146c7829b9d5b5675aaa63779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 04/35] fix: a --MM date was read as a time of day

---
 src/helper.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index b99932b..20d718d 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -160,7 +160,11 @@ pub fn parse_date(value: &str) -> Result<Date> {
             *val = "01";
         }
 
-        let value = parts.join("");
+        let mut value = parts.join("");
+        // Got a --MM format need to use 01 for the day
+        if value.len() == 6 {
+            value.push_str("01");
+        }
         do_parse_date(&value)
     // Got a YYYY-MM format need to use 01 for the day
     } else if value.len() == 7 {
-- 
2.43.0


From a8b8f77edcbdb2ae75b150eb4ed1de8304e35abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 05/35] fix: a vCard cut off before END:VCARD was accepted

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b6a0680..d07ec5f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -157,7 +157,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<()> {
         while let Some(first) = lex.next() {
             if first == Ok(Token::End) {
-                break;
+                return Ok(());
             }
             if let Ok(Token::Version) = first {
                 return Err(Error::VersionMisplaced);
@@ -179,7 +179,8 @@ impl<'s> VcardParser<'s> {
                 return Err(e);
             }
         }
-        Ok(())
+        // Reached the end of the input before the END property
+        Err(Error::TokenExpected)
     }
 
     /// Parse a single property.
-- 
2.43.0


From 720cbb02dafffec5e37c7309199152de5f8ddc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 06/35] fix: a line folded inside a name or an escape sequence
 was misread

---
 src/parser.rs | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d07ec5f..2923a79 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,5 +1,6 @@
 //! Parse vCards based on [RFC6350](https://www.rfc-editor.org/rfc/rfc6350).
 
+use aho_corasick::{AhoCorasick, MatchKind};
 use logos::{Lexer, Logos};
 use std::{borrow::Cow, ops::Range};
 
@@ -58,9 +59,6 @@ pub(crate) enum Token {
     #[token(":")]
     PropertyDelimiter,
 
-    #[regex("\\r?\\n( |\\t)")]
-    FoldedLine,
-
     #[token("\\,")]
     EscapedComma,
 
@@ -92,13 +90,17 @@ pub(crate) enum Token {
 /// Parses vCards from a string.
 pub(crate) struct VcardParser<'s> {
     strict: bool,
-    pub(crate) source: &'s str,
+    /// Source with folded lines joined.
+    pub(crate) source: Cow<'s, str>,
 }
 
 impl<'s> VcardParser<'s> {
     /// Create a new parser.
     pub fn new(source: &'s str, strict: bool) -> Self {
-        Self { source, strict }
+        Self {
+            source: unfold(source),
+            strict,
+        }
     }
 
     /// Parse a UTF-8 encoded string into a list of vCards.
@@ -126,8 +128,8 @@ impl<'s> VcardParser<'s> {
     }
 
     /// Get a lexer for the current source.
-    pub(crate) fn lexer(&self) -> Lexer<'s, Token> {
-        Token::lexer(self.source)
+    pub(crate) fn lexer(&self) -> Lexer<'_, Token> {
+        Token::lexer(&self.source)
     }
 
     /// Parse a single vCard.
@@ -443,8 +445,7 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedNewLine)
+            if token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedBackSlash)
             {
@@ -1016,8 +1017,7 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedSemiColon)
+            if token == Ok(Token::EscapedSemiColon)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedBackSlash)
@@ -1037,9 +1037,7 @@ impl<'s> VcardParser<'s> {
             if needs_transform {
                 let mut value = String::new();
                 for (token, span) in tokens {
-                    if token == Ok(Token::FoldedLine) {
-                        continue;
-                    } else if token == Ok(Token::EscapedComma) {
+                    if token == Ok(Token::EscapedComma) {
                         value.push(',');
                         continue;
                     } else if token == Ok(Token::EscapedSemiColon) {
@@ -1129,6 +1127,23 @@ impl<'s> VcardParser<'s> {
     }
 }
 
+/// Join folded lines.
+///
+/// A fold may be anywhere in a line, including inside a name or an
+/// escape sequence, so this must be done before looking for tokens.
+fn unfold(source: &str) -> Cow<'_, str> {
+    if source.contains("\n ") || source.contains("\n\t") {
+        let patterns = &["\r\n ", "\r\n\t", "\n ", "\n\t"];
+        let ac = AhoCorasick::builder()
+            .match_kind(MatchKind::LeftmostFirst)
+            .build(patterns)
+            .unwrap();
+        Cow::Owned(ac.replace_all(source, &[""; 4]))
+    } else {
+        Cow::Borrowed(source)
+    }
+}
+
 fn parse_date_time_or_text(
     prop_name: &str,
     value: Cow<'_, str>,
-- 
2.43.0


From b5b403c830b31d4f2bcc41c22f71bce9bc69cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 07/35] fix: escaped delimiters split the components of N, ORG,
 CATEGORIES and ADR

---
 src/lib.rs      | 27 +++++++++++++--
 src/parser.rs   | 88 ++++++++-----------------------------------------
 src/property.rs | 17 +++++-----
 3 files changed, 48 insertions(+), 84 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5518dd1..e23bf81 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -154,14 +154,37 @@ pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
     }
 }
 
+/// Helper for unescaping values.
 pub(crate) fn unescape_value(value: &str) -> String {
     use aho_corasick::AhoCorasick;
-    let patterns = &["\r", "\n ", "\n\t", "\\n", "\\N", "\\,"];
-    let replace_with = &["", "", "", "\n", "\n", ","];
+    if !value.contains('\\') {
+        return value.to_string();
+    }
+    let patterns = &["\\\\", "\\n", "\\N", "\\,", "\\;"];
+    let replace_with = &["\\", "\n", "\n", ",", ";"];
     let ac = AhoCorasick::new(patterns).unwrap();
     ac.replace_all(value, replace_with)
 }
 
+/// Pattern for splitting a value on a delimiter unless the delimiter
+/// is escaped with a backslash.
+pub(crate) fn unescaped(delimiter: char) -> impl FnMut(char) -> bool {
+    let mut escaped = false;
+    move |c| {
+        let matched = c == delimiter && !escaped;
+        escaped = c == '\\' && !escaped;
+        matched
+    }
+}
+
+/// Helper for splitting a list and unescaping the items.
+pub(crate) fn split_escaped(value: &str, delimiter: char) -> Vec<String> {
+    value
+        .split(unescaped(delimiter))
+        .map(unescape_value)
+        .collect()
+}
+
 pub(crate) fn escape_control(value: &str) -> String {
     let values = value
         .chars()
diff --git a/src/parser.rs b/src/parser.rs
index 2923a79..a388182 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -12,7 +12,7 @@ use mime::Mime;
 
 use crate::{
     Error, Result, Uri, Vcard, error::LexError, escape_control, helper::*,
-    name::*, parameter::*, property::*, unescape_value,
+    name::*, parameter::*, property::*, split_escaped, unescape_value,
 };
 
 type LexResult<T> = std::result::Result<T, LexError>;
@@ -514,7 +514,8 @@ impl<'s> VcardParser<'s> {
         parameters: Option<Parameters>,
         group: Option<String>,
     ) -> Result<()> {
-        let value = self.parse_property_value(lex)?;
+        let raw_value = self.parse_property_value(lex)?;
+        let value: Cow<'_, str> = Cow::Owned(unescape_value(raw_value));
 
         let upper_name = name.to_uppercase();
 
@@ -567,11 +568,7 @@ impl<'s> VcardParser<'s> {
                 if card.name.is_some() {
                     return Err(Error::OnlyOnce(upper_name));
                 }
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value = split_escaped(raw_value, ';');
                 card.name = Some(TextListProperty {
                     value,
                     parameters,
@@ -643,7 +640,7 @@ impl<'s> VcardParser<'s> {
             // Delivery Addressing
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.3
             ADR => {
-                let value: DeliveryAddress = value.as_ref().parse()?;
+                let value: DeliveryAddress = raw_value.parse()?;
                 card.address.push(AddressProperty {
                     value,
                     parameters,
@@ -765,11 +762,7 @@ impl<'s> VcardParser<'s> {
                 });
             }
             ORG => {
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value = split_escaped(raw_value, ';');
                 card.org.push(TextListProperty {
                     value,
                     parameters,
@@ -797,11 +790,7 @@ impl<'s> VcardParser<'s> {
             // Explanatory
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.7
             CATEGORIES => {
-                let value = value
-                    .as_ref()
-                    .split(',')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value = split_escaped(raw_value, ',');
                 card.categories.push(TextListProperty {
                     value,
                     parameters,
@@ -994,74 +983,25 @@ impl<'s> VcardParser<'s> {
         Ok(())
     }
 
-    /// Get the slice for the property value.
+    /// Get the slice for the property value, escape sequences
+    /// are left as they are.
     fn parse_property_value<'a>(
         &self,
-        lex: &'a mut Lexer<'_, Token>,
-    ) -> Result<Cow<'a, str>> {
-        let mut first_range: Option<Range<usize>> = None;
-        let mut last_range: Option<Range<usize>> = None;
-
-        let mut needs_transform = false;
-        let mut tokens = Vec::new();
-
+        lex: &mut Lexer<'a, Token>,
+    ) -> Result<&'a str> {
+        let start = lex.span().end;
         while let Some(token) = lex.next() {
-            let span = lex.span();
-            if first_range.is_none() {
-                first_range = Some(span.clone());
-            }
-
             if token == Ok(Token::Control) {
                 return Err(Error::ControlCharacter(escape_control(
                     lex.slice(),
                 )));
             }
 
-            if token == Ok(Token::EscapedSemiColon)
-                || token == Ok(Token::EscapedComma)
-                || token == Ok(Token::EscapedNewLine)
-                || token == Ok(Token::EscapedBackSlash)
-            {
-                needs_transform = true;
-            }
-
             if token == Ok(Token::NewLine) {
-                last_range = Some(span);
-                break;
+                return Ok(&lex.source()[start..lex.span().start]);
             }
-
-            tokens.push((token, span));
-        }
-
-        if let (Some(first), Some(last)) = (first_range, last_range) {
-            if needs_transform {
-                let mut value = String::new();
-                for (token, span) in tokens {
-                    if token == Ok(Token::EscapedComma) {
-                        value.push(',');
-                        continue;
-                    } else if token == Ok(Token::EscapedSemiColon) {
-                        value.push(';');
-                        continue;
-                    } else if token == Ok(Token::EscapedNewLine) {
-                        value.push('\n');
-                        continue;
-                    } else if token == Ok(Token::EscapedBackSlash) {
-                        value.push('\\');
-                        continue;
-                    }
-
-                    let source = lex.source();
-                    value.push_str(&source[span]);
-                }
-                Ok(Cow::Owned(value))
-            } else {
-                let source = lex.source();
-                Ok(Cow::Borrowed(&source[first.start..last.start]))
-            }
-        } else {
-            Err(Error::InvalidPropertyValue)
         }
+        Err(Error::InvalidPropertyValue)
     }
 
     /// Parse text or Uri from a value.
diff --git a/src/property.rs b/src/property.rs
index 6a680f3..71b79db 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -28,6 +28,7 @@ use crate::{
         parse_date_time, parse_time, parse_utc_offset,
     },
     parameter::Parameters,
+    unescape_value, unescaped,
 };
 
 const INDIVIDUAL: &str = "individual";
@@ -135,7 +136,7 @@ impl FromStr for DeliveryAddress {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        let mut it = s.splitn(7, ';');
+        let mut it = s.splitn(7, unescaped(';'));
         let po_box = it
             .next()
             .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
@@ -159,37 +160,37 @@ impl FromStr for DeliveryAddress {
             .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
 
         let po_box = if !po_box.is_empty() {
-            Some(po_box.to_owned())
+            Some(unescape_value(po_box))
         } else {
             None
         };
         let extended_address = if !extended_address.is_empty() {
-            Some(extended_address.to_owned())
+            Some(unescape_value(extended_address))
         } else {
             None
         };
         let street_address = if !street_address.is_empty() {
-            Some(street_address.to_owned())
+            Some(unescape_value(street_address))
         } else {
             None
         };
         let locality = if !locality.is_empty() {
-            Some(locality.to_owned())
+            Some(unescape_value(locality))
         } else {
             None
         };
         let region = if !region.is_empty() {
-            Some(region.to_owned())
+            Some(unescape_value(region))
         } else {
             None
         };
         let postal_code = if !postal_code.is_empty() {
-            Some(postal_code.to_owned())
+            Some(unescape_value(postal_code))
         } else {
             None
         };
         let country_name = if !country_name.is_empty() {
-            Some(country_name.to_owned())
+            Some(unescape_value(country_name))
         } else {
             None
         };
-- 
2.43.0


From 0ca6d508440a6ce607c08b2d832b888a8532a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 08/35] fix: empty quoted parameter value, and parameter value
 running into the next line, were misread

---
 src/parser.rs | 98 ++++++++++++++++-----------------------------------
 1 file changed, 30 insertions(+), 68 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a388182..df437ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -271,8 +271,9 @@ impl<'s> VcardParser<'s> {
                     &[Token::ValueDelimiter],
                 )?;
 
-                let (value, next_token, quoted) =
+                let (raw_value, next_token, quoted) =
                     self.parse_parameter_value(lex)?;
+                let value = unescape_value(raw_value);
 
                 if token == Ok(Token::ExtensionName) {
                     self.add_extension_parameter(
@@ -413,13 +414,10 @@ impl<'s> VcardParser<'s> {
                     }
                 }
 
-                if next_token == Ok(Token::PropertyDelimiter) {
+                if next_token == Token::PropertyDelimiter {
                     break;
-                } else if next_token == Ok(Token::ParameterKey) {
-                    next = Some(next_token);
-                } else {
-                    next = lex.next();
                 }
+                next = lex.next();
             } else {
                 return Err(Error::UnknownParameter(lex.slice().to_string()));
             }
@@ -427,78 +425,42 @@ impl<'s> VcardParser<'s> {
         Ok(params)
     }
 
-    /// Parse the raw value for a property parameter.
-    fn parse_parameter_value(
+    /// Parse the raw value for a property parameter, escape sequences
+    /// are left as they are.
+    fn parse_parameter_value<'a>(
         &self,
-        lex: &mut Lexer<'_, Token>,
-    ) -> Result<(String, LexResult<Token>, bool)> {
-        let mut first_range: Option<Range<usize>> = None;
-        let mut quoted = false;
-        let mut is_folded_or_escaped = false;
-
-        while let Some(mut token) = lex.next() {
-            let span = lex.span();
-
-            if token == Ok(Token::Control) {
+        lex: &mut Lexer<'a, Token>,
+    ) -> Result<(&'a str, Token, bool)> {
+        let source = lex.remainder();
+        let quoted = source.starts_with('"');
+        let begin = if quoted { 1 } else { 0 };
+        let mut escaped = false;
+
+        for (pos, c) in source.char_indices().skip(begin) {
+            if c.is_ascii_control() && c != '\t' {
                 return Err(Error::ControlCharacter(escape_control(
-                    lex.slice(),
+                    &c.to_string(),
                 )));
             }
 
-            if token == Ok(Token::EscapedNewLine)
-                || token == Ok(Token::EscapedComma)
-                || token == Ok(Token::EscapedBackSlash)
-            {
-                is_folded_or_escaped = true;
-            }
-
-            let completed = if first_range.is_some() && quoted {
-                token == Ok(Token::DoubleQuote)
+            let completed = if quoted {
+                c == '"'
             } else {
-                token == Ok(Token::PropertyDelimiter)
-                    || token == Ok(Token::ParameterDelimiter)
-                //|| token == Token::ParameterKey
+                c == ':' || (c == ';' && !escaped)
             };
-
-            if first_range.is_none() {
-                first_range = Some(span.clone());
-                if token == Ok(Token::DoubleQuote) {
-                    quoted = true;
-                }
-            }
+            escaped = c == '\\' && !escaped;
 
             if completed {
-                let source = lex.source();
-                let begin = first_range.unwrap().start;
-                let end = span.start;
-                let mut value = &source[begin..end];
-
-                // Remove double quotes if necessary
-                if value.len() >= 2 && quoted {
-                    value = &source[begin + 1..end];
-                }
-
-                // Must consumer the next token
-                if quoted {
-                    token = if let Some(Ok(token)) = lex.next() {
-                        if token != Token::PropertyDelimiter
-                            && token != Token::ParameterDelimiter
-                        {
-                            return Err(Error::DelimiterExpected);
-                        }
-                        Ok(token)
-                    } else {
-                        return Err(Error::TokenExpected);
-                    };
-                }
-
-                let value = if is_folded_or_escaped {
-                    unescape_value(value)
-                } else {
-                    value.to_string()
+                // Skip the closing quote
+                lex.bump(pos + begin);
+                return match lex.next() {
+                    Some(Ok(
+                        token @ (Token::PropertyDelimiter
+                        | Token::ParameterDelimiter),
+                    )) => Ok((&source[begin..pos], token, quoted)),
+                    Some(_) => Err(Error::DelimiterExpected),
+                    None => Err(Error::TokenExpected),
                 };
-
-                return Ok((value, token, quoted));
             }
         }
         Err(Error::TokenExpected)
-- 
2.43.0


From 0a26f3b06a393a94d0d909b4e140565c9eb4e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 09/35] fix: parameter values were printed without the quotes
 and escapes they need to be read back

---
 src/parameter.rs | 69 +++++++++++++++++++++++++++++++++++-------------
 src/parser.rs    | 20 ++++++--------
 2 files changed, 59 insertions(+), 30 deletions(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index 5620496..2ec0491 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -562,7 +562,7 @@ impl fmt::Display for Parameters {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         use crate::name::*;
         if let Some(language) = &self.language {
-            write!(f, ";{}={}", LANGUAGE, language)?;
+            write_escaped(f, LANGUAGE, &language.to_string(), false)?;
         }
         if let Some(value) = &self.value {
             write!(f, ";{}={}", VALUE, value)?;
@@ -571,29 +571,31 @@ impl fmt::Display for Parameters {
             write!(f, ";{}={}", PREF, pref)?;
         }
         if let Some(alt_id) = &self.alt_id {
-            write!(f, ";{}=\"{}\"", ALTID, alt_id)?;
+            write_escaped(f, ALTID, alt_id, true)?;
         }
         if let Some(pids) = &self.pid {
-            write!(f, ";{}={}", PID, comma_delimited(pids))?;
+            write_list(f, PID, pids, false)?;
         }
         if let Some(types) = &self.types {
-            write!(f, ";{}={}", TYPE, comma_delimited(types))?;
+            write_list(f, TYPE, types, false)?;
         }
         if let Some(media_type) = &self.media_type {
-            write!(f, ";{}={}", MEDIATYPE, media_type)?;
+            write_escaped(f, MEDIATYPE, media_type.as_ref(), false)?;
         }
         if let Some(calscale) = &self.calscale {
-            write!(f, ";{}={}", CALSCALE, calscale)?;
+            write_escaped(f, CALSCALE, calscale, false)?;
         }
         if let Some(sort_as) = &self.sort_as {
-            write!(f, ";{}=\"{}\"", SORT_AS, comma_delimited(sort_as))?;
+            write_list(f, SORT_AS, sort_as, true)?;
         }
         if let Some(geo) = &self.geo {
             write!(f, ";{}=\"{}\"", GEO, geo)?;
         }
         if let Some(tz) = &self.timezone {
             match tz {
+                // Text must not be quoted
                 TimeZoneParameter::Text(val) => {
+                    let val = escape_parameter(val).replace(';', "\\;");
                     write!(f, ";{}={}", TZ, val)?;
                 }
                 TimeZoneParameter::UtcOffset(val) => {
@@ -607,11 +609,11 @@ impl fmt::Display for Parameters {
             }
         }
         if let Some(label) = &self.label {
-            write!(f, ";{}=\"{}\"", LABEL, escape_parameter(label))?;
+            write_escaped(f, LABEL, label, true)?;
         }
         if let Some(extensions) = &self.extensions {
             for (name, value) in extensions {
-                write!(f, ";{}=\"{}\"", name, comma_delimited(value))?;
+                write_list(f, name, value, true)?;
             }
         }
         Ok(())
@@ -619,16 +621,47 @@ impl fmt::Display for Parameters {
 }
 
 fn escape_parameter(s: &str) -> String {
-    s.replace('\n', "\\n")
+    s.replace('\\', "\\\\").replace('\n', "\\n")
 }
 
-fn comma_delimited(items: &[impl std::fmt::Display]) -> String {
-    let mut value = String::new();
-    for (index, item) in items.iter().enumerate() {
-        value.push_str(&item.to_string());
-        if index < items.len() - 1 {
-            value.push(',');
-        }
+/// Write a parameter with a text value.
+fn write_escaped(
+    f: &mut fmt::Formatter<'_>,
+    name: &str,
+    value: &str,
+    quoted: bool,
+) -> fmt::Result {
+    write_value(f, name, &escape_parameter(value), quoted)
+}
+
+/// Write a parameter with a list of values.
+fn write_list(
+    f: &mut fmt::Formatter<'_>,
+    name: &str,
+    items: &[impl std::fmt::Display],
+    quoted: bool,
+) -> fmt::Result {
+    let items = items
+        .iter()
+        .map(|item| escape_parameter(&item.to_string()).replace(',', "\\,"))
+        .collect::<Vec<_>>();
+    write_value(f, name, &items.join(","), quoted)
+}
+
+/// Write a parameter, the value is always quoted when it contains a
+/// delimiter unless it contains a double quote as that is not allowed
+/// in a quoted value.
+fn write_value(
+    f: &mut fmt::Formatter<'_>,
+    name: &str,
+    value: &str,
+    quoted: bool,
+) -> fmt::Result {
+    if value.contains('"') {
+        write!(f, ";{}={}", name, value.replace(';', "\\;"))
+    } else if quoted || value.contains([':', ';']) {
+        write!(f, ";{}=\"{}\"", name, value)
+    } else {
+        write!(f, ";{}={}", name, value)
     }
-    value
 }
diff --git a/src/parser.rs b/src/parser.rs
index df437ae..f1aadaf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -232,12 +232,11 @@ impl<'s> VcardParser<'s> {
     fn add_extension_parameter(
         &self,
         parameter_name: &str,
-        value: String,
+        raw_value: &str,
         params: &mut Parameters,
     ) {
-        let values =
-            value.split(',').map(|s| s.to_owned()).collect::<Vec<_>>();
-        let x_param = (parameter_name.to_owned(), values);
+        let x_param =
+            (parameter_name.to_owned(), split_escaped(raw_value, ','));
         if let Some(extensions) = params.extensions.as_mut() {
             extensions.push(x_param);
         } else {
@@ -278,7 +277,7 @@ impl<'s> VcardParser<'s> {
                 if token == Ok(Token::ExtensionName) {
                     self.add_extension_parameter(
                         parameter_name,
-                        value,
+                        raw_value,
                         &mut params,
                     );
                 } else {
@@ -329,7 +328,7 @@ impl<'s> VcardParser<'s> {
                             let mut type_params: Vec<TypeParameter> =
                                 Vec::new();
 
-                            for val in value.split(',') {
+                            for val in split_escaped(raw_value, ',') {
                                 let param: TypeParameter = val.parse()?;
                                 type_params.push(param);
                             }
@@ -347,11 +346,8 @@ impl<'s> VcardParser<'s> {
                             params.calscale = Some(value);
                         }
                         SORT_AS => {
-                            let sort_values = value
-                                .split(',')
-                                .map(|s| s.to_string())
-                                .collect::<Vec<_>>();
-                            params.sort_as = Some(sort_values);
+                            params.sort_as =
+                                Some(split_escaped(raw_value, ','));
                         }
                         GEO => {
                             if !quoted {
@@ -402,7 +398,7 @@ impl<'s> VcardParser<'s> {
                         ENCODING => {
                             self.add_extension_parameter(
                                 parameter_name,
-                                value,
+                                raw_value,
                                 &mut params,
                             );
                         }
-- 
2.43.0


From 7717af153def58fc9191ff2c52c805acf96d1962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 10/35] fix: TZ and GEO were rejected in lower case or with a
 group

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f1aadaf..b06a2d0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -27,11 +27,11 @@ pub(crate) enum Token {
     Version,
 
     // Special case shared between property and parameter
-    #[token("TZ")]
+    #[regex("(?i:([a-z0-9-]+\\.)?TZ)")]
     TimeZone,
 
     // Special case shared between property and parameter
-    #[token("GEO")]
+    #[regex("(?i:([a-z0-9-]+\\.)?GEO)")]
     Geo,
 
     #[regex(
-- 
2.43.0


From 61f3f95ccab571e4ed13ad456d6dd6a7014c4eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 11/35] fix: TYPE=HOME and TYPE=WORK were not recognised in
 upper case

---
 src/parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index 2ec0491..697ba67 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -91,7 +91,7 @@ impl FromStr for TypeParameter {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        match s {
+        match &s.to_lowercase()[..] {
             HOME => Ok(Self::Home),
             WORK => Ok(Self::Work),
             _ => {
-- 
2.43.0


From 0c3cc587f72df97e1a09903693489b500f70cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 12/35] fix: TZ with VALUE=text was rejected

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index b06a2d0..850ba5b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -651,6 +651,15 @@ impl<'s> VcardParser<'s> {
 
                 if let Some(value_type) = value_type {
                     match value_type {
+                        ValueType::Text => {
+                            card.timezone.push(TimeZoneProperty::Text(
+                                TextProperty {
+                                    value: value.into_owned(),
+                                    parameters,
+                                    group,
+                                },
+                            ));
+                        }
                         ValueType::UtcOffset => {
                             let mut value: UtcOffsetProperty =
                                 value.as_ref().parse()?;
-- 
2.43.0


From 573ec663c0e06578d719c9cec03b1d437519d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 13/35] fix: language values were printed without escaping

---
 src/property.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 71b79db..6ade6da 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -390,7 +390,9 @@ impl fmt::Display for AnyProperty {
             Self::Timestamp(val) => format_timestamp_list(f, val),
             Self::UtcOffset(val) => format_utc_offset(f, val),
             Self::Uri(val) => write!(f, "{}", val),
-            Self::Language(val) => write!(f, "{}", val),
+            Self::Language(val) => {
+                write!(f, "{}", escape_value(&val.to_string(), false))
+            }
         }
     }
 }
@@ -445,6 +447,12 @@ impl From<LanguageTag> for LanguageProperty {
     }
 }
 
+impl fmt::Display for LanguageProperty {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}", escape_value(&self.value.to_string(), false))
+    }
+}
+
 /// Date time property.
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -1244,7 +1252,6 @@ display_impl!(KindProperty);
 property_impl!(TextProperty);
 
 property_impl!(LanguageProperty);
-display_impl!(LanguageProperty);
 
 property_impl!(DateTimeProperty);
 
-- 
2.43.0


From 5212d0ad8bef5f8bb60df1afa0a9eb7564b52a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:48 +0000
Subject: [PATCH 14/35] fix: a carriage return in a value was printed as it is,
 breaking the content line

---
 src/lib.rs       | 21 +++++++++------------
 src/parameter.rs |  4 +++-
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e23bf81..7698536 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,18 +140,15 @@ pub fn iter(source: &str, strict: bool) -> VcardIterator<'_> {
 
 /// Helper for escaping values.
 pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
-    use aho_corasick::AhoCorasick;
-    if semi_colons {
-        let patterns = &["\\", "\n", ",", ";"];
-        let replace_with = &["\\\\", "\\n", "\\,", "\\;"];
-        let ac = AhoCorasick::new(patterns).unwrap();
-        ac.replace_all(value, replace_with)
-    } else {
-        let patterns = &["\\", "\n", ","];
-        let replace_with = &["\\\\", "\\n", "\\,"];
-        let ac = AhoCorasick::new(patterns).unwrap();
-        ac.replace_all(value, replace_with)
-    }
+    use aho_corasick::{AhoCorasick, MatchKind};
+    let patterns = &["\\", "\r\n", "\r", "\n", ",", ";"];
+    let replace_with = &["\\\\", "\\n", "\\n", "\\n", "\\,", "\\;"];
+    let length = patterns.len() - if semi_colons { 0 } else { 1 };
+    let ac = AhoCorasick::builder()
+        .match_kind(MatchKind::LeftmostFirst)
+        .build(&patterns[..length])
+        .unwrap();
+    ac.replace_all(value, &replace_with[..length])
 }
 
 /// Helper for unescaping values.
diff --git a/src/parameter.rs b/src/parameter.rs
index 697ba67..24dbcf0 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -621,7 +621,9 @@ impl fmt::Display for Parameters {
 }
 
 fn escape_parameter(s: &str) -> String {
-    s.replace('\\', "\\\\").replace('\n', "\\n")
+    s.replace('\\', "\\\\")
+        .replace("\r\n", "\\n")
+        .replace(['\r', '\n'], "\\n")
 }
 
 /// Write a parameter with a text value.
-- 
2.43.0


From bf6cbc11ba8de72f02fd587c871150b191427599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 15/35] fix: a property with only ignored parameters did not
 round trip

---
 src/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 850ba5b..424e354 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -207,13 +207,14 @@ impl<'s> VcardParser<'s> {
         if let Some(delimiter) = delimiter {
             if delimiter == Ok(Token::ParameterDelimiter) {
                 let parameters = self.parse_parameters(lex, name)?;
+                // May be empty when a parameter was ignored
+                let parameters = if parameters == Parameters::default() {
+                    None
+                } else {
+                    Some(parameters)
+                };
                 self.parse_property_by_name(
-                    lex,
-                    token,
-                    card,
-                    name,
-                    Some(parameters),
-                    group,
+                    lex, token, card, name, parameters, group,
                 )?;
             } else if delimiter == Ok(Token::PropertyDelimiter) {
                 self.parse_property_by_name(
-- 
2.43.0


From 7c0d2fab4c9231d038211320b9f4dfa41a16940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 16/35] fix: loose parsing failed on lines with an unknown name
 or an error before the value

---
 src/parser.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 424e354..4d9d5f1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -161,24 +161,16 @@ impl<'s> VcardParser<'s> {
             if first == Ok(Token::End) {
                 return Ok(());
             }
-            if let Ok(Token::Version) = first {
-                return Err(Error::VersionMisplaced);
-            }
 
-            self.assert_token(
-                Some(&first),
-                &[
-                    Token::PropertyName,
-                    Token::ExtensionName,
-                    Token::TimeZone,
-                    Token::Geo,
-                ],
-            )?;
+            // Missing the END property
+            let begin = first == Ok(Token::Begin);
 
-            if let Err(e) = self.parse_property(lex, first, card)
-                && self.strict
-            {
-                return Err(e);
+            if let Err(e) = self.parse_property(lex, first, card) {
+                if self.strict || begin {
+                    return Err(e);
+                }
+                // Ignore the rest of the line
+                while !lex.slice().ends_with('\n') && lex.next().is_some() {}
             }
         }
         // Reached the end of the input before the END property
@@ -192,6 +184,20 @@ impl<'s> VcardParser<'s> {
         token: LexResult<Token>,
         card: &mut Vcard,
     ) -> Result<()> {
+        if let Ok(Token::Version) = token {
+            return Err(Error::VersionMisplaced);
+        }
+
+        self.assert_token(
+            Some(&token),
+            &[
+                Token::PropertyName,
+                Token::ExtensionName,
+                Token::TimeZone,
+                Token::Geo,
+            ],
+        )?;
+
         let mut group: Option<String> = None;
         let mut name = lex.slice();
 
-- 
2.43.0


From 80438f81c3b6f6d288d53423013ad1be9e6d17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 17/35] fix: iterator returned the same error without end, also
 for a trailing newline

---
 src/iter.rs | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 7e32c7f..191b8fe 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,6 +1,7 @@
 //! Iterator for parsing vCards.
 use crate::{
-    Error, Result, Vcard,
+    Result, Vcard,
+    name::BEGIN,
     parser::{Token, VcardParser},
 };
 use std::ops::Range;
@@ -21,17 +22,37 @@ impl<'s> VcardIterator<'s> {
     }
 
     /// Parse the next vCard.
-    fn parse_next(&self, offset: usize) -> Result<(Vcard, Range<usize>)> {
+    fn parse_next(
+        &self,
+        offset: usize,
+    ) -> Option<Result<(Vcard, Range<usize>)>> {
         let mut lex = self.parser.lexer();
         lex.bump(offset);
         while let Some(first) = lex.next() {
             if first == Ok(Token::NewLine) {
                 continue;
             } else {
-                return self.parser.parse_one(&mut lex, Some(first));
+                return Some(self.parser.parse_one(&mut lex, Some(first)));
             }
         }
-        Err(Error::TokenExpected)
+        None
+    }
+
+    /// Offset of the vCard that follows a vCard that has errors.
+    fn skip_card(&self, offset: usize) -> usize {
+        let source = &self.parser.source;
+        let start = source[offset..]
+            .find(|c| !matches!(c, '\r' | '\n'))
+            .map_or(source.len(), |pos| offset + pos);
+        source[start..]
+            .match_indices('\n')
+            .map(|(pos, _)| start + pos + 1)
+            .find(|pos| {
+                source.as_bytes()[*pos..]
+                    .get(..BEGIN.len())
+                    .is_some_and(|s| s.eq_ignore_ascii_case(BEGIN.as_bytes()))
+            })
+            .unwrap_or(source.len())
     }
 }
 
@@ -39,15 +60,15 @@ impl<'s> Iterator for VcardIterator<'s> {
     type Item = Result<Vcard>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.offset >= self.parser.source.len() {
-            return None;
-        }
-        match self.parse_next(self.offset) {
+        match self.parse_next(self.offset)? {
             Ok((card, span)) => {
                 self.offset = span.end;
                 Some(Ok(card))
             }
-            Err(e) => Some(Err(e)),
+            Err(e) => {
+                self.offset = self.skip_card(self.offset);
+                Some(Err(e))
+            }
         }
     }
 }
-- 
2.43.0


From 28d041becfa8a9b6779b33863a3465cfda28654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 18/35] fix: iterator and TryFrom did not validate the vCard as
 parse does

---
 src/iter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index 191b8fe..eee8570 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -60,7 +60,12 @@ impl<'s> Iterator for VcardIterator<'s> {
     type Item = Result<Vcard>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.parse_next(self.offset)? {
+        let result =
+            self.parse_next(self.offset)?.and_then(|(card, span)| {
+                card.validate()?;
+                Ok((card, span))
+            });
+        match result {
             Ok((card, span)) => {
                 self.offset = span.end;
                 Some(Ok(card))
-- 
2.43.0


From 74f742e25c899c8f903cd7cd5544527ee7ecbe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 19/35] fix: group of a date BDAY and ANNIVERSARY was not
 zeroized on drop

---
 src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 6ade6da..027b383 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -569,6 +569,7 @@ impl FromStr for DateAndOrTime {
 /// Date and or time property.
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
 pub struct DateAndOrTimeProperty {
     /// Group for this property.
     #[cfg_attr(
@@ -577,6 +578,7 @@ pub struct DateAndOrTimeProperty {
     )]
     pub group: Option<String>,
     /// The value for the property.
+    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     pub value: Vec<DateAndOrTime>,
     /// The property parameters.
     #[cfg_attr(
@@ -679,7 +681,6 @@ impl fmt::Display for TextOrUriProperty {
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum DateTimeOrTextProperty {
     /// Date time value.
-    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     DateTime(DateAndOrTimeProperty),
     /// Text value.
     Text(TextProperty),
-- 
2.43.0


From 60b4f9994549fa3f3e3e3826e1c8f1ea48de6635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 20/35] fix: serialized dates could not be deserialized

---
 src/date_time.rs | 12 ++++++++++--
 src/property.rs  |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/date_time.rs b/src/date_time.rs
index 92aba7d..a7a1840 100644
--- a/src/date_time.rs
+++ b/src/date_time.rs
@@ -1,6 +1,9 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use time::{OffsetDateTime, format_description::well_known::Rfc3339};
+use time::{
+    OffsetDateTime,
+    format_description::{self, well_known::Rfc3339},
+};
 
 #[cfg(feature = "serde")]
 use serde_with::{DeserializeFromStr, SerializeDisplay, serde_as};
@@ -84,6 +87,11 @@ impl FromStr for Date {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(OffsetDateTime::parse(s, &Rfc3339)?.date()))
+        let date = format_description::parse("[year]-[month]-[day]")?;
+        if let Ok(result) = time::Date::parse(s, &date) {
+            Ok(Self(result))
+        } else {
+            Ok(Self(OffsetDateTime::parse(s, &Rfc3339)?.date()))
+        }
     }
 }
diff --git a/src/property.rs b/src/property.rs
index 027b383..0b55125 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -500,10 +500,10 @@ impl fmt::Display for DateTimeProperty {
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum DateAndOrTime {
-    /// Date value.
-    Date(Date),
     /// Date and time value.
     DateTime(DateTime),
+    /// Date value.
+    Date(Date),
     /// Time value.
     Time((Time, UtcOffset)),
 }
-- 
2.43.0


From 374a1b64ba94674609bb9f187869f8b7b303c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 21/35] fix: PHOTO with VALUE=text was read as a URI

---
 src/parser.rs | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4d9d5f1..df354a8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -548,22 +548,32 @@ impl<'s> VcardParser<'s> {
                     group,
                 });
             }
-            PHOTO => match value.as_ref().parse::<Uri>() {
-                Ok(value) => {
-                    card.photo.push(TextOrUriProperty::Uri(UriProperty {
-                        value,
-                        parameters,
-                        group,
-                    }));
-                }
-                Err(_) => {
-                    card.photo.push(TextOrUriProperty::Text(TextProperty {
-                        value: value.into_owned(),
-                        parameters,
-                        group,
-                    }));
+            PHOTO => {
+                let is_text = matches!(
+                    parameters.as_ref().and_then(|p| p.value.as_ref()),
+                    Some(ValueType::Text)
+                );
+                match value.as_ref().parse::<Uri>() {
+                    Ok(value) if !is_text => {
+                        card.photo.push(TextOrUriProperty::Uri(
+                            UriProperty {
+                                value,
+                                parameters,
+                                group,
+                            },
+                        ));
+                    }
+                    _ => {
+                        card.photo.push(TextOrUriProperty::Text(
+                            TextProperty {
+                                value: value.into_owned(),
+                                parameters,
+                                group,
+                            },
+                        ));
+                    }
                 }
-            },
+            }
             BDAY => {
                 if card.bday.is_some() {
                     return Err(Error::OnlyOnce(upper_name));
-- 
2.43.0


From 825d41ebadf2f1c0df1eaa1d89d15b39c037f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 22/35] fix: TZ and BDAY values created from plain types lacked
 the VALUE needed to read them back

---
 src/property.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 0b55125..451001e 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -27,7 +27,7 @@ use crate::{
         format_timestamp_list, format_utc_offset, parse_date,
         parse_date_time, parse_time, parse_utc_offset,
     },
-    parameter::Parameters,
+    parameter::{Parameters, ValueType},
     unescape_value, unescaped,
 };
 
@@ -45,6 +45,13 @@ pub trait Property: Display {
     fn parameters(&self) -> Option<&Parameters>;
 }
 
+/// Parameters for a value that is not of the default type for a property.
+fn value_type(value: ValueType) -> Parameters {
+    let mut parameters = Parameters::default();
+    parameters.value = Some(value);
+    parameters
+}
+
 /// Delivery address for the ADR property.
 #[derive(Default, Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -688,7 +695,9 @@ pub enum DateTimeOrTextProperty {
 
 impl From<String> for DateTimeOrTextProperty {
     fn from(value: String) -> Self {
-        Self::Text(value.into())
+        let mut prop: TextProperty = value.into();
+        prop.parameters = Some(value_type(ValueType::Text));
+        Self::Text(prop)
     }
 }
 
@@ -809,13 +818,17 @@ impl From<String> for TimeZoneProperty {
 
 impl From<Uri> for TimeZoneProperty {
     fn from(value: Uri) -> Self {
-        Self::Uri(value.into())
+        let mut prop: UriProperty = value.into();
+        prop.parameters = Some(value_type(ValueType::Uri));
+        Self::Uri(prop)
     }
 }
 
 impl From<UtcOffset> for TimeZoneProperty {
     fn from(value: UtcOffset) -> Self {
-        Self::UtcOffset(value.into())
+        let mut prop: UtcOffsetProperty = value.into();
+        prop.parameters = Some(value_type(ValueType::UtcOffset));
+        Self::UtcOffset(prop)
     }
 }
 
-- 
2.43.0


From ff813311ef8a8b7fcc0f652c48026d68489a4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 23/35] fix: deserialized TEL, UID, KEY, RELATED, PHOTO and TZ
 values lost their type

---
 src/property.rs | 57 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 451001e..73e7a17 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -635,7 +635,7 @@ impl fmt::Display for DateAndOrTimeProperty {
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
-#[cfg_attr(feature = "serde", serde(untagged))]
+#[cfg_attr(feature = "serde", serde(untagged, from = "TextProperty"))]
 #[allow(clippy::large_enum_variant)]
 pub enum TextOrUriProperty {
     /// Text value.
@@ -644,6 +644,27 @@ pub enum TextOrUriProperty {
     Uri(UriProperty),
 }
 
+/// Text and URI are both serialized to a string so the VALUE parameter
+/// is needed to tell them apart, as it is for the parser.
+#[cfg(feature = "serde")]
+impl From<TextProperty> for TextOrUriProperty {
+    fn from(mut prop: TextProperty) -> Self {
+        let value_type =
+            prop.parameters.as_ref().and_then(|p| p.value.as_ref());
+        if value_type != Some(&ValueType::Text)
+            && let Ok(value) = prop.value.parse::<Uri>()
+        {
+            Self::Uri(UriProperty {
+                value,
+                group: prop.group.take(),
+                parameters: prop.parameters.take(),
+            })
+        } else {
+            Self::Text(prop)
+        }
+    }
+}
+
 impl From<String> for TextOrUriProperty {
     fn from(value: String) -> Self {
         Self::Text(value.into())
@@ -799,7 +820,7 @@ impl FromStr for UtcOffsetProperty {
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
-#[cfg_attr(feature = "serde", serde(untagged))]
+#[cfg_attr(feature = "serde", serde(untagged, from = "TextOrUtcOffset"))]
 #[allow(clippy::large_enum_variant)]
 pub enum TimeZoneProperty {
     /// Text value.
@@ -810,6 +831,38 @@ pub enum TimeZoneProperty {
     UtcOffset(UtcOffsetProperty),
 }
 
+/// Serialized time zone.
+#[cfg(feature = "serde")]
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum TextOrUtcOffset {
+    Text(TextProperty),
+    UtcOffset(UtcOffsetProperty),
+}
+
+#[cfg(feature = "serde")]
+impl From<TextOrUtcOffset> for TimeZoneProperty {
+    fn from(value: TextOrUtcOffset) -> Self {
+        let mut prop = match value {
+            TextOrUtcOffset::Text(prop) => prop,
+            TextOrUtcOffset::UtcOffset(prop) => return Self::UtcOffset(prop),
+        };
+        let value_type =
+            prop.parameters.as_ref().and_then(|p| p.value.as_ref());
+        if value_type == Some(&ValueType::Uri)
+            && let Ok(value) = prop.value.parse::<Uri>()
+        {
+            Self::Uri(UriProperty {
+                value,
+                group: prop.group.take(),
+                parameters: prop.parameters.take(),
+            })
+        } else {
+            Self::Text(prop)
+        }
+    }
+}
+
 impl From<String> for TimeZoneProperty {
     fn from(value: String) -> Self {
         Self::Text(value.into())
-- 
2.43.0


From b6b146ee39ce56c41669b30d9b760a0f662531a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 24/35] fix: deserialized extension property values lost their
 type

---
 src/property.rs | 84 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 81 insertions(+), 3 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 73e7a17..f9fe106 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -313,6 +313,7 @@ pub struct ClientPidMapProperty {
 /// Extension property.
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(from = "UntypedExtension"))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
 pub struct ExtensionProperty {
     /// The property name.
@@ -333,6 +334,37 @@ pub struct ExtensionProperty {
     pub parameters: Option<Parameters>,
 }
 
+/// Serialized extension property, the type of the value is not known
+/// until it is combined with the VALUE parameter.
+#[cfg(feature = "serde")]
+#[derive(Deserialize)]
+struct UntypedExtension {
+    name: String,
+    #[serde(default)]
+    group: Option<String>,
+    value: AnyProperty,
+    #[serde(default)]
+    parameters: Option<Parameters>,
+}
+
+#[cfg(feature = "serde")]
+impl From<UntypedExtension> for ExtensionProperty {
+    fn from(prop: UntypedExtension) -> Self {
+        let value = prop
+            .parameters
+            .as_ref()
+            .and_then(|p| p.value.as_ref())
+            .and_then(|value_type| prop.value.with_type(value_type))
+            .unwrap_or(prop.value);
+        Self {
+            name: prop.name,
+            group: prop.group,
+            value,
+            parameters: prop.parameters,
+        }
+    }
+}
+
 /// Value for any property type.
 #[derive(Debug, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", cfg_eval::cfg_eval, serde_as)]
@@ -350,12 +382,12 @@ pub enum AnyProperty {
     /// Boolean property.
     Boolean(bool),
 
-    /// Date value.
-    #[cfg_attr(feature = "zeroize", zeroize(skip))]
-    Date(Vec<Date>),
     /// Date and time value.
     #[cfg_attr(feature = "zeroize", zeroize(skip))]
     DateTime(Vec<DateTime>),
+    /// Date value.
+    #[cfg_attr(feature = "zeroize", zeroize(skip))]
+    Date(Vec<Date>),
     /// Time value.
     #[cfg_attr(feature = "zeroize", zeroize(skip))]
     Time(Vec<(Time, UtcOffset)>),
@@ -381,6 +413,52 @@ pub enum AnyProperty {
     Language(String),
 }
 
+#[cfg(feature = "serde")]
+impl AnyProperty {
+    /// Convert to the type given by the VALUE parameter when other types
+    /// are serialized in the same way.
+    fn with_type(&self, value_type: &ValueType) -> Option<Self> {
+        match (value_type, self) {
+            (ValueType::Uri, Self::Text(val)) => {
+                val.parse().ok().map(Self::Uri)
+            }
+            (ValueType::LanguageTag, Self::Text(val)) => {
+                val.parse().ok().map(Self::Language)
+            }
+            (ValueType::UtcOffset, Self::Integer(val)) => {
+                let val = val.iter().map(|n| (*n).try_into().ok()).collect();
+                match val {
+                    Some::<Vec<i8>>(val) if val.len() == 3 => {
+                        UtcOffset::from_hms(val[0], val[1], val[2])
+                            .ok()
+                            .map(Self::UtcOffset)
+                    }
+                    _ => None,
+                }
+            }
+            (ValueType::Timestamp, Self::DateTime(val)) => {
+                Some(Self::Timestamp(val.clone()))
+            }
+            (ValueType::DateAndOrTime, Self::DateTime(val)) => {
+                Some(Self::DateAndOrTime(
+                    val.iter().cloned().map(Into::into).collect(),
+                ))
+            }
+            (ValueType::DateAndOrTime, Self::Date(val)) => {
+                Some(Self::DateAndOrTime(
+                    val.iter().cloned().map(Into::into).collect(),
+                ))
+            }
+            (ValueType::DateAndOrTime, Self::Time(val)) => {
+                Some(Self::DateAndOrTime(
+                    val.iter().cloned().map(Into::into).collect(),
+                ))
+            }
+            _ => None,
+        }
+    }
+}
+
 impl Eq for AnyProperty {}
 
 impl fmt::Display for AnyProperty {
-- 
2.43.0


From 3e6d44893a8cff6d463162f95e4ca58e9558dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 25/35] fix: parameter value with a double quote and a colon
 was printed as part of the property value

---
 src/parameter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index 24dbcf0..2065387 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -653,13 +653,19 @@ fn write_list(
 /// Write a parameter, the value is always quoted when it contains a
 /// delimiter unless it contains a double quote as that is not allowed
 /// in a quoted value.
+///
+/// A double quote cannot be represented when it is the first character or
+/// the value has a colon and is replaced with a single quote.
 fn write_value(
     f: &mut fmt::Formatter<'_>,
     name: &str,
     value: &str,
     quoted: bool,
 ) -> fmt::Result {
-    if value.contains('"') {
+    if value.starts_with('"') || (value.contains('"') && value.contains(':'))
+    {
+        write!(f, ";{}=\"{}\"", name, value.replace('"', "'"))
+    } else if value.contains('"') {
         write!(f, ";{}={}", name, value.replace(';', "\\;"))
     } else if quoted || value.contains([':', ';']) {
         write!(f, ";{}=\"{}\"", name, value)
-- 
2.43.0


From 7548cc0da99555102a7dfc135a6442da02d4fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 26/35] fix: TZ parameter text with a colon was printed as part
 of the property value

---
 src/parameter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parameter.rs b/src/parameter.rs
index 2065387..761dfd2 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -593,6 +593,12 @@ impl fmt::Display for Parameters {
         }
         if let Some(tz) = &self.timezone {
             match tz {
+                // Only a quoted value may contain a colon
+                TimeZoneParameter::Text(val)
+                    if val.contains(':') || val.starts_with('"') =>
+                {
+                    write_escaped(f, TZ, val, true)?;
+                }
                 // Text must not be quoted
                 TimeZoneParameter::Text(val) => {
                     let val = escape_parameter(val).replace(';', "\\;");
-- 
2.43.0


From 2a958d979308f27c2bb1538d5ffa71983a93d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 27/35] fix: long values overflowed the stack in builds that
 are not optimised

---
 src/parser.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index df354a8..d38e2c9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -170,7 +170,10 @@ impl<'s> VcardParser<'s> {
                     return Err(e);
                 }
                 // Ignore the rest of the line
-                while !lex.slice().ends_with('\n') && lex.next().is_some() {}
+                if !lex.slice().ends_with('\n') {
+                    let rest = lex.remainder();
+                    lex.bump(rest.find('\n').map_or(rest.len(), |p| p + 1));
+                }
             }
         }
         // Reached the end of the input before the END property
@@ -973,17 +976,21 @@ impl<'s> VcardParser<'s> {
         &self,
         lex: &mut Lexer<'a, Token>,
     ) -> Result<&'a str> {
-        let start = lex.span().end;
-        while let Some(token) = lex.next() {
-            if token == Ok(Token::Control) {
+        // Not read as tokens, these are recursive in builds that are not
+        // optimised and a long value would overflow the stack.
+        let source = lex.remainder();
+        for (pos, c) in source.char_indices() {
+            let rest = &source[pos..];
+            if rest.starts_with('\n') || rest.starts_with("\r\n") {
+                lex.bump(pos);
+                self.assert_token(lex.next().as_ref(), &[Token::NewLine])?;
+                return Ok(&source[..pos]);
+            }
+            if c.is_ascii_control() && c != '\t' {
                 return Err(Error::ControlCharacter(escape_control(
-                    lex.slice(),
+                    &c.to_string(),
                 )));
             }
-
-            if token == Ok(Token::NewLine) {
-                return Ok(&lex.source()[start..lex.span().start]);
-            }
         }
         Err(Error::InvalidPropertyValue)
     }
-- 
2.43.0


From dae92a082f7883c4fc8ce259f67e6b11f6a1f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 28/35] fix: text that starts with a colon made the URI parser
 panic

---
 src/uri.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/uri.rs b/src/uri.rs
index 1b94dfc..e119600 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -1,6 +1,6 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use uriparse::URI;
+use uriparse::{URI, URIReference, URIReferenceError, uri::URIError};
 
 /// URI type for the library.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -15,6 +15,13 @@ impl FromStr for Uri {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // The conversion of this error by `URI::try_from` panics
+        if let Err(
+            URIReferenceError::SchemelessPathStartsWithColonSegment,
+        ) = URIReference::try_from(s)
+        {
+            return Err(URIError::NotURI.into());
+        }
         Ok(Self(URI::try_from(s)?.into_owned()))
     }
 }
-- 
2.43.0


From 44c2dcf158fbf526a768a4ed2d53ca2cc2059e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 29/35] fix: date --- and time -- without any digit were
 accepted

---
 src/helper.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index 20d718d..48608fe 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -56,6 +56,10 @@ pub fn parse_time_list(value: &str) -> Result<Vec<(Time, UtcOffset)>> {
 /// Parse a time.
 pub fn parse_time(value: &str) -> Result<(Time, UtcOffset)> {
     if value.starts_with('-') {
+        // Nothing but omitted parts
+        if value.bytes().all(|c| c == b'-') {
+            return Err(Error::InvalidTime(value.to_string()));
+        }
         let mut parts = value.split("").collect::<Vec<_>>();
         let val = parts
             .get_mut(1)
@@ -141,6 +145,10 @@ pub fn parse_date_list(value: &str) -> Result<Vec<Date>> {
 /// Parse a date.
 pub fn parse_date(value: &str) -> Result<Date> {
     if value.starts_with('-') {
+        // Nothing but omitted parts
+        if value.bytes().all(|c| c == b'-') {
+            return Err(Error::InvalidDate(value.to_string()));
+        }
         let mut parts = value.split("").collect::<Vec<_>>();
         let val = parts
             .get_mut(1)
-- 
2.43.0


From 5e4ae000797244ee21f3eec704cfe6c71b545274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 30/35] fix: date time taken for a date or a time when the
 other part is invalid or not expected

---
 src/helper.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index 48608fe..5332a9d 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -99,6 +99,10 @@ fn do_parse_time(mut value: &str) -> Result<(Time, UtcOffset)> {
         value = &value[0..value.len() - 1];
     }
 
+    // The ISO 8601 parser ignores the date of a date time
+    if value.find('T').is_some_and(|pos| pos > 0) {
+        return Err(Error::InvalidTime(value.to_string()));
+    }
     let time = Time::parse(value, &Iso8601::DEFAULT)?;
     Ok((time, offset))
 }
@@ -203,6 +207,9 @@ fn do_parse_date(s: &str) -> Result<Date> {
         Ok(result)
     } else if let Ok(result) = Date::parse(s, &year_month) {
         Ok(result)
+    } else if s.contains('T') {
+        // The ISO 8601 parser ignores the time of a date time
+        Err(Error::InvalidDate(s.to_string()))
     } else {
         Ok(Date::parse(s, &Iso8601::DEFAULT)?)
     }
-- 
2.43.0


From 8e6e9a534d92ae522ad483301168b834e6b52787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 31/35] fix: serialized lists of dates and date times lost the
 times

---
 src/property.rs | 25 ++++++++++++++++++++++++-
 src/uri.rs      |  5 ++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index f9fe106..e838ec9 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -387,7 +387,13 @@ pub enum AnyProperty {
     DateTime(Vec<DateTime>),
     /// Date value.
     #[cfg_attr(feature = "zeroize", zeroize(skip))]
-    Date(Vec<Date>),
+    Date(
+        #[cfg_attr(
+            feature = "serde",
+            serde(deserialize_with = "only_dates")
+        )]
+        Vec<Date>,
+    ),
     /// Time value.
     #[cfg_attr(feature = "zeroize", zeroize(skip))]
     Time(Vec<(Time, UtcOffset)>),
@@ -459,6 +465,23 @@ impl AnyProperty {
     }
 }
 
+/// Deserialize a list of dates, a date and time is not one of them.
+#[cfg(feature = "serde")]
+fn only_dates<'de, D>(
+    deserializer: D,
+) -> std::result::Result<Vec<Date>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    Vec::<DateAndOrTime>::deserialize(deserializer)?
+        .into_iter()
+        .map(|val| match val {
+            DateAndOrTime::Date(val) => Ok(val),
+            _ => Err(serde::de::Error::custom("date expected")),
+        })
+        .collect()
+}
+
 impl Eq for AnyProperty {}
 
 impl fmt::Display for AnyProperty {
diff --git a/src/uri.rs b/src/uri.rs
index e119600..28c349e 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -16,9 +16,8 @@ impl FromStr for Uri {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         // The conversion of this error by `URI::try_from` panics
-        if let Err(
-            URIReferenceError::SchemelessPathStartsWithColonSegment,
-        ) = URIReference::try_from(s)
+        if let Err(URIReferenceError::SchemelessPathStartsWithColonSegment) =
+            URIReference::try_from(s)
         {
             return Err(URIError::NotURI.into());
         }
-- 
2.43.0


From 5f7fac346a9e6c0925f4103139886a7bd135a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 32/35] fix: PHOTO with a VALUE other than text or uri, or with
 VALUE=uri and no URI, was read as text

---
 src/parser.rs | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d38e2c9..63646b8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -552,30 +552,8 @@ impl<'s> VcardParser<'s> {
                 });
             }
             PHOTO => {
-                let is_text = matches!(
-                    parameters.as_ref().and_then(|p| p.value.as_ref()),
-                    Some(ValueType::Text)
-                );
-                match value.as_ref().parse::<Uri>() {
-                    Ok(value) if !is_text => {
-                        card.photo.push(TextOrUriProperty::Uri(
-                            UriProperty {
-                                value,
-                                parameters,
-                                group,
-                            },
-                        ));
-                    }
-                    _ => {
-                        card.photo.push(TextOrUriProperty::Text(
-                            TextProperty {
-                                value: value.into_owned(),
-                                parameters,
-                                group,
-                            },
-                        ));
-                    }
-                }
+                card.photo
+                    .push(self.parse_text_or_uri(value, parameters, group)?);
             }
             BDAY => {
                 if card.bday.is_some() {
-- 
2.43.0


From 29a73ddb3b85545d860bfe6653454ca9b8ba5d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 33/35] fix: a date of a form like --131, -2-04 or ---1 was
 read as another date

---
 src/helper.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 5332a9d..9eb93d6 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -149,8 +149,13 @@ pub fn parse_date_list(value: &str) -> Result<Vec<Date>> {
 /// Parse a date.
 pub fn parse_date(value: &str) -> Result<Date> {
     if value.starts_with('-') {
-        // Nothing but omitted parts
-        if value.bytes().all(|c| c == b'-') {
+        // Parts are omitted in the forms --MM, --MMDD and ---DD only
+        let digits = value.trim_start_matches('-');
+        if !matches!(
+            (value.len() - digits.len(), digits.len()),
+            (2, 2) | (2, 4) | (3, 2)
+        ) || !digits.bytes().all(|c| c.is_ascii_digit())
+        {
             return Err(Error::InvalidDate(value.to_string()));
         }
         let mut parts = value.split("").collect::<Vec<_>>();
-- 
2.43.0


From fa04acee54fd77d1aba88828d8f7c780a165af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 34/35] fix: a time with two zones, or of a form like ---06 or
 -+12, was read as another time

---
 src/helper.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 9eb93d6..4033316 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -56,8 +56,11 @@ pub fn parse_time_list(value: &str) -> Result<Vec<(Time, UtcOffset)>> {
 /// Parse a time.
 pub fn parse_time(value: &str) -> Result<(Time, UtcOffset)> {
     if value.starts_with('-') {
-        // Nothing but omitted parts
-        if value.bytes().all(|c| c == b'-') {
+        // One or two parts are omitted before the digits of another
+        let rest = value.trim_start_matches('-');
+        if value.len() - rest.len() > 2
+            || !rest.starts_with(|c: char| c.is_ascii_digit())
+        {
             return Err(Error::InvalidTime(value.to_string()));
         }
         let mut parts = value.split("").collect::<Vec<_>>();
@@ -88,17 +91,14 @@ pub fn parse_time(value: &str) -> Result<(Time, UtcOffset)> {
 
 fn do_parse_time(mut value: &str) -> Result<(Time, UtcOffset)> {
     let mut offset = UtcOffset::UTC;
-    let pos = value.find('-').or_else(|| value.find('+'));
+    // There is one zone, after the time
+    let pos = value.find(['-', '+', 'Z']);
     if let Some(pos) = pos {
         let offset_value = &value[pos..];
         offset = parse_utc_offset(offset_value)?;
         value = &value[0..pos];
     }
 
-    if value.ends_with('Z') {
-        value = &value[0..value.len() - 1];
-    }
-
     // The ISO 8601 parser ignores the date of a date time
     if value.find('T').is_some_and(|pos| pos > 0) {
         return Err(Error::InvalidTime(value.to_string()));
-- 
2.43.0


From be09518a85c749c5470e5bb96ea3bebc612aed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 35/35] fix: zeroize() left the languages and the revision in
 the card

---
 src/vcard.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/vcard.rs b/src/vcard.rs
index c7a68c2..7421cef 100644
--- a/src/vcard.rs
+++ b/src/vcard.rs
@@ -119,7 +119,6 @@ pub struct Vcard {
     )]
     pub impp: Vec<UriProperty>,
     /// Value of the LANG property.
-    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     #[cfg_attr(
         feature = "serde",
         serde(default, skip_serializing_if = "Vec::is_empty")
@@ -198,7 +197,6 @@ pub struct Vcard {
     )]
     pub prod_id: Option<TextProperty>,
     /// Value of the REV property.
-    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     #[cfg_attr(
         feature = "serde",
         serde(default, skip_serializing_if = "Option::is_none")
-- 
2.43.0

