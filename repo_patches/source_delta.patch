From 28c34f7efe351102b0e2eabfd0008fcfe7b93fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:26 +0000
Subject: [PATCH 01/17] fix: lines no longer panic or misplace offsets on
 multi-byte white space

---
 src/meta_rules/lines.rs | 43 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 7a5d316..977de1a 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -27,6 +27,45 @@ pub struct Lines {
     pub indent: bool,
 }
 
+/// Reads lines until closure returns `None`.
+///
+/// Works like `ReadToken::lines`, which assumes that white space characters
+/// are one byte long.
+///
+/// Returns `Ok(range)` of the successful read lines.
+/// Returns `Err(range)` when expected new line.
+fn read_lines<F>(start: &ReadToken, mut f: F) -> Result<Range, Range>
+    where F: FnMut(&ReadToken) -> Option<Range>
+{
+    let mut read_token = *start;
+    let mut new_line = true;
+    loop {
+        let blank = read_token.whitespace().length;
+        if blank == read_token.src.len() {
+            read_token = read_token.consume(blank);
+            break;
+        }
+        if let Some(i) = read_token.src[..blank].rfind('\n') {
+            read_token = read_token.consume(i + 1);
+            new_line = true;
+        }
+        if !new_line {
+            return Err(Range::empty(read_token.offset));
+        }
+        match f(&read_token) {
+            None => break,
+            Some(range) => {
+                // If the item ended with a new line,
+                // then it is not required before the next item.
+                let text = &read_token.src[..range.next_offset() - read_token.offset];
+                new_line = text[text.trim_end().len()..].contains('\n');
+                read_token = read_token.consume(range.length);
+            }
+        }
+    }
+    Ok(read_token.subtract(start))
+}
+
 impl Lines {
     /// Parses rule separated by one or more lines.
     /// Ignores lines that only contain whitespace characters.
@@ -42,7 +81,7 @@ impl Lines {
         let mut opt_error = None;
         let mut first = true;
         if self.indent {
-            match read_token.lines(|read_token| {
+            match read_lines(read_token, |read_token| {
                 let offset = read_token.offset;
                 let mut read_token = *read_token;
                 if self.indent {
@@ -112,7 +151,7 @@ impl Lines {
                 }
             }
         } else {
-            match read_token.lines(|read_token| {
+            match read_lines(read_token, |read_token| {
                 match self.rule.parse(tokenizer, &state, &read_token, refs, indent_settings) {
                     Err(err) => {
                         err_update(Some(err), &mut opt_error);
-- 
2.43.0


From 0499fb8b04ff9176564ed935c8ec6c1d258d7c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:26 +0000
Subject: [PATCH 02/17] fix: compare end of parse with text length in bytes

---
 src/meta_rules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meta_rules/mod.rs b/src/meta_rules/mod.rs
index c1766a0..3be4666 100644
--- a/src/meta_rules/mod.rs
+++ b/src/meta_rules/mod.rs
@@ -72,7 +72,7 @@ pub fn parse_with_indent(
     match res {
         Ok((range, s, opt_error)) => {
             // Report error if did not reach the end of text.
-            if range.next_offset() < text.chars().count() {
+            if range.next_offset() < text.len() {
                 Err(ret_err(
                     Range::empty(range.next_offset()).wrap(
                         ParseError::ExpectedEnd),
-- 
2.43.0


From d40fde20fdf77492988d820ac94981701e5948fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 03/17] fix: optimized select tries alternatives that need no
 text at end of text

---
 src/meta_rules/fast_select.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index 9e4fb57..070a5ea 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -80,8 +80,9 @@ impl FastSelect {
                     }
                 }
             } else {
-                Err(read_token.start().wrap(
-                    ParseError::ExpectedSomething(self.debug_id)))
+                // There is no next byte, but the tail might not need any.
+                self.args[self.args.len()-1]
+                    .parse(tokens, state, read_token, refs, indent_settings)
             }
         } else {
             if let Some(ch) = read_token.src.chars().next() {
-- 
2.43.0


From f8d54b8fa792001d56c70b7baf90fec962db1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 04/17] fix: separated list without dot does not allow trailing
 separator

---
 src/bootstrap/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 7f7d5ab..c3cf5cf 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -654,7 +654,7 @@ pub fn convert(
             }
         }
         let optional = optional.unwrap_or(true);
-        let allow_trail = allow_trail.unwrap_or(true);
+        let allow_trail = allow_trail.unwrap_or(false);
         match (by, rule) {
             (Some(by), Some(rule)) => {
                 *debug_id += 1;
-- 
2.43.0


From 3871e3308cbb2d67fce7186e95eb2fbf4bb90947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 05/17] fix: report references to undefined strings instead of
 dropping them

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b767e6..c3ba175 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -223,7 +223,13 @@ pub fn syntax(rules: &str) -> Result<Syntax, Range<ParseError>> {
     parse(&BOOTSTRAP_RULES, rules, &mut tokens)?;
     let mut ignored_meta_data = vec![];
     match bootstrap::convert(&tokens, &mut ignored_meta_data) {
-        Ok(res) => Ok(res.optimize()),
+        Ok(res) => match ignored_meta_data.first() {
+            None => Ok(res.optimize()),
+            // The bootstrapping rules only produce known meta data,
+            // so this is a reference to a string that does not exist.
+            Some(ignored) => Err(tokens[ignored.offset].range().wrap(
+                ParseError::Conversion(format!("Could not find string"))))
+        },
         Err(()) => Err(Range::empty(0).wrap(ParseError::Conversion(
             format!("Bootstrapping rules are incorrect"))))
     }
-- 
2.43.0


From 0685d7a83d6b07d396811079a60e3edd4c0c4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 06/17] fix: large node ids no longer overflow debug id

---
 src/bootstrap/convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index c3cf5cf..afc7ff3 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -851,7 +851,8 @@ pub fn convert(
                 convert.update(range);
                 break;
             } else if let Ok((range, val)) = convert.meta_f64("id") {
-                id = Some(val as usize);
+                // Leave room for multiplying by 1000 and counting sub rules.
+                id = Some(::std::cmp::min(val as usize, ::std::usize::MAX / 2000));
                 convert.update(range);
             } else if let Ok((range, val)) = convert.meta_string("name") {
                 name = Some(val);
-- 
2.43.0


From e3851c423c6e04a064577956d500d5b8d0fb5308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 07/17] fix: converting unbalanced meta data returns an error
 instead of hanging

---
 src/bootstrap/convert.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index afc7ff3..fd176ae 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -95,7 +95,9 @@ impl<'a> Convert<'a> {
         for item in self.data.iter() {
             match &item.data {
                 &MetaData::StartNode(_) => acc += 1,
-                &MetaData::EndNode(_) => acc -= 1,
+                // An end node that does not belong to the next item
+                // is ignored by itself.
+                &MetaData::EndNode(_) => acc = acc.saturating_sub(1),
                 _ => {}
             }
             len += 1;
@@ -877,6 +879,24 @@ pub fn convert(
         }
     }
 
+    /// Returns whether every node is ended before the node it is inside.
+    fn is_balanced(data: &[Range<MetaData>]) -> bool {
+        let mut open: Vec<&Arc<String>> = vec![];
+        for item in data {
+            match item.data {
+                MetaData::StartNode(ref name) => open.push(name),
+                MetaData::EndNode(ref name) => {
+                    if open.pop() != Some(name) { return false; }
+                }
+                _ => {}
+            }
+        }
+        open.is_empty()
+    }
+
+    // Unbalanced meta data can not be ignored item by item.
+    if !is_balanced(data) { return Err(()); }
+
     let mut strings: Vec<(Arc<String>, Arc<String>)> = vec![];
     let mut convert = Convert::new(data);
     loop {
-- 
2.43.0


From dfbcb109394b5061400b266a8c3043d009f5000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 08/17] fix: read numbers as the nearest f64 and reject those
 out of range

---
 src/meta_rules/number.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/number.rs b/src/meta_rules/number.rs
index 522ad4e..1a6763e 100644
--- a/src/meta_rules/number.rs
+++ b/src/meta_rules/number.rs
@@ -1,5 +1,5 @@
 use range::Range;
-use read_token::{ NumberSettings, ReadToken };
+use read_token::{ NumberSettings, ParseNumberError, ReadToken };
 use std::sync::Arc;
 
 use super::{
@@ -23,6 +23,27 @@ pub struct Number {
     pub allow_underscore: bool,
 }
 
+/// Parses the nearest `f64` of a number.
+///
+/// `ReadToken::parse_number` is inexact, and overflows on large exponents.
+fn parse_f64(settings: &NumberSettings, src: &str) -> Result<f64, ParseNumberError> {
+    let val: f64 = if settings.allow_underscore {
+        src.replace('_', "").parse()
+    } else {
+        src.parse()
+    }.map_err(|_| match src {
+        "+" | "-" => ParseNumberError::ExpectedDigits,
+        _ => ParseNumberError::Invalid,
+    })?;
+    if val.is_finite() {
+        Ok(val)
+    } else if val > 0.0 {
+        Err(ParseNumberError::OverflowInfinity)
+    } else {
+        Err(ParseNumberError::OverflowNegInfinity)
+    }
+}
+
 impl Number {
     /// Parses number.
     pub fn parse(
@@ -35,7 +56,7 @@ impl Number {
             allow_underscore: self.allow_underscore
         };
         if let Some(range) = read_token.number(&settings) {
-            match read_token.parse_number(&settings, range.length) {
+            match parse_f64(&settings, &read_token.src[..range.length]) {
                 Err(err) => {
                     Err(range.wrap(
                     ParseError::ParseNumberError(err, self.debug_id)))
-- 
2.43.0


From e930a3c09ba28e9025526ec212b2597a3464e5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 09/17] fix: escape all control characters in JSON strings

---
 src/json.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json.rs b/src/json.rs
index 6e187b9..9fcbe41 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -83,6 +83,8 @@ pub fn write_string<W>(w: &mut W, val: &str) -> Result<(), io::Error>
             write!(w, "\\r")?;
         } else if c == '\t' {
             write!(w, "\\t")?;
+        } else if c < '\u{20}' {
+            write!(w, "\\u{:04x}", c as u32)?;
         } else {
             write!(w, "{}", c)?;
         }
-- 
2.43.0


From 2ad9a97eb368655dbdda529dd0144fe0e9e5a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 10/17] fix: restore indention after indented lines

---
 src/meta_rules/lines.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 977de1a..3d7246f 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -81,7 +81,8 @@ impl Lines {
         let mut opt_error = None;
         let mut first = true;
         if self.indent {
-            match read_lines(read_token, |read_token| {
+            let outer_indent = indent_settings.indent;
+            let res = read_lines(read_token, |read_token| {
                 let offset = read_token.offset;
                 let mut read_token = *read_token;
                 if self.indent {
@@ -140,7 +141,10 @@ impl Lines {
                         Some(range)
                     }
                 }
-            }) {
+            });
+            // The alignment to the first line only applies to these lines.
+            indent_settings.indent = outer_indent;
+            match res {
                 Err(range) => {
                     let err = range.wrap(
                         ParseError::ExpectedNewLine(self.debug_id));
-- 
2.43.0


From b1722986419e0ab01c8dbeb9ba32c1cba0de5cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:47 +0000
Subject: [PATCH 11/17] fix: error column and pointer count characters instead
 of bytes

---
 src/parse_error_handler.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse_error_handler.rs b/src/parse_error_handler.rs
index 2874f8a..e425c74 100644
--- a/src/parse_error_handler.rs
+++ b/src/parse_error_handler.rs
@@ -14,6 +14,11 @@ pub fn stderr_unwrap<T>(source: &str, res: Result<T, Range<ParseError>>) -> T {
     }
 }
 
+/// Converts from offset in bytes to offset in characters.
+fn char_offset(text: &str, offset: usize) -> usize {
+    text.char_indices().take_while(|&(i, _)| i < offset).count()
+}
+
 /// Reports error.
 pub struct ParseErrorHandler<'a> {
     lines: Vec<(Range, &'a str)>,
@@ -48,7 +53,7 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    let j = char_offset(text, intersect.offset - r.offset);
                     let s = if j > 75 { j - 50 } else { 0 };
                     let e = ::std::cmp::min(s + 100, r.length);
                     write!(w, "{},{}: ", i + 1, j + 1)?;
@@ -122,7 +127,7 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    let j = char_offset(text, intersect.offset - r.offset);
                     let s = if j > 75 { j - 50 } else { 0 };
                     let e = ::std::cmp::min(s + 100, r.length);
                     write!(w, "{},{}: ", i + 1, j + 1)?;
-- 
2.43.0


From ac7a3e901e931e22e12320478c635ea9c334c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:47 +0000
Subject: [PATCH 12/17] fix: compare optimized selects by content, so a syntax
 equals itself

---
 src/meta_rules/fast_select.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index 070a5ea..b276ef3 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -30,7 +30,12 @@ pub struct FastSelect {
 }
 
 impl PartialEq for FastSelect {
-    fn eq(&self, _: &Self) -> bool {false}
+    fn eq(&self, other: &Self) -> bool {
+        &self.table[..] == &other.table[..] &&
+        self.args == other.args &&
+        self.tail == other.tail &&
+        self.debug_id == other.debug_id
+    }
 }
 
 impl std::fmt::Debug for FastSelect {
-- 
2.43.0


From 03048491ecdcd87d3e9f26781079f59e99a7a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 13/17] fix: optimizing a left recursive grammar no longer
 overflows the stack

---
 src/optimize.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index 5f55f09..e12a03f 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -28,6 +28,11 @@ pub fn unique_table_from_select(select: &Select, refs: &[Rule]) -> ([u8; 256], u
 /// Finds a unique byte from rule that determines whether
 /// the rule will fail if it does not equals the next byte.
 pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
+    // Following more node references than there are nodes means left recursion.
+    unique_byte_depth(rule, refs, refs.len())
+}
+
+fn unique_byte_depth(rule: &Rule, refs: &[Rule], depth: usize) -> Option<u8> {
     match *rule {
         Rule::Whitespace(_) => None,
         Rule::UntilAny(_) => None,
@@ -37,29 +42,32 @@ pub fn unique_byte(rule: &Rule, refs: &[Rule]) -> Option<u8> {
         Rule::Optional(_) => None,
         Rule::FastSelect(_) => None,
         Rule::Not(ref not) => {
-            if let Rule::Not(ref r) = not.rule {unique_byte(&r.rule, refs)}
+            if let Rule::Not(ref r) = not.rule {unique_byte_depth(&r.rule, refs, depth)}
             else {None}
         }
         Rule::Text(_) => Some(0x22),
         Rule::Select(ref sel) => {
-            if sel.args.len() == 1 {unique_byte(&sel.args[0], refs)}
+            if sel.args.len() == 1 {unique_byte_depth(&sel.args[0], refs, depth)}
             else {None}
         }
         Rule::SeparateBy(ref sep) => {
             if sep.optional {None}
-            else {unique_byte(&sep.rule, refs)}
+            else {unique_byte_depth(&sep.rule, refs, depth)}
         }
         Rule::Sequence(ref seq) => {
             if seq.args.len() == 0 {None}
-            else {unique_byte(&seq.args[0], refs)}
+            else {unique_byte_depth(&seq.args[0], refs, depth)}
         }
         Rule::Repeat(ref rep) => {
             if rep.optional {None}
-            else {unique_byte(&rep.rule, refs)}
+            else {unique_byte_depth(&rep.rule, refs, depth)}
         }
         Rule::Node(ref node) => {
-            if let Some(index) = node.index {unique_byte(&refs[index], refs)}
-            else {None}
+            match node.index {
+                Some(index) if depth > 0 =>
+                    unique_byte_depth(&refs[index], refs, depth - 1),
+                _ => None
+            }
         }
         Rule::Tag(ref tag) => {
             if tag.not {None}
-- 
2.43.0


From 45efadcaf152dd627764c770abd55023e9804484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 14/17] fix: a number ends at the digits of its exponent

---
 src/meta_rules/number.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/meta_rules/number.rs b/src/meta_rules/number.rs
index 1a6763e..f22faf3 100644
--- a/src/meta_rules/number.rs
+++ b/src/meta_rules/number.rs
@@ -44,6 +44,21 @@ fn parse_f64(settings: &NumberSettings, src: &str) -> Result<f64, ParseNumberErr
     }
 }
 
+/// Reads number.
+///
+/// `ReadToken::number` also reads a sign or decimal separator that comes
+/// after the digits of the exponent.
+fn read_number(settings: &NumberSettings, read_token: &ReadToken) -> Option<Range> {
+    let range = read_token.number(settings)?;
+    let src = &read_token.src[..range.length];
+    let exponent = src.find(|c| c == 'e' || c == 'E').unwrap_or(src.len());
+    let digits = src[exponent..].find(|c: char| c.is_digit(10))
+        .map(|i| exponent + i).unwrap_or(src.len());
+    let end = src[digits..].find(|c| c == '+' || c == '-' || c == '.')
+        .map(|i| digits + i).unwrap_or(src.len());
+    Some(Range::new(range.offset, end))
+}
+
 impl Number {
     /// Parses number.
     pub fn parse(
@@ -55,7 +70,7 @@ impl Number {
         let settings = NumberSettings {
             allow_underscore: self.allow_underscore
         };
-        if let Some(range) = read_token.number(&settings) {
+        if let Some(range) = read_number(&settings, read_token) {
             match parse_f64(&settings, &read_token.src[..range.length]) {
                 Err(err) => {
                     Err(range.wrap(
-- 
2.43.0


From 98c43085d8838e92e70e6c05255120e0f534f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 15/17] hook: count rule evaluations and conversion steps under
 cfg piston_meta_verif

---
 src/bootstrap/convert.rs |  3 +++
 src/lib.rs               |  4 ++++
 src/meta_rules/lines.rs  |  3 +++
 src/meta_rules/rule.rs   |  3 +++
 src/verif.rs             | 41 ++++++++++++++++++++++++++++++++++++++++
 5 files changed, 54 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index fd176ae..ecb46e2 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -59,7 +59,10 @@ impl<'a> Convert<'a> {
     }
 
     /// Updates with parsed range.
+    #[allow(unknown_lints, unexpected_cfgs)]
     pub fn update(&mut self, range: Range) {
+        #[cfg(piston_meta_verif)]
+        ::verif::spin();
         let next_offset = range.next_offset();
         self.data = &self.data[next_offset - self.offset..];
         self.offset = next_offset;
diff --git a/src/lib.rs b/src/lib.rs
index c3ba175..64e2045 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -163,6 +163,10 @@ mod parse_error;
 mod parse_error_handler;
 pub mod optimize;
 
+#[allow(unknown_lints, unexpected_cfgs)]
+#[cfg(piston_meta_verif)]
+pub mod verif;
+
 mod all {
     pub use super::*;
 }
diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 3d7246f..01e3f56 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -34,12 +34,15 @@ pub struct Lines {
 ///
 /// Returns `Ok(range)` of the successful read lines.
 /// Returns `Err(range)` when expected new line.
+#[allow(unknown_lints, unexpected_cfgs)]
 fn read_lines<F>(start: &ReadToken, mut f: F) -> Result<Range, Range>
     where F: FnMut(&ReadToken) -> Option<Range>
 {
     let mut read_token = *start;
     let mut new_line = true;
     loop {
+        #[cfg(piston_meta_verif)]
+        ::verif::spin();
         let blank = read_token.whitespace().length;
         if blank == read_token.src.len() {
             read_token = read_token.consume(blank);
diff --git a/src/meta_rules/rule.rs b/src/meta_rules/rule.rs
index 94b72c7..5627752 100644
--- a/src/meta_rules/rule.rs
+++ b/src/meta_rules/rule.rs
@@ -64,6 +64,7 @@ pub enum Rule {
 
 impl Rule {
     /// Parses rule.
+    #[allow(unknown_lints, unexpected_cfgs)]
     pub fn parse(
         &self,
         tokens: &mut Vec<Range<MetaData>>,
@@ -72,6 +73,8 @@ impl Rule {
         refs: &[Rule],
         indent_settings: &mut IndentSettings,
     ) -> ParseResult<TokenizerState> {
+        #[cfg(piston_meta_verif)]
+        ::verif::tick();
         match self {
             &Rule::Whitespace(ref w) => {
                 w.parse(read_token).map(|r| (r, state.clone(), None))
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..1e5b8c5
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,41 @@
+//! Counts steps of work, used for verification only.
+
+use std::cell::Cell;
+
+thread_local! {
+    static STEPS: Cell<u64> = Cell::new(0);
+    static SPINS: Cell<u64> = Cell::new(0);
+    static LIMIT: Cell<u64> = Cell::new(u64::MAX);
+}
+
+/// The payload of the unwinding when reaching the limit of steps.
+pub struct LimitReached;
+
+/// Starts counting from zero on this thread, with a limit of steps.
+pub fn start(limit: u64) {
+    STEPS.with(|x| x.set(0));
+    SPINS.with(|x| x.set(0));
+    LIMIT.with(|x| x.set(limit));
+}
+
+/// Returns the number of rule evaluations since `start` on this thread.
+pub fn steps() -> u64 {
+    STEPS.with(|x| x.get())
+}
+
+/// Counts one rule evaluation, unwinding when above the limit.
+pub fn tick() {
+    count(&STEPS)
+}
+
+/// Counts one iteration of another loop, unwinding when above the limit.
+pub fn spin() {
+    count(&SPINS)
+}
+
+fn count(counter: &'static ::std::thread::LocalKey<Cell<u64>>) {
+    let n = counter.with(|x| { x.set(x.get() + 1); x.get() });
+    if n > LIMIT.with(|x| x.get()) {
+        ::std::panic::resume_unwind(Box::new(LimitReached));
+    }
+}
-- 
2.43.0


From e98352b72df9b67e7a56364a5a1939d6d5455691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 16/17] fix: a tab in indention counts as the configured number
 of spaces

---
 src/meta_rules/lines.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 01e3f56..724758a 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -89,37 +89,40 @@ impl Lines {
                 let offset = read_token.offset;
                 let mut read_token = *read_token;
                 if self.indent {
+                    let tab_spaces = indent_settings.tab_spaces as u32;
                     let mut n = indent_settings.indent;
+                    // The spaces of a tab beyond the current indention.
+                    let mut extra = 0;
                     while n > 0 {
                         if let Some(range) = read_token.tag(" ") {
                             read_token = read_token.consume(range.length);
                             n -= 1;
                         } else if let Some(range) = read_token.tag("\t") {
                             read_token = read_token.consume(range.length);
-                            if n <= indent_settings.tab_spaces as u32 {
-                                break
-                            } else {
-                                n -= indent_settings.tab_spaces as u32;
-                            }
+                            extra = tab_spaces.saturating_sub(n);
+                            n = n.saturating_sub(tab_spaces);
                         } else {
                             return None;
                         }
                     }
                     if first && indent_settings.align_first {
                         first = false;
+                        indent_settings.indent += extra;
                         loop {
                             if let Some(range) = read_token.tag(" ") {
                                 read_token = read_token.consume(range.length);
                                 indent_settings.indent += 1;
                             } else if let Some(range) = read_token.tag("\t") {
                                 read_token = read_token.consume(range.length);
-                                indent_settings.indent += indent_settings.tab_spaces as u32;
+                                indent_settings.indent += tab_spaces;
                             } else {
                                 break;
                             }
                         }
                     } else {
-                        if let Some(_) = read_token.tag(" ") {
+                        if extra > 0
+                        || read_token.tag(" ").is_some()
+                        || read_token.tag("\t").is_some() {
                             return None;
                         }
                     }
-- 
2.43.0


From 974435e03f51c22a77e106fd0335d6ade74b6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:05 +0000
Subject: [PATCH 17/17] fix: the range of an invalid escape in a text ends
 behind the character, not inside it

---
 src/meta_rules/text.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/meta_rules/text.rs b/src/meta_rules/text.rs
index 607a461..7650052 100644
--- a/src/meta_rules/text.rs
+++ b/src/meta_rules/text.rs
@@ -37,7 +37,14 @@ impl Text {
             } else {
                 match read_token.parse_string(range.length) {
                     // Focus range to invalid string format.
-                    Err(range_err) => {
+                    Err(mut range_err) => {
+                        // An escaped character can take several bytes,
+                        // include all of them.
+                        while !read_token.src.is_char_boundary(
+                            range_err.next_offset() - read_token.offset
+                        ) {
+                            range_err.length += 1;
+                        }
                         Err(range_err.map(|err|
                             ParseError::ParseStringError(err, self.debug_id)))
                     }
-- 
2.43.0

