From 26df25b4ed7536007048fcfffd6f211b08e3b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 01/11] fix: block string indentation consists of tabs and
 spaces only

Any Unicode white space was counted as indentation, in bytes, so lines that
are indented with multi-byte white space lost it or made the parser panic
when the common indentation ended inside of a character.
---
 src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index cafdd76..1835b81 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -179,7 +179,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
     let mut first_non_empty_line: Option<usize> = None;
     let mut last_non_empty_line = 0;
     for (idx, line) in lines.clone().enumerate() {
-        let indent = line.len() - line.trim_start().len();
+        // Only tabs and spaces are white space, see
+        // https://spec.graphql.org/October2021/#BlockStringValue()
+        let indent = line.len() - line.trim_start_matches([' ', '\t']).len();
         if indent == line.len() {
             continue;
         }
-- 
2.43.0


From 76f9989c94849422faf3ae8afeffeeacfc4aa18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 02/11] fix: decode \b in strings as a backspace (U+0008)

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 1835b81..ca60ee1 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -238,7 +238,7 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
             '\\' => {
                 match chars.next().expect("slash cant be at the end") {
                     c @ '"' | c @ '\\' | c @ '/' => res.push(c),
-                    'b' => res.push('\u{0010}'),
+                    'b' => res.push('\u{0008}'),
                     'f' => res.push('\u{000C}'),
                     'n' => res.push('\n'),
                     'r' => res.push('\r'),
-- 
2.43.0


From 03caf53025c54360eac91fbfbd2651a7526442c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 03/11] fix: accept float exponents that start with 9

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3721eb4..5581a77 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -109,7 +109,7 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
     let first = value.chars().next().unwrap();
-    if first != '-' && first != '+' && (first <= '0' || first >= '9') {
+    if first != '-' && first != '+' && (first <= '0' || first > '9') {
         return false;
     }
 
-- 
2.43.0


From 8bd914cb253a33eb1bd1edb8e591d98c5786894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 04/11] fix: format the variables of subscriptions like those
 of other operations

They were lost when the subscription has no name, and not separated.
---
 src/query/format.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 872dd3d..6cad181 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -193,13 +193,15 @@ impl<'a, T: Text<'a>> Displayable for Subscription<'a, T> {
         if let Some(ref name) = self.name {
             f.write(" ");
             f.write(name.as_ref());
-            if !self.variable_definitions.is_empty() {
-                f.write("(");
-                for var in &self.variable_definitions {
-                    var.display(f);
-                }
-                f.write(")");
+        }
+        if !self.variable_definitions.is_empty() {
+            f.write("(");
+            self.variable_definitions[0].display(f);
+            for var in &self.variable_definitions[1..] {
+                f.write(", ");
+                var.display(f);
             }
+            f.write(")");
         }
         format_directives(&self.directives, f);
         f.write(" ");
-- 
2.43.0


From 035810546621a32175281d9646f1824806a85939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 05/11] fix: format floats as literals that can be parsed

Whole numbers beyond the range of integers were written like integers, infinity
(which the parser returns for 1e999) like an enum value.
---
 src/query/format.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 6cad181..8923eca 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -251,7 +251,19 @@ impl<'a, T: Text<'a>> Displayable for Value<'a, T> {
                 f.write(name.as_ref());
             }
             Value::Int(ref num) => f.write(&format!("{}", num.0)),
-            Value::Float(val) => f.write(&format!("{}", val)),
+            // There is no literal for infinity, only literals that are too large
+            Value::Float(val) if val.is_infinite() => {
+                f.write(if val > 0.0 { "1e999" } else { "-1e999" })
+            }
+            Value::Float(val) => {
+                let text = format!("{}", val);
+                // Whole numbers are written as integers, but only if they are valid ones
+                if text.contains('.') || text.parse::<i64>().is_ok() {
+                    f.write(&text)
+                } else {
+                    f.write(&format!("{:?}", val))
+                }
+            }
             Value::String(ref val) => f.write_quoted(val),
             Value::Boolean(true) => f.write("true"),
             Value::Boolean(false) => f.write("false"),
-- 
2.43.0


From 29225346c3a1e65aecf593f6a2171d1e27aa3bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 06/11] fix: escape control characters in hexadecimal, and only
 them

Characters outside of the basic multilingual plane do not fit in four digits.
---
 src/format.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index de24163..905a838 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -129,8 +129,9 @@ impl<'a> Formatter<'a> {
         for c in s.chars() {
             match c {
                 '\n' => has_newline = true,
-                '\r' | '\t' | '\u{0020}'..='\u{FFFF}' => {}
-                _ => has_nonprintable = true,
+                '\r' | '\t' => {}
+                '\u{0000}'..='\u{001F}' => has_nonprintable = true,
+                _ => {}
             }
         }
         if !has_newline || has_nonprintable {
@@ -143,8 +144,10 @@ impl<'a> Formatter<'a> {
                     '\t' => self.write(r"\t"),
                     '"' => self.write("\\\""),
                     '\\' => self.write(r"\\"),
-                    '\u{0020}'..='\u{FFFF}' => self.buf.push(c),
-                    _ => write!(&mut self.buf, "\\u{:04}", c as u32).unwrap(),
+                    '\u{0000}'..='\u{001F}' => {
+                        write!(&mut self.buf, "\\u{:04x}", c as u32).unwrap()
+                    }
+                    _ => self.buf.push(c),
                 }
             }
             self.buf.push('"');
-- 
2.43.0


From e3ba9d7261af1681e70785ce79f70af51fe50c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 07/11] fix: use block strings only for strings they keep
 unchanged

Leading and trailing blank lines, blanks on blank lines, common indentation
and carriage returns got lost.
---
 src/format.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 905a838..5ae7d5f 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -134,7 +134,7 @@ impl<'a> Formatter<'a> {
                 _ => {}
             }
         }
-        if !has_newline || has_nonprintable {
+        if !has_newline || has_nonprintable || !fits_block_string(s) {
             use std::fmt::Write;
             self.buf.push('"');
             for c in s.chars() {
@@ -156,7 +156,7 @@ impl<'a> Formatter<'a> {
             self.endline();
             self.indent += self.style.indent;
             for line in s.lines() {
-                if !line.trim().is_empty() {
+                if !line.is_empty() {
                     self.indent();
                     self.write(&line.replace(r#"""""#, r#"\""""#));
                 }
@@ -180,6 +180,19 @@ impl<'a> Formatter<'a> {
     }
 }
 
+/// Whether the parser gets the same string back from an indented block string.
+///
+/// It removes blank lines at both ends and the indentation that all lines have
+/// in common, and only knows `\n` as the end of a line.
+fn fits_block_string(s: &str) -> bool {
+    let blank = |line: &str| line.trim_matches([' ', '\t']).is_empty();
+    !s.contains('\r')
+        && !s.split('\n').next().map_or(true, blank)
+        && !s.split('\n').next_back().map_or(true, blank)
+        && s.split('\n').all(|line| line.is_empty() || !blank(line))
+        && s.split('\n').any(|line| !line.is_empty() && !line.starts_with([' ', '\t']))
+}
+
 pub(crate) fn format_directives<'a, T>(dirs: &[Directive<'a, T>], f: &mut Formatter)
 where
     T: crate::common::Text<'a>,
-- 
2.43.0


From 54cc16d07b0f7ef7408c459f4d81a8b621b05096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 08/11] fix: write the mandatory "on" of directive definitions
 without locations

The parser accepts an empty list of locations, but not a missing "on".
---
 src/schema/format.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/schema/format.rs b/src/schema/format.rs
index 6ebc945..6b49d0c 100644
--- a/src/schema/format.rs
+++ b/src/schema/format.rs
@@ -462,17 +462,16 @@ where
         if self.repeatable {
             f.write(" repeatable");
         }
-        if !self.locations.is_empty() {
-            f.write(" on ");
-            let mut first = true;
-            for loc in &self.locations {
-                if first {
-                    first = false;
-                } else {
-                    f.write(" | ");
-                }
-                f.write(loc.as_str());
+        f.write(" on");
+        let mut first = true;
+        for loc in &self.locations {
+            if first {
+                first = false;
+            } else {
+                f.write(" |");
             }
+            f.write(" ");
+            f.write(loc.as_str());
         }
         f.endline();
     }
-- 
2.43.0


From eec72cffaf5c955a480fc87644cbff121208fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 09/11] fix: accept interface extensions that only implement
 interfaces

---
 src/schema/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 263bfa4..62cee67 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -326,11 +326,11 @@ where
         parser(fields),
     )
         .flat_map(|(position, name, interfaces, directives, fields)| {
-            if directives.is_empty() && fields.is_empty() {
+            if interfaces.is_empty() && directives.is_empty() && fields.is_empty() {
                 let mut e = Errors::empty(position);
                 e.add_error(Error::expected_static_message(
                     "Interface type extension should contain at least \
-                     one directive or field.",
+                     one interface, directive or field.",
                 ));
                 return Err(e);
             }
-- 
2.43.0


From bbfc2d2e27f4d04350176569c2a3adef93c04700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 10/11] fix: end numbers at a string or a byte order mark

A number could not be followed directly by a string literal or by an ignored
byte order mark: `[1"a"]` was refused as an unsupported integer.
---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 5581a77..aae4417 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -228,7 +228,9 @@ impl<'a> TokenStream<'a> {
                     match cur_char {
                         // just scan for now, will validate later on
                         ' ' | '\n' | '\r' | '\t' | ',' | '#' | '!' | '$' | ':' | '=' | '@'
-                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' => break idx,
+                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' | '"' | '\u{feff}' => {
+                            break idx
+                        }
                         '.' => real = Some(idx),
                         'e' | 'E' => exponent = Some(idx),
                         _ => {}
-- 
2.43.0


From f484875c33fc4946943633c913c9261516d8336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 11/11] fix: remove the indentation of short blank lines in
 block strings

A blank line with less indentation than the lines of a block string have in
common kept its blanks instead of becoming empty.
---
 src/common.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index ca60ee1..111c108 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -208,8 +208,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
         .take(last_non_empty_line - first_non_empty_line + 1)
         // Remove indent, except the first line.
         .map(|(idx, line)| {
-            if idx != 0 && line.len() >= common_indent {
-                &line[common_indent..]
+            if idx != 0 {
+                // Blank lines may be shorter.
+                line.get(common_indent..).unwrap_or("")
             } else {
                 line
             }
-- 
2.43.0

