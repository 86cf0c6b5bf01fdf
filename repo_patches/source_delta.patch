From a8341b403f54c2fc912dabd9049169dcf9720ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 01/48] Verification hooks: token slots, guarded by
 cfg(sqlparse_verif)

---
 src/keywords.rs |   4 ++
 src/lexer.rs    |   8 +++
 src/lib.rs      |   3 +
 src/verif.rs    | 155 ++++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 170 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/keywords.rs b/src/keywords.rs
index 2297295..5c7b430 100644
--- a/src/keywords.rs
+++ b/src/keywords.rs
@@ -33,6 +33,10 @@ macro_rules! keywords {
             }
         }
 
+        /// The spelling of every keyword, for the verification hooks.
+        #[cfg(sqlparse_verif)]
+        pub const KEYWORD_NAMES: &[&str] = &[$(stringify!($ident)),*];
+
         impl Keyword {
             pub fn name(&self) -> &'static str {
                 match self {
diff --git a/src/lexer.rs b/src/lexer.rs
index 1793ff7..20cfc72 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -229,6 +229,14 @@ impl<'a> Lexer<'a> {
             };
             let t = match c {
                 ' ' | '\t' | '\n' | '\r' => continue,
+                // Verification hook: "\u{1}" and two characters stand for one token.
+                #[cfg(sqlparse_verif)]
+                '\u{1}' => {
+                    let hi = self.chars.next().map_or(0, |(_, c)| c as u32);
+                    let lo = self.chars.next().map_or(0, |(_, c)| c as u32);
+                    let idx = ((hi & 63) << 6) | (lo & 63);
+                    crate::verif::sqlparse_verif_token(idx as usize)
+                }
                 '?' => Token::QuestionMark,
                 ';' => Token::SemiColon,
                 '\\' => Token::Backslash,
diff --git a/src/lib.rs b/src/lib.rs
index 493558c..1a61ae7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -40,6 +40,7 @@
 
 #![no_std]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 extern crate alloc;
 
 use alloc::vec::Vec;
@@ -65,6 +66,8 @@ mod sstring;
 mod statement;
 mod truncate;
 mod update;
+#[cfg(sqlparse_verif)]
+pub mod verif;
 mod with_query;
 
 pub use data_type::{DataType, DataTypeProperty, Type};
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..5c7f5ed
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,155 @@
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Hooks for the verification harness, only compiled with `--cfg sqlparse_verif`.
+//!
+//! The harness lets a whole token be a symbolic variable: the three characters
+//! `"\u{1}"`, `0x40 | idx >> 6` and `0x40 | idx & 63` are read by the lexer as the token
+//! it reads from [slot_text]`(idx)`.
+
+use crate::keywords::KEYWORD_NAMES;
+use crate::lexer::{Lexer, Token};
+
+pub use crate::alter::*;
+pub use crate::create::*;
+pub use crate::data_type::*;
+pub use crate::delete::*;
+pub use crate::drop::*;
+pub use crate::expression::*;
+pub use crate::insert_replace::*;
+pub use crate::rename::*;
+pub use crate::select::*;
+pub use crate::statement::*;
+pub use crate::truncate::*;
+pub use crate::update::*;
+pub use crate::with_query::*;
+
+/// Tokens other than upper case keywords.
+const EXTRA: &[&str] = &[
+    "abc",
+    "Tbl_1",
+    "_x9",
+    "xy",
+    "X",
+    "e1",
+    "`q1`",
+    "`select`",
+    "`a-b`",
+    "``",
+    "select",
+    "Select",
+    "sELECT",
+    "from",
+    "where",
+    "Not",
+    "null",
+    "as",
+    "count",
+    "current_date",
+    "0",
+    "7",
+    "007",
+    "255",
+    "4294967295",
+    "4294967296",
+    "9223372036854775807",
+    "9223372036854775808",
+    "18446744073709551615",
+    "18446744073709551616",
+    "99999999999999999999999999",
+    "1.5",
+    ".5",
+    "1.",
+    "0.0",
+    "123456789.987654321",
+    "'x'",
+    "\"y\"",
+    "''",
+    "\"\"",
+    "'it''s'",
+    "'a\\'b'",
+    "\"q\"\"r\"",
+    "'say \"hi\"'",
+    "'\u{e6}\u{4e2d}'",
+    "'1 2'",
+    "'3:4'",
+    "?",
+    "%s",
+    "$1",
+    "$2",
+    "$10",
+    "&",
+    "@",
+    "\\",
+    "^",
+    ":",
+    ",",
+    "/",
+    "::",
+    "!!",
+    "&&",
+    "||",
+    "$$",
+    "=",
+    "!",
+    ">",
+    ">=",
+    "{",
+    "[",
+    "(",
+    "<",
+    "<=",
+    "-",
+    "%",
+    "*",
+    "!=",
+    "<>",
+    ".",
+    "|",
+    "+",
+    "=>",
+    "}",
+    "]",
+    ")",
+    ";",
+    "#",
+    "<<",
+    ">>",
+    "<=>",
+    "~",
+    "@@GLOBAL",
+    "@@session",
+    "$",
+    "\u{e6}",
+];
+
+/// The number of tokens a slot can stand for.
+pub fn slot_count() -> usize {
+    KEYWORD_NAMES.len() + EXTRA.len()
+}
+
+/// The text of a token.
+pub fn slot_text(idx: usize) -> &'static str {
+    if idx < KEYWORD_NAMES.len() {
+        KEYWORD_NAMES[idx]
+    } else if idx - KEYWORD_NAMES.len() < EXTRA.len() {
+        EXTRA[idx - KEYWORD_NAMES.len()]
+    } else {
+        "\u{7f}"
+    }
+}
+
+/// The token the lexer reads from the text of a slot.
+#[inline(never)]
+pub(crate) fn sqlparse_verif_token(idx: usize) -> Token<'static> {
+    Lexer::new(slot_text(idx)).next_token().0
+}
-- 
2.43.0


From 2c4bcda647335ebc8e36b04b7d79e907703857a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 02/48] Verification hooks: keywords in small and mixed
 letters, guarded by cfg(sqlparse_verif)

---
 src/verif.rs | 58 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index 5c7f5ed..d12f7c8 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -137,12 +137,64 @@ pub fn slot_count() -> usize {
     KEYWORD_NAMES.len() + EXTRA.len()
 }
 
+/// Number of the first slot with keywords in small letters, and in mixed letters.
+pub const SMALL: usize = 1024;
+pub const MIXED: usize = 2048;
+
+const TOTAL: usize = {
+    let mut n = 0;
+    let mut i = 0;
+    while i < KEYWORD_NAMES.len() {
+        n += KEYWORD_NAMES[i].len();
+        i += 1;
+    }
+    n
+};
+const OFFSETS: [usize; KEYWORD_NAMES.len() + 1] = {
+    let mut o = [0; KEYWORD_NAMES.len() + 1];
+    let mut i = 0;
+    while i < KEYWORD_NAMES.len() {
+        o[i + 1] = o[i] + KEYWORD_NAMES[i].len();
+        i += 1;
+    }
+    o
+};
+const fn spell(mixed: bool) -> [u8; TOTAL] {
+    let mut o = [0; TOTAL];
+    let mut i = 0;
+    while i < KEYWORD_NAMES.len() {
+        let name = KEYWORD_NAMES[i].as_bytes();
+        let mut j = 0;
+        while j < name.len() {
+            o[OFFSETS[i] + j] = if mixed && j % 2 == 0 {
+                name[j]
+            } else {
+                name[j].to_ascii_lowercase()
+            };
+            j += 1;
+        }
+        i += 1;
+    }
+    o
+}
+static SMALL_TEXT: [u8; TOTAL] = spell(false);
+static MIXED_TEXT: [u8; TOTAL] = spell(true);
+
 /// The text of a token.
 pub fn slot_text(idx: usize) -> &'static str {
-    if idx < KEYWORD_NAMES.len() {
-        KEYWORD_NAMES[idx]
+    let (table, i) = if idx >= MIXED {
+        (&MIXED_TEXT, idx - MIXED)
+    } else if idx >= SMALL {
+        (&SMALL_TEXT, idx - SMALL)
+    } else if idx < KEYWORD_NAMES.len() {
+        return KEYWORD_NAMES[idx];
     } else if idx - KEYWORD_NAMES.len() < EXTRA.len() {
-        EXTRA[idx - KEYWORD_NAMES.len()]
+        return EXTRA[idx - KEYWORD_NAMES.len()];
+    } else {
+        return "\u{7f}";
+    };
+    if i < KEYWORD_NAMES.len() {
+        core::str::from_utf8(&table[OFFSETS[i]..OFFSETS[i + 1]]).unwrap_or("\u{7f}")
     } else {
         "\u{7f}"
     }
-- 
2.43.0


From 2ef6e0df06fe0d1c21dfe98b5767f50678114228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 03/48] fix: report a hexadecimal literal instead of panicking

---
 src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 20cfc72..36a24ec 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -445,7 +445,10 @@ impl<'a> Lexer<'a> {
                 },
                 'x' | 'X' => match self.chars.peek() {
                     Some((_, '\'')) => {
-                        todo!("Hex literal")
+                        // TODO hex literals are not supported
+                        self.chars.next();
+                        while !matches!(self.chars.next(), Some((_, '\'')) | None) {}
+                        Token::Invalid
                     }
                     _ => self.simple_literal(start),
                 },
-- 
2.43.0


From f010b5b5d7564d523e41187bef8e6d8e000bf539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 04/48] fix: report an argument number that does not fit
 instead of overflowing

---
 src/lexer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 36a24ec..55488a4 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -341,14 +341,16 @@ impl<'a> Lexer<'a> {
                         Token::DoubleDollar
                     }
                     Some((_, '1'..='9')) => {
-                        let mut v = self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
-                        self.chars.next();
-                        while matches!(self.chars.peek(), Some((_, '0'..='9'))) {
-                            v = v * 10
-                                + self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                        let mut v = Some(0usize);
+                        while let Some((_, c @ '0'..='9')) = self.chars.peek() {
+                            let d = *c as usize - '0' as usize;
+                            v = v.and_then(|v| v.checked_mul(10)?.checked_add(d));
                             self.chars.next();
                         }
-                        Token::DollarArg(v)
+                        match v {
+                            Some(v) => Token::DollarArg(v),
+                            None => Token::Invalid,
+                        }
                     }
                     _ => Token::Invalid,
                 },
-- 
2.43.0


From fd4f3d71017e24a6bdd64dc62c4b785d1bab1929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 05/48] fix: stop at the end of the text after DELIMITER

---
 src/statement.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index 2ce3b8a..32044a5 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -853,6 +853,10 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
         if parser.skip_keyword(Keyword::DELIMITER).is_some() {
             let t = parser.token.clone();
 
+            if matches!(t, Token::Eof) {
+                parser.expected_error("delimiter");
+                return ans;
+            }
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-- 
2.43.0


From 9e96159ba5249c876b6466abaf28345e7f141809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 06/48] fix: decode doubled quotes and escapes in string
 literals

---
 src/parser.rs | 61 +++++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 287a6dc..5c16a67 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -36,44 +36,47 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) permit_compound_statements: bool,
 }
 
-pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('\'') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
+/// Decode the content of a string literal quoted with `quote`
+fn decode_quoted_string(s: &str, quote: char) -> Cow<'_, str> {
+    if !s.contains(quote) && !s.contains('\\') {
+        return s.into();
+    }
+    let mut r = String::new();
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        if c == quote {
+            // A quote is written twice
+            chars.next();
+            r.push(quote);
+        } else if c == '\\' {
             match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
+                Some('0') => r.push('\0'),
+                Some('b') => r.push('\u{8}'),
+                Some('n') => r.push('\n'),
+                Some('r') => r.push('\r'),
+                Some('t') => r.push('\t'),
+                Some('Z') => r.push('\u{1a}'),
+                // These keep the backslash as they are for patterns
+                Some(c @ ('%' | '_')) => {
+                    r.push('\\');
+                    r.push(c);
                 }
                 Some(c) => r.push(c),
+                None => r.push('\\'),
             }
+        } else {
+            r.push(c);
         }
-        r.into()
     }
+    r.into()
+}
+
+pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
+    decode_quoted_string(s, '\'')
 }
 
 pub(crate) fn decode_double_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('"') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
-            match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
-                }
-                Some(c) => r.push(c),
-            }
-        }
-        r.into()
-    }
+    decode_quoted_string(s, '"')
 }
 
 impl<'a, 'b> Parser<'a, 'b> {
-- 
2.43.0


From 196bae3658e66aa2efb2eb3720e9cd382318ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 07/48] fix: AND binds tighter than XOR, which binds tighter
 than OR

---
 src/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 8475020..aa77ecc 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -951,9 +951,9 @@ trait Priority {
 impl Priority for BinaryOperator {
     fn priority(&self) -> usize {
         match self {
-            BinaryOperator::Or => 140,
+            BinaryOperator::Or => 160,
             BinaryOperator::Xor => 150,
-            BinaryOperator::And => 160,
+            BinaryOperator::And => 140,
             BinaryOperator::Eq => 110,
             BinaryOperator::NullSafeEq => 110,
             BinaryOperator::GtEq => 110,
-- 
2.43.0


From 7b2739051ff23b9fb792179477ddc949c61aa591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 08/48] fix: the names of << and >> in messages

---
 src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 55488a4..f43fc80 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -110,8 +110,8 @@ impl<'a> Token<'a> {
             Token::RParen => "')'",
             Token::SemiColon => "';'",
             Token::Sharp => "'#'",
-            Token::ShiftLeft => "'>>'",
-            Token::ShiftRight => "'<<'",
+            Token::ShiftLeft => "'<<'",
+            Token::ShiftRight => "'>>'",
             Token::DoubleDollar => "'$$'",
             Token::DollarArg(v) if *v == 1 => "'$1'",
             Token::DollarArg(v) if *v == 2 => "'$2'",
-- 
2.43.0


From 85e5baac6be4bea9518ddfd4fa9bc1300d4863be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 09/48] fix: warn about unquoted identifiers instead of
 rejecting them

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5c16a67..378be15 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -251,7 +251,7 @@ impl<'a, 'b> Parser<'a, 'b> {
                 } else if kw != &Keyword::QUOTED_IDENTIFIER
                     && self.options.warn_unquoted_identifiers
                 {
-                    self.err(
+                    self.warn(
                         format!("identifiers should be quoted as `{}`", v),
                         &self.span.span(),
                     );
-- 
2.43.0


From d933df86e553aa7cba154623273f046d7e23a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 10/48] fix: do not ask for ALL CAPS when a keyword has an
 underscore or a digit

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 378be15..c4c47c5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -274,7 +274,7 @@ impl<'a, 'b> Parser<'a, 'b> {
     pub(crate) fn consume_keyword(&mut self, keyword: Keyword) -> Result<Span, ParseError> {
         match &self.token {
             Token::Ident(v, kw) if kw == &keyword => {
-                if !v.chars().all(|c| c.is_ascii_uppercase())
+                if v.chars().any(|c| c.is_ascii_lowercase())
                     && self.options.warn_none_capital_keywords
                 {
                     self.warn(
-- 
2.43.0


From e1ad7f6fb8e49d8a06e951e8d08f3e161ef2c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 11/48] fix: reject quoted identifiers in postgresql wherever
 they stand

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index c4c47c5..7f8aab0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -232,6 +232,9 @@ impl<'a, 'b> Parser<'a, 'b> {
                     && self.options.warn_unquoted_identifiers
                 {
                     self.warn(format!("identifiers should be quoted as `{}`", v), &span);
+                } else if kw == &Keyword::QUOTED_IDENTIFIER && self.options.dialect.is_postgresql()
+                {
+                    self.err("quoted identifiers not supported by postgresql", &span);
                 }
                 Ok(Identifier::new(v, span))
             }
-- 
2.43.0


From ba9ef63a6c1682fec2a18b1ad015a1fea693afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 12/48] fix: reject a float that does not fit

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7f8aab0..12726f2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -388,9 +388,11 @@ impl<'a, 'b> Parser<'a, 'b> {
     ) -> Result<(T, Span), ParseError> {
         match &self.token {
             Token::Float(v) => {
+                // Rust parses a float that is too large as infinity
+                let finite = v.parse().is_ok_and(f64::is_finite);
                 let v = match v.parse() {
-                    Ok(v) => v,
-                    Err(_) => self.err_here("float outside range").unwrap_or_default(),
+                    Ok(v) if finite => v,
+                    _ => self.err_here("float outside range").unwrap_or_default(),
                 };
                 let span = self.span.clone();
                 self.next();
-- 
2.43.0


From 1dcabe3970c866e7d579786eccd5bc17947448bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 13/48] fix: the span of a select includes its locking clause

---
 src/select.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/select.rs b/src/select.rs
index fa4da15..eae7132 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -651,6 +651,7 @@ impl<'a> Spanned for Select<'a> {
             .join_span(&self.window_span)
             .join_span(&self.order_by)
             .join_span(&self.limit)
+            .join_span(&self.locking)
     }
 }
 
-- 
2.43.0


From 52aa5e6930714f19a219fed994b412cdd00d8248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:43 +0000
Subject: [PATCH 14/48] fix: the span of DROP TABLE includes CASCADE

---
 src/drop.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drop.rs b/src/drop.rs
index 7bcd1ca..53c2e7c 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -61,6 +61,7 @@ impl<'a> Spanned for DropTable<'a> {
             .join_span(&self.table_span)
             .join_span(&self.if_exists)
             .join_span(&self.tables)
+            .join_span(&self.cascade)
     }
 }
 
-- 
2.43.0


From 41add2eff4da84c6e405bb797db2fb14f3ca0025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:43 +0000
Subject: [PATCH 15/48] fix: the span of an insert includes its columns

---
 src/insert_replace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/insert_replace.rs b/src/insert_replace.rs
index 6775bb5..6441516 100644
--- a/src/insert_replace.rs
+++ b/src/insert_replace.rs
@@ -248,6 +248,7 @@ impl<'a> Spanned for InsertReplace<'a> {
             .join_span(&self.flags)
             .join_span(&self.into_span)
             .join_span(&self.table)
+            .join_span(&self.columns)
             .join_span(&self.values)
             .join_span(&self.select)
             .join_span(&self.set)
-- 
2.43.0


From c0a381223216fde9db74f59ce83b523e304beafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 16/48] fix: the span of CREATE FUNCTION includes its
 parameters and RETURNS

---
 src/create.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/create.rs b/src/create.rs
index 2fe2eb7..0076070 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -19,7 +19,7 @@ use crate::{
     parser::{ParseError, Parser},
     qualified_name::parse_qualified_name,
     statement::{parse_compound_query, parse_statement},
-    DataType, Expression, Identifier, QualifiedName, SString, Span, Spanned, Statement,
+    DataType, Expression, Identifier, OptSpanned, QualifiedName, SString, Span, Spanned, Statement,
 };
 
 /// Options on created table
@@ -556,11 +556,21 @@ pub struct CreateFunction<'a> {
 
 impl<'a> Spanned for CreateFunction<'a> {
     fn span(&self) -> Span {
+        let mut params_span = None;
+        for (direction, name, type_) in &self.params {
+            params_span = params_span
+                .opt_join_span(direction)
+                .opt_join_span(name)
+                .opt_join_span(type_)
+        }
+
         self.create_span
             .join_span(&self.create_options)
             .join_span(&self.function_span)
             .join_span(&self.if_not_exists)
             .join_span(&self.name)
+            .join_span(&params_span)
+            .join_span(&self.returns_span)
             .join_span(&self.return_type)
             .join_span(&self.characteristics)
             .join_span(&self.return_)
-- 
2.43.0


From bda25eec05dab414569af93a513ec8c4a09b47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 17/48] fix: the span of CREATE INDEX includes IF NOT EXISTS

---
 src/create.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/create.rs b/src/create.rs
index 0076070..7b3db39 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -1011,6 +1011,7 @@ impl<'a> Spanned for CreateIndex<'a> {
         self.create_span
             .join_span(&self.create_options)
             .join_span(&self.index_span)
+            .join_span(&self.if_not_exists)
             .join_span(&self.index_name)
             .join_span(&self.on_span)
             .join_span(&self.table_name)
-- 
2.43.0


From f99a54c9380349d885e8f6bb9e0ea6b500581ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 18/48] fix: the span of NATURAL LEFT JOIN and NATURAL RIGHT
 JOIN includes NATURAL

---
 src/select.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index eae7132..0bd879e 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -404,12 +404,16 @@ pub(crate) fn parse_table_reference<'a>(
                         let left = parser.consume_keyword(Keyword::LEFT)?;
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalLeft(
-                                left.join_span(&outer)
+                                natural
+                                    .join_span(&left)
+                                    .join_span(&outer)
                                     .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         } else {
                             JoinType::NaturalLeft(
-                                left.join_span(&parser.consume_keyword(Keyword::JOIN)?),
+                                natural
+                                    .join_span(&left)
+                                    .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         }
                     }
@@ -417,13 +421,16 @@ pub(crate) fn parse_table_reference<'a>(
                         let right = parser.consume_keyword(Keyword::RIGHT)?;
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalRight(
-                                right
+                                natural
+                                    .join_span(&right)
                                     .join_span(&outer)
                                     .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         } else {
                             JoinType::NaturalRight(
-                                right.join_span(&parser.consume_keyword(Keyword::JOIN)?),
+                                natural
+                                    .join_span(&right)
+                                    .join_span(&parser.consume_keyword(Keyword::JOIN)?),
                             )
                         }
                     }
-- 
2.43.0


From 87a702907f37fa5112a387d4b1bddb3af3ca4efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 19/48] fix: accept SET DEFAULT as a foreign key action

---
 src/alter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alter.rs b/src/alter.rs
index 5debe01..e04030d 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -469,7 +469,7 @@ fn parse_add_alter_specification<'a>(
                             Token::Ident(_, Keyword::NULL) => ForeignKeyOnAction::SetNull(
                                 parser.consume_keyword(Keyword::NULL)?.join_span(&set),
                             ),
-                            Token::Ident(_, Keyword::DELETE) => ForeignKeyOnAction::SetDefault(
+                            Token::Ident(_, Keyword::DEFAULT) => ForeignKeyOnAction::SetDefault(
                                 parser.consume_keyword(Keyword::DEFAULT)?.join_span(&set),
                             ),
                             _ => parser.expected_failure("'NULL' or 'DEFAULT'")?,
-- 
2.43.0


From 7416ec4c8dc49fb81fbecd4408c5c57e8f338dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 20/48] fix: record NO ACTION as a foreign key action

---
 src/alter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alter.rs b/src/alter.rs
index e04030d..aa5f34b 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -475,7 +475,7 @@ fn parse_add_alter_specification<'a>(
                             _ => parser.expected_failure("'NULL' or 'DEFAULT'")?,
                         }
                     }
-                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::SetNull(
+                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::NoAction(
                         parser.consume_keywords(&[Keyword::NO, Keyword::ACTION])?,
                     ),
                     _ => parser.expected_failure("'RESTRICT' or 'CASCADE', 'SET' or 'NO")?,
-- 
2.43.0


From 39135768ce03d7ef120a5a78ff612b289f75de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 21/48] fix: record the type of SPATIAL and UNIQUE indexes

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index aa5f34b..b00c77b 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -526,7 +526,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Spatial(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
@@ -536,7 +536,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Unique(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
-- 
2.43.0


From 8e2cb64804ab44c4290f52c2a0e6b7a4e44be59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 22/48] fix: accept ADD UNIQUE without KEY or INDEX

---
 src/alter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alter.rs b/src/alter.rs
index b00c77b..b8a7bcb 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -538,7 +538,7 @@ fn parse_add_alter_specification<'a>(
                             let kw = *kw;
                             IndexType::Unique(parser.consume_keyword(kw)?.join_span(&s))
                         }
-                        _ => parser.expected_failure("'KEY' or 'INDEX'")?,
+                        _ => IndexType::Unique(s),
                     }
                 }
                 _ => parser.ice(file!(), line!())?,
-- 
2.43.0


From 03cbe1b83c91debbe9dbd162a71c5ba7ba7ed605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 23/48] fix: record COLLATE on a data type as a collation

---
 src/data_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 77d4307..46b6eaa 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -420,7 +420,7 @@ pub(crate) fn parse_data_type<'a>(
             }
             Token::Ident(_, Keyword::COLLATE) => {
                 parser.consume_keyword(Keyword::COLLATE)?;
-                properties.push(DataTypeProperty::Charset(
+                properties.push(DataTypeProperty::Collate(
                     parser.consume_plain_identifier()?,
                 ));
             }
-- 
2.43.0


From 59481b1d2584f1f89c8ca963244295d0bddf2e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 24/48] fix: a trigger that fails to parse does not change how
 later statements are parsed

---
 src/create.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index 7b3db39..0606a5e 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -891,11 +891,12 @@ fn parse_create_trigger<'a>(
     // TODO [{ FOLLOWS | PRECEDES } other_trigger_name ]
 
     let old = core::mem::replace(&mut parser.permit_compound_statements, true);
-    let statement = match parse_statement(parser)? {
+    let statement = parse_statement(parser);
+    parser.permit_compound_statements = old;
+    let statement = match statement? {
         Some(v) => v,
         None => parser.expected_failure("statement")?,
     };
-    parser.permit_compound_statements = old;
 
     Ok(Statement::CreateTrigger(CreateTrigger {
         create_span,
-- 
2.43.0


From eb0b02ab95f2ea48cef87242522f2a9e96767663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 25/48] fix: END ends the enclosing statement list also outside
 of triggers

---
 src/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index 32044a5..e5525b6 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -96,8 +96,10 @@ fn parse_statement_list<'a>(
     out: &mut Vec<Statement<'a>>,
 ) -> Result<(), ParseError> {
     let old_delimiter = core::mem::replace(&mut parser.delimiter, Token::SemiColon);
+    let old_permit = core::mem::replace(&mut parser.permit_compound_statements, true);
     let r = parse_statement_list_inner(parser, out);
     parser.delimiter = old_delimiter;
+    parser.permit_compound_statements = old_permit;
     r
 }
 
-- 
2.43.0


From e50fb32aee124cbb17f911d2886005a4a64b830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 26/48] fix: accept a block as the body of a function

---
 src/create.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/create.rs b/src/create.rs
index 0606a5e..8b17185 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -709,7 +709,10 @@ fn parse_create_function<'a>(
     }
 
     let return_ = if parser.options.dialect.is_maria() {
-        match parse_statement(parser)? {
+        let old = core::mem::replace(&mut parser.permit_compound_statements, true);
+        let statement = parse_statement(parser);
+        parser.permit_compound_statements = old;
+        match statement? {
             Some(v) => Some(Box::new(v)),
             None => parser.expected_failure("statement")?,
         }
-- 
2.43.0


From af03252d868bb23150d45aa7658e3534789cfa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 27/48] fix: a case statement ends with END CASE

---
 src/statement.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/statement.rs b/src/statement.rs
index e5525b6..38b536b 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -563,7 +563,7 @@ pub struct CaseStatement<'a> {
     pub whens: Vec<WhenStatement<'a>>,
     /// Span of "ELSE" and statement to execute if specified
     pub else_: Option<(Span, Vec<Statement<'a>>)>,
-    /// Span of "END"
+    /// Span of "END" or "END CASE"
     pub end_span: Span,
 }
 
@@ -618,6 +618,10 @@ pub(crate) fn parse_case_statement<'a>(
         },
     )?;
     let end_span = parser.consume_keyword(Keyword::END)?;
+    let end_span = match parser.skip_keyword(Keyword::CASE) {
+        Some(case_span) => end_span.join_span(&case_span),
+        None => end_span,
+    };
     Ok(CaseStatement {
         case_span,
         value,
-- 
2.43.0


From 786ec987c0e7862cc8c7343ec31449655df3bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 28/48] fix: a WITH block that fails to parse is not a BEGIN
 statement

---
 src/with_query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/with_query.rs b/src/with_query.rs
index 2fb94ae..4ddcb67 100644
--- a/src/with_query.rs
+++ b/src/with_query.rs
@@ -107,7 +107,7 @@ pub(crate) fn parse_with_query<'a>(
                 }
                 v
             }
-            None => Statement::Begin(lparen_span.clone()),
+            None => Statement::Invalid(lparen_span.clone()),
         };
         with_blocks.push(WithBlock {
             identifier,
-- 
2.43.0


From 55ba7fbaf92027b9af0d9df3feb4f01f1a092894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 29/48] fix: INTERSECT is a reserved word

---
 src/keywords.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keywords.rs b/src/keywords.rs
index 5c7b430..f834b0c 100644
--- a/src/keywords.rs
+++ b/src/keywords.rs
@@ -403,7 +403,6 @@ INT8
 INT8_OPS
 INTEGER
 INTERSECT
-INTERSECTA
 INTERVAL
 INTO
 INVISIBLE
@@ -1066,7 +1065,7 @@ INT3
 INT4
 INT8
 INTEGER
-INTERSECTA
+INTERSECT
 INTERVAL
 INTO
 IS
-- 
2.43.0


From 089c25f0581ef5114033db0ff57e79929d455bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 30/48] fix: accept quoted table names in postgresql

---
 src/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index 0bd879e..6b7b238 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -262,7 +262,7 @@ pub(crate) fn parse_table_reference_inner<'a>(
                 as_,
             })
         }
-        Token::Ident(_, _) => {
+        Token::Ident(_, _) | Token::DoubleQuotedString(_) => {
             let identifier = parse_qualified_name(parser)?;
 
             // TODO [PARTITION (partition_names)] [[AS] alias]
-- 
2.43.0


From 79b9748227306df0186c395f7b8e3aaa42041de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 31/48] fix: the span of a block goes from BEGIN to END, also
 when it is empty

---
 src/statement.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index 38b536b..a496f91 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -122,8 +122,10 @@ fn parse_commit(parser: &mut Parser<'_, '_>) -> Result<Span, ParseError> {
     parser.consume_keyword(Keyword::COMMIT)
 }
 
-fn parse_block<'a>(parser: &mut Parser<'a, '_>) -> Result<Vec<Statement<'a>>, ParseError> {
-    parser.consume_keyword(Keyword::BEGIN)?;
+fn parse_block<'a>(
+    parser: &mut Parser<'a, '_>,
+) -> Result<(Vec<Statement<'a>>, Span), ParseError> {
+    let begin_span = parser.consume_keyword(Keyword::BEGIN)?;
     let mut ans = Vec::new();
     parser.recovered(
         "'END' | 'EXCEPTION'",
@@ -143,8 +145,8 @@ fn parse_block<'a>(parser: &mut Parser<'a, '_>) -> Result<Vec<Statement<'a>>, Pa
             parser.consume_token(Token::SemiColon)?;
         }
     }
-    parser.consume_keyword(Keyword::END)?;
-    Ok(ans)
+    let end_span = parser.consume_keyword(Keyword::END)?;
+    Ok((ans, begin_span.join_span(&end_span)))
 }
 
 /// Condition in if statement
@@ -407,7 +409,8 @@ pub enum Statement<'a> {
     Set(Set<'a>),
     Signal(Signal<'a>),
     AlterTable(AlterTable<'a>),
-    Block(Vec<Statement<'a>>), //TODO we should include begin and end
+    /// Statements of the block, and the span from "BEGIN" to "END"
+    Block(Vec<Statement<'a>>, Span),
     Begin(Span),
     End(Span),
     Commit(Span),
@@ -420,7 +423,8 @@ pub enum Statement<'a> {
     Copy(Copy<'a>),
     Stdin(&'a str, Span),
     CreateTypeEnum(CreateTypeEnum<'a>),
-    Do(Vec<Statement<'a>>),
+    /// Statements of the block, and the span from "DO" to the last "$$"
+    Do(Vec<Statement<'a>>, Span),
     TruncateTable(TruncateTable<'a>),
     RenameTable(RenameTable<'a>),
     WithQuery(WithQuery<'a>),
@@ -450,7 +454,7 @@ impl<'a> Spanned for Statement<'a> {
             Statement::DropView(v) => v.span(),
             Statement::Set(v) => v.span(),
             Statement::AlterTable(v) => v.span(),
-            Statement::Block(v) => v.opt_span().expect("Span of block"),
+            Statement::Block(_, s) => s.clone(),
             Statement::If(v) => v.span(),
             Statement::Invalid(v) => v.span(),
             Statement::Union(v) => v.span(),
@@ -462,7 +466,7 @@ impl<'a> Spanned for Statement<'a> {
             Statement::Commit(s) => s.clone(),
             Statement::StartTransaction(s) => s.clone(),
             Statement::CreateTypeEnum(v) => v.span(),
-            Statement::Do(v) => v.opt_span().expect("Span of block"),
+            Statement::Do(_, s) => s.clone(),
             Statement::TruncateTable(v) => v.span(),
             Statement::RenameTable(v) => v.span(),
             Statement::WithQuery(v) => v.span(),
@@ -496,7 +500,8 @@ pub(crate) fn parse_statement<'a>(
         Token::Ident(_, Keyword::SET) => Some(Statement::Set(parse_set(parser)?)),
         Token::Ident(_, Keyword::SIGNAL) => Some(Statement::Signal(parse_signal(parser)?)),
         Token::Ident(_, Keyword::BEGIN) => Some(if parser.permit_compound_statements {
-            Statement::Block(parse_block(parser)?)
+            let (block, span) = parse_block(parser)?;
+            Statement::Block(block, span)
         } else {
             Statement::Begin(parse_begin(parser)?)
         }),
@@ -523,11 +528,11 @@ pub(crate) fn parse_statement<'a>(
 }
 
 pub(crate) fn parse_do<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a>, ParseError> {
-    parser.consume_keyword(Keyword::DO)?;
-    parser.consume_token(Token::DoubleDollar)?;
-    let block = parse_block(parser)?;
+    let do_span = parser.consume_keyword(Keyword::DO)?;
     parser.consume_token(Token::DoubleDollar)?;
-    Ok(Statement::Do(block))
+    let (block, _) = parse_block(parser)?;
+    let end_span = parser.consume_token(Token::DoubleDollar)?;
+    Ok(Statement::Do(block, do_span.join_span(&end_span)))
 }
 
 /// When part of case statement
-- 
2.43.0


From 5295118973f5b7032385c23fdfbd6bede21ac811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 32/48] fix: accept NOT DETERMINISTIC after the return type of
 a function

---
 src/data_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_type.rs b/src/data_type.rs
index 46b6eaa..f3bd905 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -407,6 +407,10 @@ pub(crate) fn parse_data_type<'a>(
                 parser.consume_keyword(Keyword::NULL)?,
             )),
             Token::Ident(_, Keyword::NOT) => {
+                // "NOT DETERMINISTIC" is a characteristic of a function, not a property of its return type
+                if matches!(parser.peek(), Token::Ident(_, Keyword::DETERMINISTIC)) {
+                    break;
+                }
                 let start = parser.consume_keyword(Keyword::NOT)?.start;
                 properties.push(DataTypeProperty::NotNull(
                     start..parser.consume_keyword(Keyword::NULL)?.end,
-- 
2.43.0


From bf08b1df4fab6683d515d493d11719290a6d19ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 33/48] fix: report TEMPORARY where it cannot stand in a DROP

---
 src/drop.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/drop.rs b/src/drop.rs
index 53c2e7c..bd6688c 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -339,6 +339,14 @@ impl<'a> Spanned for DropTrigger<'a> {
 pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a>, ParseError> {
     let drop_span = parser.consume_keyword(Keyword::DROP)?;
     let temporary = parser.skip_keyword(Keyword::TEMPORARY);
+    if let Some(span) = &temporary {
+        if !matches!(
+            &parser.token,
+            Token::Ident(_, Keyword::TABLE | Keyword::VIEW | Keyword::SEQUENCE)
+        ) {
+            parser.err("TEMPORARY not supported here", span);
+        }
+    }
     match &parser.token {
         Token::Ident(_, Keyword::TABLE) => {
             let table_span = parser.consume_keyword(Keyword::TABLE)?;
@@ -369,7 +377,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             }))
         }
         Token::Ident(_, kw @ Keyword::DATABASE | kw @ Keyword::SCHEMA) => {
-            // TODO complain about temporary
             let kw = *kw;
             let database_span = parser.consume_keyword(kw)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
@@ -386,7 +393,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             }))
         }
         Token::Ident(_, Keyword::EVENT) => {
-            // TODO complain about temporary
             let event_span = parser.consume_keyword(Keyword::EVENT)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
@@ -402,7 +408,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             }))
         }
         Token::Ident(_, Keyword::FUNCTION) => {
-            // TODO complain about temporary
             let function_span = parser.consume_keyword(Keyword::FUNCTION)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
@@ -450,7 +455,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             Ok(Statement::DropIndex(v))
         }
         Token::Ident(_, Keyword::PROCEDURE) => {
-            // TODO complain about temporary
             let procedure_span = parser.consume_keyword(Keyword::PROCEDURE)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
@@ -470,7 +474,6 @@ pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a
             parser.todo(file!(), line!())
         }
         Token::Ident(_, Keyword::SERVER) => {
-            // TODO complain about temporary
             let server_span = parser.consume_keyword(Keyword::SERVER)?;
             let if_exists = if let Some(span) = parser.skip_keyword(Keyword::IF) {
                 Some(parser.consume_keyword(Keyword::EXISTS)?.join_span(&span))
-- 
2.43.0


From 825748dba2946f7f66f6c12374c55a690ee511cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 34/48] fix: report CONSTRAINT before ADD COLUMN

---
 src/alter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/alter.rs b/src/alter.rs
index b8a7bcb..879ed32 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -577,6 +577,9 @@ fn parse_add_alter_specification<'a>(
             })
         }
         Token::Ident(_, Keyword::COLUMN) => {
+            if let Some((span, _)) = &constraint {
+                parser.err("CONSTRAINT not supported for columns", span);
+            }
             parser.consume_keyword(Keyword::COLUMN)?;
             let mut if_not_exists_span = None;
             if matches!(parser.token, Token::Ident(_, Keyword::IF)) {
-- 
2.43.0


From 9aec0199acfcd983edcba25ceba35d2c2a4f0f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 35/48] fix: the span of CREATE TABLE does not start at the
 beginning of the text when the name is missing

---
 src/create.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/create.rs b/src/create.rs
index 8b17185..41c3492 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -1111,7 +1111,7 @@ fn parse_create_table<'a>(
     let table_span = parser.consume_keyword(Keyword::TABLE)?;
 
     let mut identifier = QualifiedName {
-        identifier: Identifier::new("", 0..0),
+        identifier: Identifier::new("", table_span.end..table_span.end),
         prefix: Default::default(),
     };
     let mut if_not_exists = None;
-- 
2.43.0


From f094ab905848e53ee7f809dbd24177ce7a6cbebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 36/48] fix: report a malformed token after DELIMITER

---
 src/statement.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index a496f91..9bbb8c0 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -868,6 +868,11 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
                 parser.expected_error("delimiter");
                 return ans;
             }
+            if matches!(t, Token::Invalid) {
+                parser.expected_error("delimiter");
+                parser.next();
+                continue;
+            }
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-- 
2.43.0


From 8ddffb1eb3589211e2dd4ae77ad2dd76840d0482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 37/48] fix: accept NULL after the default value of a column

---
 src/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expression.rs b/src/expression.rs
index aa77ecc..6776342 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1078,6 +1078,12 @@ pub(crate) fn parse_expression<'a>(
     let mut r = Reducer { stack: Vec::new() };
     loop {
         let e = match parser.token.clone() {
+            // NULL after the default value is a property of the column
+            Token::Ident(_, Keyword::NULL)
+                if inner && matches!(r.stack.last(), Some(ReduceMember::Expression(_))) =>
+            {
+                break;
+            }
             Token::Ident(_, Keyword::OR) | Token::DoublePipe if !inner => {
                 r.shift_binop(parser.consume(), BinaryOperator::Or)
             }
-- 
2.43.0


From b83b169f39d3ff4ab61296a6f4d16b0b25908916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 38/48] fix: do not record a made-up span for a width that
 cannot be parsed

---
 src/alter.rs     |  4 ++--
 src/data_type.rs | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index 879ed32..6d9e30d 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -373,10 +373,10 @@ fn parse_index_cols<'a>(parser: &mut Parser<'a, '_>) -> Result<Vec<IndexCol<'a>>
             let name = parser.consume_plain_identifier()?;
             let size = if parser.skip_token(Token::LParen).is_some() {
                 let size = parser.recovered("')'", &|t| t == &Token::RParen, |parser| {
-                    parser.consume_int()
+                    Ok(Some(parser.consume_int()?))
                 })?;
                 parser.consume_token(Token::RParen)?;
-                Some(size)
+                size
             } else {
                 None
             };
diff --git a/src/data_type.rs b/src/data_type.rs
index f3bd905..d614994 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -187,10 +187,14 @@ fn parse_width(parser: &mut Parser<'_, '_>) -> Result<Option<(usize, Span)>, Par
     if !matches!(parser.token, Token::LParen) {
         return Ok(None);
     }
-    parser.consume_token(Token::LParen)?;
-    let value = parser.recovered(")", &|t| t == &Token::RParen, |parser| parser.consume_int())?;
-    parser.consume_token(Token::RParen)?;
-    Ok(Some(value))
+    let lparen_span = parser.consume_token(Token::LParen)?;
+    let value = parser.recovered(")", &|t| t == &Token::RParen, |parser| {
+        Ok(Some(parser.consume_int()?))
+    })?;
+    let rparen_span = parser.consume_token(Token::RParen)?;
+    Ok(Some(value.unwrap_or_else(|| {
+        (0, lparen_span.join_span(&rparen_span))
+    })))
 }
 
 fn parse_width_req(parser: &mut Parser<'_, '_>) -> Result<(usize, Span), ParseError> {
-- 
2.43.0


From 0bfe4f93a66244723c82e58f1ce45d8c88faed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:23 +0000
Subject: [PATCH 39/48] fix: accept the functions INSERT and REPEAT

---
 src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 6776342..352ef40 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1461,7 +1461,9 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT) if matches!(parser.peek(), Token::LParen) => {
+            Token::Ident(_, Keyword::LEFT | Keyword::INSERT | Keyword::REPEAT)
+                if matches!(parser.peek(), Token::LParen) =>
+            {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
                 parser.consume();
-- 
2.43.0


From cfc8aa11ece64ae7326caaf4e4ef421f04fc2dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 40/48] fix: name SELECT in the message about a missing query

---
 src/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statement.rs b/src/statement.rs
index 9bbb8c0..ed2b445 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -685,7 +685,7 @@ pub(crate) fn parse_compound_query_bottom<'a>(
             Ok(s.unwrap_or(Statement::Invalid(lp)))
         }
         Token::Ident(_, Keyword::SELECT) => Ok(Statement::Select(parse_select(parser)?)),
-        _ => parser.expected_failure("'SELECET' or '('")?,
+        _ => parser.expected_failure("'SELECT' or '('")?,
     }
 }
 
-- 
2.43.0


From 56091f4157da157435f6ef06abaec8686408432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:52 +0000
Subject: [PATCH 41/48] fix: a mistake in the width of NUMERIC ends at its
 parenthesis

---
 src/data_type.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index d614994..8bb53de 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -327,21 +327,14 @@ pub(crate) fn parse_data_type<'a>(
         Token::Ident(_, Keyword::NUMERIC) => {
             let numeric = parser.consume_keyword(Keyword::NUMERIC)?;
             let left = parser.consume_token(Token::LParen)?;
-            let (v1, s1) = parser.consume_int()?;
-            let comma = parser.consume_token(Token::Comma)?;
-            let (v2, s2) = parser.consume_int()?;
+            let (v1, v2) = parser.recovered("')'", &|t| t == &Token::RParen, |parser| {
+                let (v1, _) = parser.consume_int()?;
+                parser.consume_token(Token::Comma)?;
+                let (v2, _) = parser.consume_int()?;
+                Ok((v1, v2))
+            })?;
             let right = parser.consume_token(Token::RParen)?;
-            (
-                numeric,
-                Type::Numeric(
-                    v1,
-                    v2,
-                    left.join_span(&s1)
-                        .join_span(&comma)
-                        .join_span(&s2)
-                        .join_span(&right),
-                ),
-            )
+            (numeric, Type::Numeric(v1, v2, left.join_span(&right)))
         }
         Token::Ident(_, Keyword::DATETIME) => (
             parser.consume_keyword(Keyword::DATETIME)?,
-- 
2.43.0


From 0c576476bd42bfc9d3ba0d4228de8c204c8eeaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:16 +0000
Subject: [PATCH 42/48] fix: reject & after the number in LIMIT like the other
 operators

---
 src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 352ef40..76d261b 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1108,7 +1108,7 @@ pub(crate) fn parse_expression<'a>(
             Token::ShiftRight if !inner => {
                 r.shift_binop(parser.consume(), BinaryOperator::ShiftRight)
             }
-            Token::Ampersand => r.shift_binop(parser.consume(), BinaryOperator::BitAnd),
+            Token::Ampersand if !inner => r.shift_binop(parser.consume(), BinaryOperator::BitAnd),
             Token::Pipe if !inner => r.shift_binop(parser.consume(), BinaryOperator::BitOr),
             Token::Ident(_, Keyword::BINARY) if !inner => {
                 r.shift_unary(parser.consume(), UnaryOperator::Binary)
-- 
2.43.0


From d8402320f6ac6c379ae39a7e41a14085416e18fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:59 +0000
Subject: [PATCH 43/48] fix: reject ON DELETE DELETE

---
 src/create.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index 41c3492..c947299 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -384,16 +384,13 @@ pub(crate) fn parse_create_constraint_definition<'a>(
             Token::Ident(_, Keyword::CASCADE) => {
                 parser.consume_keyword(Keyword::CASCADE)?;
             }
-            Token::Ident(_, Keyword::DELETE) => {
-                parser.consume_keyword(Keyword::DELETE)?;
-            }
             Token::Ident(_, Keyword::RESTRICT) => {
                 parser.consume_keyword(Keyword::RESTRICT)?;
             }
             Token::Ident(_, Keyword::SET) => {
                 parser.consume_keywords(&[Keyword::SET, Keyword::NULL])?;
             }
-            _ => parser.expected_failure("CASCADE, DELETE OR SET NULL")?,
+            _ => parser.expected_failure("CASCADE, RESTRICT OR SET NULL")?,
         }
     }
     Ok(CreateDefinition::ConstraintDefinition { span, identifier })
-- 
2.43.0


From 252abe29f1287ebe38fddf4477c243c6ad9831e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:40 +0000
Subject: [PATCH 44/48] fix: report WINDOW, which is not supported

---
 src/select.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index 6b7b238..2b7de82 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -769,7 +769,8 @@ pub(crate) fn parse_select<'a>(parser: &mut Parser<'a, '_>) -> Result<Select<'a>
     };
 
     let window_span = parser.skip_keyword(Keyword::WINDOW);
-    if window_span.is_some() {
+    if let Some(span) = &window_span {
+        parser.err("WINDOW is not supported", span);
         //TODO window_name AS (window_spec) [, window_name AS (window_spec)] ...]
     }
 
-- 
2.43.0


From 22a6030ada6952a8e3c60e32b7aeb962ccbd4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:54 +0000
Subject: [PATCH 45/48] fix: ORDER BY and LIMIT after the last SELECT of a
 union belong to the union

---
 src/statement.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index ed2b445..683690a 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -783,6 +783,7 @@ pub(crate) fn parse_compound_query<'a>(
         return Ok(q);
     };
     let mut with = Vec::new();
+    let mut last_is_bare;
     loop {
         let union_span = parser.consume_keyword(Keyword::UNION)?;
         let union_type = match &parser.token {
@@ -792,6 +793,7 @@ pub(crate) fn parse_compound_query<'a>(
             }
             _ => UnionType::Default,
         };
+        last_is_bare = matches!(parser.token, Token::Ident(_, Keyword::SELECT));
         let union_statement = Box::new(parse_compound_query_bottom(parser)?);
         with.push(UnionWith {
             union_span,
@@ -803,7 +805,18 @@ pub(crate) fn parse_compound_query<'a>(
         }
     }
 
-    let order_by = if let Some(span) = parser.skip_keyword(Keyword::ORDER) {
+    // Trailing clauses that parse_select took for the last operand apply to the whole
+    // union, unless that operand is enclosed in parentheses
+    let (order_by, limit) = match with.last_mut().map(|v| v.union_statement.as_mut()) {
+        Some(Statement::Select(s)) if last_is_bare && s.locking.is_none() => {
+            (s.order_by.take(), s.limit.take())
+        }
+        _ => (None, None),
+    };
+
+    let order_by = if order_by.is_some() || limit.is_some() {
+        order_by
+    } else if let Some(span) = parser.skip_keyword(Keyword::ORDER) {
         let span = parser.consume_keyword(Keyword::BY)?.join_span(&span);
         let mut order = Vec::new();
         loop {
@@ -823,7 +836,9 @@ pub(crate) fn parse_compound_query<'a>(
         None
     };
 
-    let limit = if let Some(span) = parser.skip_keyword(Keyword::LIMIT) {
+    let limit = if limit.is_some() {
+        limit
+    } else if let Some(span) = parser.skip_keyword(Keyword::LIMIT) {
         let n = parse_expression(parser, true)?;
         match parser.token {
             Token::Comma => {
-- 
2.43.0


From 7841af80964e3041d181892373ceb0998edf6c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:17 +0000
Subject: [PATCH 46/48] fix: reject UNION after ORDER BY, LIMIT or a locking
 clause

---
 src/statement.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index 683690a..ded37fc 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -778,14 +778,24 @@ impl<'a> Copy<'a> {
 pub(crate) fn parse_compound_query<'a>(
     parser: &mut Parser<'a, '_>,
 ) -> Result<Statement<'a>, ParseError> {
+    let first_is_bare = matches!(parser.token, Token::Ident(_, Keyword::SELECT));
     let q = parse_compound_query_bottom(parser)?;
     if !matches!(parser.token, Token::Ident(_, Keyword::UNION)) {
         return Ok(q);
     };
-    let mut with = Vec::new();
-    let mut last_is_bare;
+    let mut with: Vec<UnionWith<'a>> = Vec::new();
+    let mut last_is_bare = first_is_bare;
     loop {
         let union_span = parser.consume_keyword(Keyword::UNION)?;
+        let previous = with.last().map_or(&q, |v| v.union_statement.as_ref());
+        if let Statement::Select(s) = previous {
+            if last_is_bare && (s.order_by.is_some() || s.limit.is_some() || s.locking.is_some()) {
+                parser.err(
+                    "UNION after ORDER BY, LIMIT or FOR requires the query before it to be in parentheses",
+                    &union_span,
+                );
+            }
+        }
         let union_type = match &parser.token {
             Token::Ident(_, Keyword::ALL) => UnionType::All(parser.consume_keyword(Keyword::ALL)?),
             Token::Ident(_, Keyword::DISTINCT) => {
-- 
2.43.0


From caccf877a57a8e239cecdccb9130390d615e506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:22 +0000
Subject: [PATCH 47/48] fix: accept RIGHT JOIN after the ON expression of
 another join

---
 src/expression.rs | 2 +-
 src/keywords.rs   | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 76d261b..938834d 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1461,7 +1461,7 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT | Keyword::INSERT | Keyword::REPEAT)
+            Token::Ident(_, Keyword::LEFT | Keyword::RIGHT | Keyword::INSERT | Keyword::REPEAT)
                 if matches!(parser.peek(), Token::LParen) =>
             {
                 let i = parser.token.clone();
diff --git a/src/keywords.rs b/src/keywords.rs
index f834b0c..d40b03d 100644
--- a/src/keywords.rs
+++ b/src/keywords.rs
@@ -1219,7 +1219,6 @@ IF
 LOCALTIME
 LOCALTIMESTAMP
 REPLACE
-RIGHT
 UTC_DATE
 UTC_TIME
 UTC_TIMESTAMP
-- 
2.43.0


From 5f000469d42a3de76adfa521f85ae0c663d26526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:10 +0000
Subject: [PATCH 48/48] fix: errors of the operator stack point at the operator
 or operand, not at the token after it

---
 src/expression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 938834d..bd132a0 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -20,7 +20,6 @@ use crate::{
     statement::parse_compound_query,
     DataType, Identifier, SString, Span, Spanned, Statement,
 };
-use alloc::string::ToString;
 use alloc::vec;
 use alloc::{boxed::Box, vec::Vec};
 
@@ -1077,6 +1076,7 @@ pub(crate) fn parse_expression<'a>(
 ) -> Result<Expression<'a>, ParseError> {
     let mut r = Reducer { stack: Vec::new() };
     loop {
+        let start = parser.span.clone();
         let e = match parser.token.clone() {
             // NULL after the default value is a property of the column
             Token::Ident(_, Keyword::NULL)
@@ -1616,7 +1616,8 @@ pub(crate) fn parse_expression<'a>(
             _ => break,
         };
         if let Err(e) = e {
-            parser.err_here(e.to_string())?;
+            parser.err(e, &start);
+            return Err(ParseError::Unrecovered);
         }
     }
     if r.reduce(99999).is_err() {
-- 
2.43.0

