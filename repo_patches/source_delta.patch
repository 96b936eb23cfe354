From ea892a0e73fdde118ff6506598dc47dfc841b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 1/8] fix: accept options after an extension range that is a
 single number

---
 protox-parse/src/parse/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index d04733d..e145fd2 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -810,13 +810,13 @@ impl<'a> Parser<'a> {
         &mut self,
         terminators: &[ExpectedToken],
     ) -> Result<Vec<ast::ReservedRange>, ()> {
-        let mut ranges = vec![self.parse_reserved_range()?];
+        let mut ranges = vec![self.parse_reserved_range(terminators)?];
 
         loop {
             match self.peek_skip_comments()? {
                 Some((Token::Comma, _)) => {
                     self.bump();
-                    ranges.push(self.parse_reserved_range()?);
+                    ranges.push(self.parse_reserved_range(terminators)?);
                     continue;
                 }
                 Some((tok, _)) if terminators.iter().any(|e| e.matches(&tok)) => break,
@@ -829,7 +829,10 @@ impl<'a> Parser<'a> {
         Ok(ranges)
     }
 
-    fn parse_reserved_range(&mut self) -> Result<ast::ReservedRange, ()> {
+    fn parse_reserved_range(
+        &mut self,
+        terminators: &[ExpectedToken],
+    ) -> Result<ast::ReservedRange, ()> {
         let start = self.parse_int()?;
 
         let end = match self.peek_skip_comments()? {
@@ -846,7 +849,10 @@ impl<'a> Parser<'a> {
                     _ => self.unexpected_token("an integer or 'max'")?,
                 }
             }
-            Some((Token::Comma | Token::Semicolon, _)) => ast::ReservedRangeEnd::None,
+            Some((Token::Comma, _)) => ast::ReservedRangeEnd::None,
+            Some((tok, _)) if terminators.iter().any(|e| e.matches(&tok)) => {
+                ast::ReservedRangeEnd::None
+            }
             _ => self.unexpected_token("'to', ',' or ';'")?,
         };
 
-- 
2.43.0


From 9497335ff2dcd7e7299e6a539093b3b41d1fde83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 2/8] fix: accept reserved names starting with an underscore

---
 protox-parse/src/case.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/case.rs b/protox-parse/src/case.rs
index 97f9302..2d5fbfe 100644
--- a/protox-parse/src/case.rs
+++ b/protox-parse/src/case.rs
@@ -1,6 +1,6 @@
 pub(crate) fn is_valid_ident(s: &str) -> bool {
     !s.is_empty()
-        && s.as_bytes()[0].is_ascii_alphabetic()
+        && (s.as_bytes()[0].is_ascii_alphabetic() || s.as_bytes()[0] == b'_')
         && s.as_bytes()[1..]
             .iter()
             .all(|&ch| ch.is_ascii_alphanumeric() || ch == b'_')
-- 
2.43.0


From 53bebea2fefef623f1d3b9c2916c69d0132a1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 3/8] fix: attach a block comment on the same line as a
 declaration as its trailing comment

---
 protox-parse/src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index e145fd2..42f38ed 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -1204,6 +1204,7 @@ impl<'a> Parser<'a> {
                     if let Some((Token::Newline, _)) = self.peek_comments()? {
                         self.bump();
                         self.comments.block_comment(comment);
+                        self.comments.flush();
                     } else {
                         return self.peek_skip_comments();
                     }
-- 
2.43.0


From 3b6b3551bbc75d374010587a280260be8bab2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 4/8] fix: reject malformed octal literals, and 0 followed by
 an identifier

---
 protox-parse/src/lex/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index b9eb3df..8e85622 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -14,7 +14,7 @@ use super::error::ParseErrorKind;
 pub(crate) enum Token<'a> {
     #[regex("[A-Za-z_][A-Za-z0-9_]*")]
     Ident(&'a str),
-    #[regex("0", |_| 0)]
+    #[regex("0", |lex| int(lex, 8, 0))]
     #[regex("0[0-7]+", |lex| int(lex, 8, 1))]
     #[regex("[1-9][0-9]*", |lex| int(lex, 10, 0))]
     #[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]
@@ -188,10 +188,11 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
     match u64::from_str_radix(&lex.source()[span.clone()], radix) {
         Ok(value) => Ok(value),
         Err(err) => {
-            debug_assert_eq!(err.kind(), &IntErrorKind::PosOverflow);
-            lex.extras
-                .errors
-                .push(ParseErrorKind::IntegerOutOfRange { span });
+            lex.extras.errors.push(match err.kind() {
+                IntErrorKind::PosOverflow => ParseErrorKind::IntegerOutOfRange { span },
+                // a literal with a leading zero may be lexed with digits that are not octal
+                _ => ParseErrorKind::InvalidToken { span },
+            });
             Ok(Default::default())
         }
     }
-- 
2.43.0


From 51c852cfc036aae656306823602f9993634adc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 5/8] fix: keep synthetic oneof names distinct from other
 fields and oneofs

---
 protox-parse/src/generate/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/protox-parse/src/generate/mod.rs b/protox-parse/src/generate/mod.rs
index 6298bee..26212c5 100644
--- a/protox-parse/src/generate/mod.rs
+++ b/protox-parse/src/generate/mod.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use logos::Span;
 use prost_types::{
     descriptor_proto, enum_descriptor_proto, field_descriptor_proto, source_code_info::Location,
@@ -258,6 +260,23 @@ impl Context {
             }
         }
 
+        // The names of synthetic oneofs must not conflict with any other field or oneof
+        let mut names: HashSet<String> = field
+            .iter()
+            .filter_map(|f| f.name.clone())
+            .chain(
+                oneof_decl[..real_oneof_count]
+                    .iter()
+                    .filter_map(|o| o.name.clone()),
+            )
+            .collect();
+        for oneof in &mut oneof_decl[real_oneof_count..] {
+            let name = oneof.name.get_or_insert_with(String::new);
+            while !names.insert(name.clone()) {
+                name.insert(0, 'X');
+            }
+        }
+
         let is_message_set = match ast
             .options
             .iter()
-- 
2.43.0


From ff2432fff314436c04aa42e462f51676ebc1d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 6/8] fix: keep blank lines inside block comments

---
 protox-parse/src/lex/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index 8e85622..57e8c62 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -399,7 +399,9 @@ fn block_comment<'a>(lex: &mut Lexer<'a, Token<'a>>) -> Cow<'a, str> {
             }
             Some(Ok(Component::Newline)) => {
                 cow_push_str(&mut result, "\n");
-                let stripped = comment_lexer.remainder().trim_start();
+                let stripped = comment_lexer
+                    .remainder()
+                    .trim_start_matches([' ', '\t', '\r', '\x0b', '\x0c']);
                 comment_lexer.bump(comment_lexer.remainder().len() - stripped.len());
                 if stripped.starts_with('*') && !stripped.starts_with("*/") {
                     comment_lexer.bump(1);
-- 
2.43.0


From a15734b20e8022813517f956e23e664cae85a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 7/8] fix: attach a comment after a method's opening brace to
 the method

---
 protox-parse/src/parse/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 42f38ed..17d04db 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -556,19 +556,20 @@ impl<'a> Parser<'a> {
         self.expect_eq(Token::RightParen)?;
 
         let mut options = Vec::new();
-        let end = match self.peek_skip_comments()? {
+        let (end, comments) = match self.peek_skip_comments()? {
             Some((Token::Semicolon, span)) => {
                 self.bump();
-                span
+                (span, self.parse_trailing_comment(leading_comments))
             }
             Some((Token::LeftBrace, _)) => {
                 self.bump();
+                let comments = self.parse_trailing_comment(leading_comments);
                 loop {
                     match self.peek()? {
                         Some((Token::OPTION, _)) => {
                             options.push(self.parse_option()?);
                         }
-                        Some((Token::RightBrace, _)) => break self.bump(),
+                        Some((Token::RightBrace, _)) => break (self.bump(), comments),
                         Some((Token::Semicolon, _)) => {
                             self.bump();
                             continue;
@@ -580,8 +581,6 @@ impl<'a> Parser<'a> {
             _ => self.unexpected_token("';' or '{'")?,
         };
 
-        let comments = self.parse_trailing_comment(leading_comments);
-
         Ok(ast::Method {
             name,
             input_ty,
-- 
2.43.0


From 12b550916877b8b3f0f32a13794f81a1cb297a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 8/8] fix: point the label of an import error at the import
 when multi-byte characters precede it on the line

---
 protox/src/error.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/protox/src/error.rs b/protox/src/error.rs
index 4ffad63..44e5523 100644
--- a/protox/src/error.rs
+++ b/protox/src/error.rs
@@ -1,6 +1,6 @@
 use std::{fmt, io, path::PathBuf};
 
-use miette::{Diagnostic, NamedSource, SourceCode, SourceOffset, SourceSpan};
+use miette::{Diagnostic, NamedSource, SourceCode, SourceSpan};
 use prost_reflect::DescriptorError;
 use protox_parse::ParseError;
 use thiserror::Error;
@@ -181,11 +181,17 @@ fn find_import_span(file: &File, import_idx: usize) -> Option<SourceSpan> {
                     if location.span.len() != 3 {
                         continue;
                     }
-                    let start_line = location.span[0] as usize + 1;
-                    let start_col = location.span[1] as usize + 1;
-                    let end_col = location.span[2] as usize + 1;
+                    let line = location.span[0] as usize;
+                    let start_col = location.span[1] as usize;
+                    let end_col = location.span[2] as usize;
+                    // Columns are byte offsets within the line.
+                    let line_start: usize = source
+                        .split_inclusive('\n')
+                        .take(line)
+                        .map(|line| line.len())
+                        .sum();
                     return Some(SourceSpan::new(
-                        SourceOffset::from_location(source, start_line, start_col),
+                        (line_start + start_col).into(),
                         end_col - start_col,
                     ));
                 }
-- 
2.43.0

