From ae40b95fe046420c776fa9358f99a1c5bd8a8115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:07 +0000
Subject: [PATCH 01/20] fix: scanner looped forever on an outdent to a level
 between two open blocks

---
 src/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index e6ef974..a492476 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -354,7 +354,8 @@ where
                             self.indentation.pop();
                             self.add_token(TokenType::Outdent);
                         }
-                        Ordering::Less => {}
+                        // This level was never opened.
+                        Ordering::Less => break,
                     }
                 }
                 if !found && self.bol_spaces > 0 {
-- 
2.43.0


From d73878e25f93da8ea394991e8be15e90999f5067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:07 +0000
Subject: [PATCH 02/20] fix: treat CRLF, a single grapheme cluster, as a
 newline

---
 src/scanner.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index a492476..63b2629 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -243,7 +243,7 @@ where
                         // Optional carriage return.
                         self.matches("\r");
 
-                        if self.matches("\n") {
+                        if self.matches("\n") || self.matches("\r\n") {
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
@@ -267,7 +267,8 @@ where
                         // Ignore this character for the most part.
                         is_whitespace = true;
                     }
-                    "\n" => {
+                    // A CRLF pair is a single grapheme cluster.
+                    "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
                         if !self.is_bol
@@ -444,7 +445,7 @@ where
             match self.grapheme_indices.peek() {
                 None => break,
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         // Keep the newline next.
                         break;
                     }
@@ -462,7 +463,7 @@ where
             match self.grapheme_indices.peek() {
                 None => (),
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         self.line = self.line.saturating_add(1);
                         self.column = 0;
                     }
@@ -608,6 +609,10 @@ where
     }
 }
 
+fn is_newline(grapheme: &str) -> bool {
+    matches!(grapheme, "\n" | "\r\n")
+}
+
 fn is_digit(grapheme: &str) -> bool {
     // Note: built-in is_numeric() uses a more complicated unicode definition of
     // numeric.
-- 
2.43.0


From be9d41dc49766e19917aee3849b8f1d4a8cf80eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 03/20] fix: blanks or a comment after a trailing operator
 ended the line continuation

---
 src/scanner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 63b2629..5020021 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -227,6 +227,8 @@ where
                         if self.matches("/") {
                             // A comment until the end of the line.
                             self.advance_to_eol();
+                            following_line_continuation =
+                                self.following_line_continuation;
                             self.only_comment_on_line = was_bol;
                         } else {
                             self.add_token(Slash);
@@ -302,7 +304,11 @@ where
                         }
                     }
                 }
-                self.following_line_continuation = following_line_continuation;
+                // Trailing whitespace does not end a line continuation.
+                if !is_whitespace {
+                    self.following_line_continuation =
+                        following_line_continuation;
+                }
                 self.is_abutting = !is_whitespace;
             }
         }
-- 
2.43.0


From 523b3f3230744d5cd734c713ca2a3b45176f7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 04/20] fix: the indentation of a comment-only line opened and
 closed blocks

---
 src/scanner.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 5020021..d087143 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -54,7 +54,6 @@ pub struct Scanner<'source, 'g> {
     // Beginning of line spaces used for indentation.
     bol_spaces: u16,
     is_bol: bool,
-    only_comment_on_line: bool,
     is_line_continuation: bool,
     following_line_continuation: bool,
     is_abutting: bool,
@@ -79,7 +78,6 @@ where
             eof: false,
             bol_spaces: 0,
             is_bol: true,
-            only_comment_on_line: false,
             is_line_continuation: false,
             following_line_continuation: false,
             is_abutting: false,
@@ -222,15 +220,15 @@ where
                         following_line_continuation = true;
                     }
                     "/" => {
-                        let was_bol = self.is_bol;
-                        self.bol_indentation_tokens();
                         if self.matches("/") {
-                            // A comment until the end of the line.
+                            // A comment until the end of the line.  When
+                            // there's only a comment on a line, it's treated as
+                            // blank, so its indentation is not significant.
                             self.advance_to_eol();
                             following_line_continuation =
                                 self.following_line_continuation;
-                            self.only_comment_on_line = was_bol;
                         } else {
+                            self.bol_indentation_tokens();
                             self.add_token(Slash);
                             following_line_continuation = true;
                         }
@@ -273,12 +271,7 @@ where
                     "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
-                        if !self.is_bol
-                            && !continue_line
-                            // When there's only a comment on a line, don't
-                            // insert a terminator.
-                            && !self.only_comment_on_line
-                        {
+                        if !self.is_bol && !continue_line {
                             self.add_token(Terminator);
                         }
                         self.reset_line();
@@ -320,7 +313,6 @@ where
         self.column = 1;
         self.bol_spaces = 0;
         self.is_bol = true;
-        self.only_comment_on_line = false;
         // If the previous line was blank, do not affect line continuation
         // state.
         if !line_was_blank {
-- 
2.43.0


From 30e18806bf19d65eeafd81dd71696421eabe08b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 05/20] fix: an open parenthesis after a backslash-newline
 counted as abutting

---
 src/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index d087143..cc26e1f 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -244,6 +244,7 @@ where
                         self.matches("\r");
 
                         if self.matches("\n") || self.matches("\r\n") {
+                            is_whitespace = true;
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
-- 
2.43.0


From 33ae5038c009ff71ac9e62903af1526694206eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 06/20] fix: scan errors were reported one column past the
 offending character

---
 src/scanner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index cc26e1f..1f66e44 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -256,7 +256,7 @@ where
                     }
                     "\t" => {
                         is_whitespace = true;
-                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.column), "Illegal tab character; all whitespace must be spaces"));
+                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.start_column), "Illegal tab character; all whitespace must be spaces"));
                     }
                     " " => {
                         is_whitespace = true;
@@ -289,7 +289,7 @@ where
                             self.scan_identifier();
                         } else {
                             self.error(ParseErrorCause::new(
-                                SourceLoc::new(self.line, self.column),
+                                SourceLoc::new(self.line, self.start_column),
                                 &format!(
                                     "Unexpected token: {}",
                                     grapheme_cluster
@@ -360,7 +360,7 @@ where
                 }
                 if !found && self.bol_spaces > 0 {
                     self.error(ParseErrorCause::new(
-                        SourceLoc::new(self.line, self.column),
+                        SourceLoc::new(self.line, self.start_column),
                         "Outdent does not match any previous indentation level",
                     ));
                 }
-- 
2.43.0


From 5425be186237e87e61a9ddae83dbbea27560d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 07/20] fix: parsing an empty expression underflowed the token
 index

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 43f655f..501d691 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1140,7 +1140,9 @@ impl<'a> Parser<'a> {
     }
 
     fn previous(&self) -> Option<&Token<'a>> {
-        self.tokens.get(self.current - 1)
+        self.current
+            .checked_sub(1)
+            .and_then(|previous| self.tokens.get(previous))
     }
 
     fn previous_source_loc(&self) -> SourceLoc {
-- 
2.43.0


From 3b7f3a12d3fc974d59427bacb156419622dc7910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 08/20] fix: break and continue were accepted in a function
 nested in a loop

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 501d691..ee4bdf7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,4 +1,5 @@
 use std::cell::Cell;
+use std::mem;
 
 use crate::ast::*;
 use crate::environment::*;
@@ -227,7 +228,11 @@ impl<'a> Parser<'a> {
         let end_block = self.consume_begin_block(
             "Expect '{' or indent before function body.",
         )?;
-        let body = self.finish_block(end_block)?;
+        // A loop around the function isn't a loop in its body.
+        let enclosing_loops = mem::take(&mut self.in_loops);
+        let body_result = self.finish_block(end_block);
+        self.in_loops = enclosing_loops;
+        let body = body_result?;
 
         let fun_def = FunctionDefinition::new(
             parameters,
-- 
2.43.0


From 79db0635b7364f4f709275b1c7f752841351c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 09/20] fix: a loop without a body hid misplaced break and
 continue after it

---
 src/parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ee4bdf7..c2f6099 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -491,10 +491,9 @@ impl<'a> Parser<'a> {
         let body_result = if self.check(TokenType::Terminator)
             || self.check(TokenType::LeftBrace)
         {
-            let end_block = self.consume_begin_block(
-                "Expect '{' or indent before loop body.",
-            )?;
-            self.finish_block(end_block).map(Stmt::Block)
+            self.consume_begin_block("Expect '{' or indent before loop body.")
+                .and_then(|end_block| self.finish_block(end_block))
+                .map(Stmt::Block)
         } else {
             self.statement()
         };
-- 
2.43.0


From 8c4dfa772f1cbeac4414ea3c900163de62766577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 10/20] fix: a for-loop initializer could not be an expression

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c2f6099..06e9507 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -360,7 +360,12 @@ impl<'a> Parser<'a> {
         } else if self.match_token(TokenType::Var) {
             Some(self.finish_var_declaration(true)?)
         } else {
-            Some(self.expression_statement()?)
+            let init_expr = self.expression()?;
+            self.consume(
+                TokenType::Semicolon,
+                "Expect ';' after for-loop initializer.",
+            )?;
+            Some(Stmt::Expression(init_expr))
         };
         let condition = if self.check(TokenType::Semicolon) {
             Expr::LiteralBool(true)
-- 
2.43.0


From 1e5d6b439f91862a3fdff250c8ab41fa183f5953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 11/20] fix: else did not accept an indented block

---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 06e9507..6b76bcc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -420,7 +420,15 @@ impl<'a> Parser<'a> {
         };
 
         let else_stmt = if self.match_token(TokenType::Else) {
-            Some(Box::new(self.statement()?))
+            let else_body = if self.check(TokenType::Terminator) {
+                let end_block = self.consume_begin_block(
+                    "Expect '{' or indent before else body.",
+                )?;
+                self.finish_block(end_block).map(Stmt::Block)?
+            } else {
+                self.statement()?
+            };
+            Some(Box::new(else_body))
         } else {
             None
         };
-- 
2.43.0


From 38b3e0459662e871a39042f6f38ad24c414d67fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 12/20] fix: error recovery skipped the keyword of the
 statement it resumed at

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6b76bcc..d4a5d53 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1306,7 +1306,7 @@ impl<'a> Parser<'a> {
         self.advance();
 
         while !self.is_at_end() {
-            if let Some(token) = self.previous() {
+            if let Some(token) = self.peek() {
                 match token.token_type {
                     TokenType::Class
                     | TokenType::Fun
-- 
2.43.0


From c77a467c4da174d5a7a4989cdd07e38eda737b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 13/20] fix: the REPL looped forever at the end of its input

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6f513dd..b690d56 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,8 @@ fn run_repl() {
 
         let mut input = String::new();
         match stdin.lock().read_line(&mut input) {
+            // End of input.
+            Ok(0) => break,
             Ok(_) => {
                 let result = run(&mut resolver, input, true);
                 print_result(&result, true);
-- 
2.43.0


From f0b99e8526f1d424828b469198c0c653d658493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 14/20] fix: a global whose initializer failed to resolve could
 not be read afterwards

---
 src/resolver.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 1cef972..42e98f1 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -188,7 +188,12 @@ impl Resolver {
             }
             Stmt::Var(identifier, slot_index_cell, expr, loc) => {
                 self.declare(identifier, slot_index_cell, loc)?;
-                self.resolve_expression(expr)?;
+                let result = self.resolve_expression(expr);
+                if result.is_err() {
+                    // Ensure we preserve state.
+                    self.undeclare(identifier);
+                    return result;
+                }
                 self.define(identifier, loc)?;
 
                 Ok(())
@@ -575,6 +580,17 @@ impl Resolver {
         Ok(())
     }
 
+    // Undo a declare() whose initializer failed to resolve.  The variable keeps
+    // its slot.
+    fn undeclare(&mut self, identifier: &str) {
+        let scope = self.scopes.last_mut().expect("Resolver::undeclare: I'm trying to look up the most-local scope, but there are none");
+        if let Some(state) = scope.get_mut(identifier) {
+            if state.defined_state == DeclaredVar {
+                state.defined_state = UndefinedVar;
+            }
+        }
+    }
+
     fn define(
         &mut self,
         identifier: &str,
-- 
2.43.0


From a86472fbb1fd74120f56cf1211dcf6a86eb52a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 15/20] fix: a class method named init was resolved as an
 initializer

---
 src/resolver.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 42e98f1..b559870 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -404,10 +404,15 @@ impl Resolver {
 
         if result.is_ok() {
             for method in class_def.methods.iter_mut() {
-                let fun_type = if method.name == "init" {
-                    FunctionType::Initializer
-                } else {
-                    FunctionType::Method
+                let fun_type = match method.fun_def.fun_type {
+                    crate::ast::FunctionType::Initializer => {
+                        FunctionType::Initializer
+                    }
+                    crate::ast::FunctionType::PlainFunction
+                    | crate::ast::FunctionType::Method
+                    | crate::ast::FunctionType::ClassMethod => {
+                        FunctionType::Method
+                    }
                 };
 
                 result = self.resolve_function(&mut method.fun_def, fun_type);
-- 
2.43.0


From fb1f200245dcd6f7c24461e1454ecf4ed760ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 16/20] fix: variables past the 256th in a scope shared the
 slots of earlier ones

---
 src/resolver.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index b559870..347b0ff 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -526,7 +526,7 @@ impl Resolver {
             slot_index,
             defined_state: UndefinedVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        ensure_scope_index_limit(scope, identifier, loc)?;
         match scope.entry(identifier.to_owned()) {
             entry @ Entry::Vacant(_) => entry.or_insert(var_resolve_state),
             Entry::Occupied(_) => panic!("Resolver::forward_reserve_global_var: I'm trying to forward reserve something that's already declared: {}", identifier),
@@ -547,7 +547,7 @@ impl Resolver {
             slot_index,
             defined_state: DeclaredVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        ensure_scope_index_limit(scope, identifier, loc)?;
 
         let mut already_declared = false;
         scope
@@ -606,7 +606,7 @@ impl Resolver {
             slot_index: scope.len(),
             defined_state: DefinedVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        ensure_scope_index_limit(scope, identifier, loc)?;
         let mut already_defined = false;
         scope
             .entry(identifier.to_owned())
@@ -634,13 +634,16 @@ impl Default for Resolver {
     }
 }
 
-// The 256th local should fail.
+// The 256th local should fail.  Slot indices are u8, and the last one is the
+// placeholder.
 fn ensure_scope_index_limit(
-    new_scope_len: usize,
+    scope: &HashMap<String, VarResolveState>,
     identifier: &str,
     loc: &SourceLoc,
 ) -> Result<(), ParseErrorCause> {
-    if new_scope_len > VAR_LOC_MAX_DISTANCE_USIZE {
+    if scope.len() >= usize::from(SlotIndex::placeholder().index())
+        && !scope.contains_key(identifier)
+    {
         Err(ParseErrorCause::new_with_location(
             *loc,
             identifier,
-- 
2.43.0


From 63a5a29249d01d0f9566948ea259d47161ff000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:28 +0000
Subject: [PATCH 17/20] fix: rejected code left its globals defined in the
 resolver

---
 src/resolver.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index 347b0ff..6c67f9c 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -83,6 +83,9 @@ impl Resolver {
         &mut self,
         mut statements: Vec<Stmt>,
     ) -> Result<ResolvedCode, ParseError> {
+        // Rejected code never runs, so it must not affect later code.
+        let saved_scopes = self.scopes.clone();
+
         let mut errors = Vec::new();
         for statement in statements.iter_mut() {
             let result = self.resolve_statement(statement);
@@ -94,6 +97,8 @@ impl Resolver {
         if errors.is_empty() {
             Ok(ResolvedCode::new(statements))
         } else {
+            self.scopes = saved_scopes;
+
             Err(ParseError::new(errors))
         }
     }
-- 
2.43.0


From fdbfb64506e1b00f908f813c2b692e216877c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:14 +0000
Subject: [PATCH 18/20] fix: an expression missing at the end of the source was
 blamed on the token before it

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d4a5d53..46634d8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -994,8 +994,9 @@ impl<'a> Parser<'a> {
             },
             _ => {
                 // We need to advance here to prevent looping forever.
+                let error = self.error_from_peek("Expect expression.");
                 self.advance();
-                return Err(self.error_from_last("Expect expression."));
+                return Err(error);
             }
         };
 
-- 
2.43.0


From 9f4caddca669a78c3ff53460707f0a0e2ed3b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:29 +0000
Subject: [PATCH 19/20] fix: a map without braces at the end of a block in
 braces was rejected

---
 src/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 46634d8..beb33f4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -881,7 +881,7 @@ impl<'a> Parser<'a> {
                     if self.check_next(TokenType::Colon) {
                         // Map key.
                         already_advanced = true;
-                        Expr::LiteralMap(self.literal_map()?)
+                        Expr::LiteralMap(self.literal_map(false)?)
                     } else {
                         let s = token.string_literal.expect("primary: expected float literal to include parsed string");
 
@@ -897,7 +897,7 @@ impl<'a> Parser<'a> {
                     if self.check_next(TokenType::Colon) {
                         // Map key.
                         already_advanced = true;
-                        Expr::LiteralMap(self.literal_map()?)
+                        Expr::LiteralMap(self.literal_map(false)?)
                     } else {
                         let loc = SourceLoc::from(token);
 
@@ -942,7 +942,7 @@ impl<'a> Parser<'a> {
                 self.advance();
                 already_advanced = true;
 
-                let map = self.literal_map()?;
+                let map = self.literal_map(true)?;
 
                 self.consume(
                     TokenType::RightBrace,
@@ -1007,7 +1007,10 @@ impl<'a> Parser<'a> {
         Ok(expr)
     }
 
-    fn literal_map(&mut self) -> Result<Map<Expr>, ParseErrorCause> {
+    fn literal_map(
+        &mut self,
+        in_braces: bool,
+    ) -> Result<Map<Expr>, ParseErrorCause> {
         use TokenType as tt;
         let mut map = Map::default();
         while self.check_any_of(&[tt::Identifier, tt::String])
@@ -1041,11 +1044,13 @@ impl<'a> Parser<'a> {
 
             // Allow a terminator so that two map entries on separate lines
             // without a comma will get parsed as a single map instead of two.
+            // Only a map in braces may also end with a terminator; one without
+            // leaves it to the statement it's in.
             if self.check(tt::Comma)
                 || self.check(tt::Terminator)
                     && (self.check_next_any_of(&[tt::Identifier, tt::String])
                         && self.check_next_next(tt::Colon)
-                        || self.check_next(tt::RightBrace))
+                        || in_braces && self.check_next(tt::RightBrace))
             {
                 // Consume the comma or terminator and continue parsing the map.
                 self.advance();
-- 
2.43.0


From 7b4255f4666db5a5584b52ddcdde6e2641883df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 20/20] fix: an empty file name started the REPL and ended with
 status 0

---
 src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b690d56..fd509ab 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -4,7 +4,7 @@ use std::io;
 use std::io::prelude::*;
 use std::process;
 
-use argparse::{ArgumentParser, Print, Store};
+use argparse::{ArgumentParser, Print, StoreOption};
 
 use whitespace::ast::ResolvedCode;
 use whitespace::error::{ParseError, ParseErrorCause};
@@ -19,7 +19,7 @@ enum RunError {
 }
 
 fn main() {
-    let mut script_filename = "".to_string();
+    let mut script_filename: Option<String> = None;
     {
         let mut ap = ArgumentParser::new();
         ap.set_description("Coffee language interpreter");
@@ -30,12 +30,12 @@ fn main() {
         );
         ap.refer(&mut script_filename).add_argument(
             "script_filename",
-            Store,
+            StoreOption,
             "Coffee file to execute.  Omit to run an interactive REPL.",
         );
         ap.parse_args_or_exit();
     }
-    if !script_filename.is_empty() {
+    if let Some(script_filename) = script_filename {
         let run_result = run_file(&script_filename);
 
         match run_result {
-- 
2.43.0

