From c2bc95ec06be55c2c790a7f940a20f0f84efa4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 01/63] fix: end the record when a newline follows a quoted
 field

---
 csvp/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 7a67674..5c209d6 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -231,8 +231,9 @@ impl<'a> Parser<'a> {
     fn parse_rest_of_quoted_field(&mut self, fb: FieldBuilder) -> Result<FieldResult> {
         loop {
             match self.consume_char() {
-                Some(c) if c.is_whitespace() => continue,
                 Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
+                Some(c) if c.is_whitespace() => continue,
                 Some(c) => {
                     // it's not whitespace or a comma
                     return Err(self.parse_error(format!(
-- 
2.43.0


From 0de9085430747563cce2eeeffea86d930ac9ff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 02/63] fix: report an unterminated quoted field instead of
 accepting it

---
 csvp/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 5c209d6..afe7c7b 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -221,7 +221,7 @@ impl<'a> Parser<'a> {
                 fb.push(c, &mut *self);
                 self.parse_quoted_field(fb, false)
             }
-            None => Ok(FieldResult::some(fb)),
+            None => Err(self.parse_error("Expected a closing quote but got EOF")),
         }
     }
 
-- 
2.43.0


From f25ead767378288bdbf6ec9b4230c47e7ab4639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 03/63] fix: source positions of fields on every line but the
 first were off by one

---
 csvp/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index afe7c7b..9e01eca 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -26,6 +26,7 @@ pub struct Parser<'a> {
     chars: iter::Peekable<str::Chars<'a>>,
     source_line: usize,
     source_offset: isize,
+    at_line_end: bool,
 }
 
 #[derive(Debug)]
@@ -74,6 +75,7 @@ impl<'a> Parser<'a> {
             source_line: 0,
             // -1 because we're going to increment as we consume characters
             source_offset: -1,
+            at_line_end: false,
         }
     }
 
@@ -247,12 +249,13 @@ impl<'a> Parser<'a> {
 
     fn consume_char(&mut self) -> Option<char> {
         if let Some(c) = self.chars.next() {
-            if is_record_terminator(c) {
+            if self.at_line_end {
                 self.source_line += 1;
                 self.source_offset = 0;
             } else {
                 self.source_offset += 1;
             }
+            self.at_line_end = is_record_terminator(c);
             Some(c)
         } else {
             None
-- 
2.43.0


From 51e9f167d79cdcb6f37074b3fbdfce3063628468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 04/63] fix: keep a field's positions aligned with its trimmed
 value

---
 csvp/src/field_builder.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/csvp/src/field_builder.rs b/csvp/src/field_builder.rs
index b43603b..d11660e 100644
--- a/csvp/src/field_builder.rs
+++ b/csvp/src/field_builder.rs
@@ -9,10 +9,20 @@ pub(crate) struct FieldBuilder {
 
 impl From<FieldBuilder> for Field {
     fn from(pf: FieldBuilder) -> Self {
+        let value = pf.value.trim().to_string();
+        // `positions` has an entry for every character of `value`, so it's trimmed the same way
+        let leading = pf.value.chars().take_while(|c| c.is_whitespace()).count();
+        let positions = pf
+            .positions
+            .into_iter()
+            .skip(leading)
+            .take(value.chars().count())
+            .collect();
+
         Field {
             address: pf.address,
-            value: pf.value.trim().to_string(),
-            positions: pf.positions,
+            value,
+            positions,
         }
     }
 }
-- 
2.43.0


From 3fa3f42d9d1ccb0244a91cd79051d4d8b1aca745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 05/63] fix: allow a record to be continued on the next line
 after a quoted field

---
 csvp/src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 9e01eca..c2a43df 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -235,6 +235,10 @@ impl<'a> Parser<'a> {
             match self.consume_char() {
                 Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
                 Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
+                Some('\\') if self.next_is_newline() => {
+                    // the record continues on the next line
+                    self.consume_char();
+                }
                 Some(c) if c.is_whitespace() => continue,
                 Some(c) => {
                     // it's not whitespace or a comma
-- 
2.43.0


From a15e466e1fc6e96e946107b733ce7cb4792474ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 06/63] fix: keep the sign of a signed number behind another
 prefix operator

---
 src/parser/ast_parser.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 0959cf4..932a159 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -120,28 +120,33 @@ impl<'a> AstParser<'a> {
                     return Err(lhs_token.into_parse_error("Invalid prefix operator"));
                 };
 
-                let sign = if op == "+" {
-                    NumberSign::Positive
-                } else {
-                    NumberSign::Negative
+                // a minus negates the sign of what follows (`--1` is `+1`) and a plus keeps it
+                let apply_sign = |sign: Option<NumberSign>| match (op, sign) {
+                    ("+", Some(NumberSign::Negative)) => NumberSign::Negative,
+                    ("+", _) | (_, Some(NumberSign::Negative)) => NumberSign::Positive,
+                    _ => NumberSign::Negative,
                 };
 
                 let rhs = self.expr_bp(r_bp)?;
                 match *rhs {
                     Node::Integer {
-                        percentage, value, ..
+                        percentage,
+                        sign,
+                        value,
                     } => Node::Integer {
                         percentage,
-                        sign: Some(sign),
+                        sign: Some(apply_sign(sign)),
                         value,
                     }
                     .into(),
 
                     Node::Float {
-                        percentage, value, ..
+                        percentage,
+                        sign,
+                        value,
                     } => Node::Float {
                         percentage,
-                        sign: Some(sign),
+                        sign: Some(apply_sign(sign)),
                         value,
                     }
                     .into(),
-- 
2.43.0


From e62054aefb5492ff2dc9f15873436c98b8e191a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 07/63] fix: keep empty function arguments and require commas
 between arguments

---
 src/parser/ast_parser.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 932a159..77653e2 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -203,18 +203,31 @@ impl<'a> AstParser<'a> {
 
                     let mut args = vec![];
 
-                    // consume arguments (expressions) until we see a close paren
+                    // consume arguments (expressions, or nothing for an argument that's left empty)
+                    // separated by commas until we see a close paren
                     loop {
                         match self.lexer.peek().token {
-                            Token::CloseParen => {
+                            Token::CloseParen if args.is_empty() => {
                                 self.lexer.next();
                                 break;
                             }
-                            Token::Comma => {
-                                self.lexer.next();
+                            Token::CloseParen | Token::Comma => {
+                                args.push(Node::reference("").into());
                             }
                             _ => args.push(self.expr_bp(0)?),
                         }
+
+                        let t = self.lexer.next();
+                        match t.token {
+                            Token::Comma => (),
+                            Token::CloseParen => break,
+                            Token::Eof => return Err(t.into_parse_error("Expected an expression")),
+                            _ => {
+                                return Err(t.into_parse_error(
+                                    "Expected a comma or close parenthesis (`)`)",
+                                ))
+                            }
+                        }
                     }
 
                     Node::FunctionCall { name: id, args }.into()
-- 
2.43.0


From 38ce6797e19bbe40ab39ea87c960d5c0bf3c4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 08/63] fix: names that begin with true, false or use are
 references

---
 src/parser/ast_lexer/token_library.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index 68659f4..1cb4d4e 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -37,8 +37,8 @@ impl TokenLibrary {
         static TOKEN_LIBRARY: sync::OnceLock<TokenLibrary> = sync::OnceLock::new();
 
         TOKEN_LIBRARY.get_or_init(|| Self {
-            boolean_true: TokenMatcher::new(r"true", Token::Boolean),
-            boolean_false: TokenMatcher::new(r"false", Token::Boolean),
+            boolean_true: TokenMatcher::new(r"true\b", Token::Boolean),
+            boolean_false: TokenMatcher::new(r"false\b", Token::Boolean),
             comma: TokenMatcher::new(r",", Token::Comma),
             comment: TokenMatcher::new(r"(?m)#.*", Token::Comment),
             code_section_eof: TokenMatcher::new(r"---", Token::CodeSectionEof),
@@ -54,7 +54,7 @@ impl TokenLibrary {
             newline: TokenMatcher::new(r"\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
             reference: TokenMatcher::new(r"[$!\w:]+[$!\w:.]?", Token::Reference),
-            use_module: TokenMatcher::new(r"use", Token::UseModule),
+            use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
     }
-- 
2.43.0


From f7a2e23f93a8adefe7eaaaa0345cdb6bf649fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 09/63] fix: a reference may contain dots anywhere but at its
 start

---
 src/parser/ast_lexer/token_library.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index 1cb4d4e..b90121a 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -53,7 +53,7 @@ impl TokenLibrary {
             fn_def: TokenMatcher::new(r"fn\s+", Token::FunctionDefinition),
             newline: TokenMatcher::new(r"\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
-            reference: TokenMatcher::new(r"[$!\w:]+[$!\w:.]?", Token::Reference),
+            reference: TokenMatcher::new(r"[$!\w:][$!\w:.]*", Token::Reference),
             use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
-- 
2.43.0


From 60229a0503415ac7d1e266b577f70d8df52b1a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 10/63] fix: report what follows a complete formula instead of
 dropping it

---
 src/parser/ast_parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 77653e2..a82b36d 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -53,7 +53,16 @@ impl<'a> AstParser<'a> {
         field: Option<Field>,
         source_code: ArcSourceCode,
     ) -> ParseResult<Ast> {
-        AstParser::new(&AstLexer::new(input, field, source_code)?, single_expr).expr_bp(0)
+        let lexer = AstLexer::new(input, field, source_code)?;
+        let parser = AstParser::new(&lexer, single_expr);
+        let expr = parser.expr_bp(0)?;
+
+        // the whole `input` is the expression, so there can't be anything after it
+        let t = lexer.next();
+        match t.token {
+            Token::Eof => Ok(expr),
+            _ => Err(t.into_parse_error("Expected the end of the expression")),
+        }
     }
 
     /// Parse `input` from the command line, specified as a simple key/value string like
-- 
2.43.0


From 14f41d3bf628eb7c0fc3e993ce9fde9f5f11d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 11/63] fix: substitute all of a function's arguments at once

---
 src/ast/eval.rs | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 2c6bfc7..fed630b 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -23,7 +23,7 @@ impl Ast {
             last_round_refs = refs.clone();
 
             evaled_ast = evaled_ast
-                .eval_variables(Self::resolve_variables(
+                .eval_variables(&Self::resolve_variables(
                     scope,
                     refs.variables.into_iter(),
                     position,
@@ -76,13 +76,8 @@ impl Ast {
 
     /// Use the mapping in `variable_values` to replace each variable referenced in the AST with
     /// it's given replacement.
-    fn eval_variables(&self, variable_values: Variables) -> Self {
-        let mut evaled_ast = self.clone();
-        for (var_id, replacement) in variable_values {
-            evaled_ast = evaled_ast.replace_variable(&var_id, replacement);
-        }
-
-        evaled_ast
+    fn eval_variables(&self, variable_values: &Variables) -> Self {
+        self.replace_variables(variable_values)
     }
 
     /// Do a depth-first-search on the AST, "calling" the function wherever we see a
@@ -121,13 +116,9 @@ impl Ast {
                             ));
                         }
 
-                        let mut evaled_body = body;
-                        for (i, resolved_arg) in resolved_args.iter().enumerate() {
-                            evaled_body =
-                                evaled_body.replace_variable(resolved_arg, args[i].clone());
-                        }
-
-                        evaled_body
+                        // all at once, because an argument's value can mention another argument's
+                        // name
+                        body.replace_variables(&resolved_args.into_iter().zip(args).collect())
                     }
 
                     // otherwise the function resolved to a non-function.  just treat that as
@@ -177,8 +168,9 @@ impl Ast {
         })
     }
 
-    /// Depth-first-search replacing `Node::Reference`s of `var_id` with `replacement`.
-    fn replace_variable(&self, var_id: &str, replacement: Self) -> Self {
+    /// Depth-first-search replacing each `Node::Reference` to one of the `replacements`.  The
+    /// replacements themselves are not searched.
+    fn replace_variables(&self, replacements: &Variables) -> Self {
         let inner = (**self).clone();
         Ast::new(match inner {
             Node::FunctionCall { args, name } => {
@@ -186,7 +178,7 @@ impl Ast {
                     // recursively call for each arg to a function
                     args: args
                         .into_iter()
-                        .map(|a| a.replace_variable(var_id, replacement.clone()))
+                        .map(|a| a.replace_variables(replacements))
                         .collect(),
                     name,
                 }
@@ -195,7 +187,7 @@ impl Ast {
             Node::Function { args, body, name } => Node::Function {
                 name,
                 args,
-                body: body.replace_variable(var_id, replacement.clone()),
+                body: body.replace_variables(replacements),
             },
 
             Node::InfixFunctionCall {
@@ -203,20 +195,23 @@ impl Ast {
                 operator,
                 right,
             } => Node::InfixFunctionCall {
-                left: left.replace_variable(var_id, replacement.clone()),
+                left: left.replace_variables(replacements),
                 operator,
-                right: right.replace_variable(var_id, replacement.clone()),
+                right: right.replace_variables(replacements),
             },
 
-            // a reference matching our variable - take the replacement
-            Node::Reference(r) if var_id == r => replacement.into_inner(),
+            // a reference matching one of our variables - take the replacement
+            Node::Reference(r) => match replacements.get(&r) {
+                Some(replacement) => replacement.clone().into_inner(),
+                None => Node::Reference(r),
+            },
 
             Node::Variable {
                 value: VariableValue::Ast(ast),
                 name,
             } => Node::Variable {
                 name,
-                value: VariableValue::Ast(ast.replace_variable(var_id, replacement.clone())),
+                value: VariableValue::Ast(ast.replace_variables(replacements)),
             },
 
             // otherwise keep the Node unmodified
-- 
2.43.0


From 5ea0c93a20dadbadd99f69ef02401cf168019db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 12/63] fix: evaluate calls of a function in the arguments of
 another call to it

---
 src/ast/eval.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index fed630b..2a22ba1 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -105,6 +105,12 @@ impl Ast {
                         body,
                         ..
                     } => {
+                        // the arguments can call this same function
+                        let args = args
+                            .into_iter()
+                            .map(|arg| arg.call_function(fn_id, fn_ast))
+                            .collect::<EvalResult<Vec<_>>>()?;
+
                         if args.len() != resolved_args.len() {
                             return Err(EvalError::new(
                                 fn_ast.to_string(),
-- 
2.43.0


From 8afe2501c15ee384b9d2a55b9088dc10d3ce3e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 13/63] fix: the expected and received number of arguments were
 swapped

---
 src/ast/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 2a22ba1..e9bea49 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -116,8 +116,8 @@ impl Ast {
                                 fn_ast.to_string(),
                                 format!(
                                     "Expected {} arguments but received {}",
-                                    args.len(),
-                                    resolved_args.len()
+                                    resolved_args.len(),
+                                    args.len()
                                 ),
                             ));
                         }
-- 
2.43.0


From f2106c002e6ade702253f9194f8f618384bb4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 14/63] fix: mutually recursive definitions were evaluated
 forever

---
 src/ast/eval.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index e9bea49..af22150 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -10,17 +10,18 @@ use std::collections;
 impl Ast {
     /// The idea here is just to keep looping as long as we are making progress eval()ing. Where
     /// progress means that `.extract_references()` returns a different, non-empty result each
-    /// time.
+    /// time.  (A result we've had before means that there are definitions which, directly or via
+    /// others, refer to themselves.)
     pub(crate) fn eval(self, scope: &Scope, position: Option<a1::Address>) -> EvalResult<Self> {
         let mut evaled_ast = self;
-        let mut last_round_refs = AstReferences::default();
+        let mut seen_refs: Vec<AstReferences> = vec![];
 
         loop {
             let refs = evaled_ast.extract_references(scope);
-            if refs.is_empty() || refs == last_round_refs {
+            if refs.is_empty() || seen_refs.contains(&refs) {
                 break;
             }
-            last_round_refs = refs.clone();
+            seen_refs.push(refs.clone());
 
             evaled_ast = evaled_ast
                 .eval_variables(&Self::resolve_variables(
-- 
2.43.0


From ba3d470e14b49152e76b8187c7f90ee48f8a020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 15/63] fix: evaluate functions in the same order on every run

---
 src/ast/eval.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index af22150..b5acf47 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -61,6 +61,10 @@ impl Ast {
     /// replacement.  Unlike variable resolution, we can't produce the values up front because the
     /// resolution function requires being called with the `arguments` at the call site.
     fn eval_functions(self, fns_to_resolve: ReferencesIter, scope: &Scope) -> EvalResult<Self> {
+        // the references come out of a hash set, don't let its order decide the result
+        let mut fns_to_resolve = fns_to_resolve.collect::<Vec<_>>();
+        fns_to_resolve.sort();
+
         let mut evaled_ast = self;
         for fn_name in fns_to_resolve {
             if let Some(fn_ast) = scope.functions.get(&fn_name) {
-- 
2.43.0


From 63c0d74c9e66c49bc457201ab67f1f5be84c8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 16/63] fix: reject a second percent sign instead of dropping
 it

---
 src/parser/ast_parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index a82b36d..0c4da67 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -242,14 +242,22 @@ impl<'a> AstParser<'a> {
                     Node::FunctionCall { name: id, args }.into()
                 } else if op == "%" {
                     match *lhs {
-                        Node::Float { sign, value, .. } => Node::Float {
+                        Node::Float {
+                            percentage: false,
+                            sign,
+                            value,
+                        } => Node::Float {
                             percentage: true,
                             sign,
                             value,
                         }
                         .into(),
 
-                        Node::Integer { sign, value, .. } => Node::Integer {
+                        Node::Integer {
+                            percentage: false,
+                            sign,
+                            value,
+                        } => Node::Integer {
                             percentage: true,
                             sign,
                             value,
-- 
2.43.0


From 685504b31f32d0e6bb33727df516fff0f6156ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 17/63] fix: offsets into cells and formulas mixed up bytes and
 characters

---
 src/parser/ast_lexer/mod.rs           |  8 ++++++--
 src/parser/ast_lexer/unknown_token.rs |  3 +--
 src/parser/cell_lexer/mod.rs          | 10 ++++++----
 src/parser/token_matcher.rs           |  3 ++-
 src/rgb/try_from.rs                   |  2 +-
 5 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 50b6aac..92ac365 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -86,7 +86,11 @@ impl<'a> AstLexer<'a> {
                         tokens.push(TokenMatch {
                             token,
                             str_match: m.str_match,
-                            position: (line_offset + m.len_leading_whitespace, line_number).into(),
+                            position: (
+                                line_offset + p[..m.len_leading_whitespace].chars().count(),
+                                line_number,
+                            )
+                                .into(),
                             field: field.clone(),
                             source_code: source_code.clone(),
                         });
@@ -96,7 +100,7 @@ impl<'a> AstLexer<'a> {
                         // move line_offset back to the beginning
                         line_offset = 0;
                     } else {
-                        line_offset += m.len_full_match;
+                        line_offset += p[..m.len_full_match].chars().count();
                     }
 
                     // move the input past the match
diff --git a/src/parser/ast_lexer/unknown_token.rs b/src/parser/ast_lexer/unknown_token.rs
index 9adb416..3ac3ea2 100644
--- a/src/parser/ast_lexer/unknown_token.rs
+++ b/src/parser/ast_lexer/unknown_token.rs
@@ -13,8 +13,7 @@ pub(crate) struct UnknownToken {
 
 impl fmt::Display for UnknownToken {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let mut shortened_bad_input = self.bad_input.clone();
-        shortened_bad_input.truncate(50);
+        let shortened_bad_input: String = self.bad_input.chars().take(50).collect();
         write!(f, "{shortened_bad_input}")
     }
 }
diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 0cc4725..39c6043 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -280,7 +280,7 @@ impl<'a> CellLexer<'a> {
         for c in self.input.chars() {
             // due to escaping rules, we don't always put what we consume on `matched`.  so we need
             // to keep track of it separately
-            consumed += 1;
+            consumed += c.len_utf8();
 
             if start_quote {
                 if escape_mode {
@@ -339,9 +339,11 @@ impl<'a> CellLexer<'a> {
         self.cell_offset.saturating_sub(1)
     }
 
-    fn move_input(&mut self, amount: CharOffset) {
-        self.input = &self.input[amount..];
-        self.cell_offset += amount;
+    /// Move past the first `amount` bytes of the input
+    fn move_input(&mut self, amount: usize) {
+        let (consumed, rest) = self.input.split_at(amount);
+        self.cell_offset += consumed.chars().count();
+        self.input = rest;
     }
 
     fn replace_input(&mut self, new_input: &'a str, amount: CharOffset) {
diff --git a/src/parser/token_matcher.rs b/src/parser/token_matcher.rs
index a43b4f4..944ac75 100644
--- a/src/parser/token_matcher.rs
+++ b/src/parser/token_matcher.rs
@@ -16,7 +16,8 @@ fn whitespace_start(input: &str) -> usize {
     input
         .chars()
         .take_while(|ch| ch.is_whitespace() && *ch != '\n' && *ch != '\r')
-        .count()
+        .map(char::len_utf8)
+        .sum()
 }
 
 impl<T> TokenMatcher<T> {
diff --git a/src/rgb/try_from.rs b/src/rgb/try_from.rs
index 4967e8a..52b3b03 100644
--- a/src/rgb/try_from.rs
+++ b/src/rgb/try_from.rs
@@ -39,7 +39,7 @@ impl TryFrom<TokenMatch> for Rgb {
         let start_at = usize::from(str_match.starts_with('#'));
         let input_len = str_match.len() - start_at;
 
-        if input_len == 3 || input_len == 6 {
+        if str_match.is_ascii() && (input_len == 3 || input_len == 6) {
             let (r, g, b) = parse_str(&str_match[start_at..])
                 .map_err(|e| input.into_parse_error(format!("Error parsing hex string: {e}")))?;
             Ok(Rgb::new(r, g, b))
-- 
2.43.0


From 8685597750a00063e00a569102ac049978329370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 18/63] fix: malformed references in in_range(..) panicked

---
 src/parser/cell_parser/validate.rs | 34 ++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 56eeec1..a0f803c 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -27,6 +27,36 @@ macro_rules! validate {
     };
 }
 
+/// Does `s` have the shape of an A1 reference?  `a1::new` only reports some of the strings which
+/// don't - columns without (or with far too many) letters and non-ASCII characters make it panic.
+fn is_a1_like(s: &str) -> bool {
+    let quoted = s.starts_with('\'');
+    let split = if quoted {
+        s.rsplit_once('!')
+    } else {
+        s.split_once('!')
+    };
+    let (sheet_name, reference) = split.unwrap_or(("", s));
+
+    let is_row = |part: &str| {
+        let digits = part.strip_prefix('$').unwrap_or(part);
+        !digits.is_empty() && digits.chars().all(|c| c.is_ascii_digit())
+    };
+    let is_column_or_cell = |part: &str| {
+        let part = part.strip_prefix('$').unwrap_or(part);
+        let row = part.trim_start_matches(|c: char| c.is_ascii_alphabetic());
+        (1..=3).contains(&(part.len() - row.len())) && (row.is_empty() || is_row(row))
+    };
+
+    (!quoted || sheet_name.is_ascii())
+        && match reference.split_once(':') {
+            Some((from, to)) => {
+                (is_row(from) && is_row(to)) || (is_column_or_cell(from) && is_column_or_cell(to))
+            }
+            None => is_column_or_cell(reference),
+        }
+}
+
 impl CellParser<'_, '_> {
     pub(super) fn validate(&mut self) -> ParseResult<()> {
         let name = self.lexer.take_option_right_side()?;
@@ -258,6 +288,10 @@ impl CellParser<'_, '_> {
     validate!(self, validate_value_in_range, {
         take_parens!(self, {
             let a1_match = self.lexer.take_token(Token::A1)?;
+            if !is_a1_like(&a1_match.str_match) {
+                return Err(a1_match.into_parse_error("Expected an A1 reference"));
+            }
+
             DataValidation::ValueInRange(
                 a1::new(&a1_match.str_match).map_err(|e| {
                     a1_match.into_parse_error(format!("Expected an A1 reference: {e}"))
-- 
2.43.0


From 99c4facc2f63d5d2855663a7761b2726c0086098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 19/63] fix: a huge or overflowing amount of rows to fill is an
 error

---
 src/spreadsheet/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/spreadsheet/mod.rs b/src/spreadsheet/mod.rs
index e308216..1cc6bf0 100644
--- a/src/spreadsheet/mod.rs
+++ b/src/spreadsheet/mod.rs
@@ -9,6 +9,9 @@ use std::collections;
 
 mod display;
 
+/// The most rows that Excel and LibreOffice can open
+const SPREADSHEET_ROW_MAX: usize = 1_048_576;
+
 #[derive(Clone, Debug, Default, Deserialize, PartialEq, Serialize)]
 pub struct Spreadsheet {
     pub rows: Vec<Row>,
@@ -33,6 +36,13 @@ impl Spreadsheet {
             ));
         }
 
+        if self.total_finite_rows() > SPREADSHEET_ROW_MAX {
+            return Err(EvalError::new(
+                "![[fill]]",
+                format!("Filling would take more than {SPREADSHEET_ROW_MAX} rows"),
+            ));
+        }
+
         let mut rows = Vec::with_capacity(self.rows.len());
         let mut row_num = 0;
         let rows_left_over = self.rows_left_over();
@@ -168,11 +178,14 @@ impl Spreadsheet {
     }
 
     fn rows_left_over(&self) -> usize {
-        let total_rows_minus_infinite = self.rows.iter().fold(0, |acc, row| {
-            acc + row.fill.map_or(1, |f| f.amount.unwrap_or(0))
-        });
+        ROW_MAX.saturating_sub(self.total_finite_rows())
+    }
 
-        ROW_MAX.saturating_sub(total_rows_minus_infinite)
+    /// How many rows there will be after filling, not counting the ones from an infinite fill
+    fn total_finite_rows(&self) -> usize {
+        self.rows.iter().fold(0usize, |acc, row| {
+            acc.saturating_add(row.fill.map_or(1, |f| f.amount.unwrap_or(0)))
+        })
     }
 }
 
-- 
2.43.0


From 5fc4a33fc160f6909d54d18db5865a1715313bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 20/63] fix: accept every documented name of a validation

---
 src/parser/cell_parser/validate.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index a0f803c..130c14a 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -67,26 +67,30 @@ impl CellParser<'_, '_> {
             "date_lt" | "date_before" => self.validate_date_before(),
             "date_btwn" | "date_between" => self.validate_date_between(),
             "date_eq" | "date_equal_to" => self.validate_date_equal_to(),
-            "in_list" => self.validate_value_in_list(),
-            "in_range" => self.validate_value_in_range(),
+            "in_list" | "value_in_list" => self.validate_value_in_list(),
+            "in_range" | "value_in_range" => self.validate_value_in_range(),
             "is_date" | "date_is_valid" => self.validate_date_is_valid(),
-            "is_email" | "is_valid_email" => self.validate_text_is_valid_email(),
-            "is_url" | "is_valid_url" => self.validate_text_is_valid_url(),
+            "is_email" | "is_valid_email" | "text_is_valid_email" => {
+                self.validate_text_is_valid_email()
+            }
+            "is_url" | "is_valid_url" | "text_is_valid_url" => self.validate_text_is_valid_url(),
             "date_nbtwn" | "date_not_between" => self.validate_date_not_between(),
             "date_gte" | "date_on_or_after" => self.validate_date_on_or_after(),
             "date_lte" | "date_on_or_before" => self.validate_date_on_or_before(),
-            "num_btwn" | "number_between" => self.validate_number_between(),
-            "num_eq" | "number_equal_to" => self.validate_number_equal_to(),
-            "num_gt" | "number_greater_than" => self.validate_number_greater_than(),
-            "num_gte" | "number_greater_than_or_equal_to" => {
+            "num_btwn" | "number_btwn" | "number_between" => self.validate_number_between(),
+            "num_eq" | "number_eq" | "number_equal_to" => self.validate_number_equal_to(),
+            "num_gt" | "number_gt" | "number_greater_than" => self.validate_number_greater_than(),
+            "num_gte" | "number_gte" | "number_greater_than_or_equal_to" => {
                 self.validate_number_greater_than_or_equal_to()
             }
-            "num_lt" | "number_less_than" => self.validate_number_less_than(),
-            "num_lte" | "number_less_than_or_equal_to" => {
+            "num_lt" | "number_lt" | "number_less_than" => self.validate_number_less_than(),
+            "num_lte" | "number_lte" | "number_less_than_or_equal_to" => {
                 self.validate_number_less_than_or_equal_to()
             }
-            "num_nbtwn" | "number_not_between" => self.validate_number_not_between(),
-            "num_neq" | "number_not_equal_to" => self.validate_number_not_equal_to(),
+            "num_nbtwn" | "number_nbtwn" | "number_not_between" => {
+                self.validate_number_not_between()
+            }
+            "num_neq" | "number_neq" | "number_not_equal_to" => self.validate_number_not_equal_to(),
             "text_contains" => self.validate_text_contains(),
             "text_does_not_contain" => self.validate_text_does_not_contain(),
             "text_eq" | "text_equal_to" => self.validate_text_equal_to(),
-- 
2.43.0


From bdb5035c8aebdd18dd33897aeaf19fce98a7e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 21/63] fix: variables in a fill ended at row 1000 instead of
 at the end of the fill

---
 src/cell_options/fill/mod.rs |  3 +--
 src/spreadsheet/mod.rs       | 10 +++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cell_options/fill/mod.rs b/src/cell_options/fill/mod.rs
index c9468da..a9be384 100644
--- a/src/cell_options/fill/mod.rs
+++ b/src/cell_options/fill/mod.rs
@@ -2,7 +2,6 @@
 //!
 use a1::Row;
 use serde::{Deserialize, Serialize};
-use std::cmp;
 
 mod into;
 
@@ -26,7 +25,7 @@ impl Fill {
     #[must_use]
     pub(crate) fn end_row(&self) -> Row {
         if let Some(a) = self.amount {
-            cmp::min(self.start_row.y + a, ROW_MAX).into()
+            (self.start_row.y + a).into()
         } else {
             ROW_MAX.into()
         }
diff --git a/src/spreadsheet/mod.rs b/src/spreadsheet/mod.rs
index 1cc6bf0..a15283d 100644
--- a/src/spreadsheet/mod.rs
+++ b/src/spreadsheet/mod.rs
@@ -1,7 +1,7 @@
 //! # Spreadsheet
 //!
 use crate::ast::{Ast, Node, VariableValue, Variables};
-use crate::cell_options::ROW_MAX;
+use crate::cell_options::{Fill, ROW_MAX};
 use crate::{ArcSourceCode, Error, EvalError, EvalResult, Result, Row};
 use log::trace;
 use serde::{Deserialize, Serialize};
@@ -49,8 +49,12 @@ impl Spreadsheet {
 
         for row in self.rows {
             if let Some(f) = row.fill {
-                let new_fill = f.clone_to_row(row_num);
-                let fill_amount = new_fill.amount.unwrap_or(rows_left_over);
+                let fill_amount = f.amount.unwrap_or(rows_left_over);
+                // now that it's final, keep the amount of rows: there can be other rows after it
+                let new_fill = Fill {
+                    amount: Some(fill_amount),
+                    ..f.clone_to_row(row_num)
+                };
 
                 for _ in 0..fill_amount {
                     rows.push(Row {
-- 
2.43.0


From 2cfa155dbd5ec9e81d0d1a651e5dfdad2efeced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 22/63] fix: variables shadowed the arguments of imported
 functions of the same name

---
 src/ast/eval.rs          | 29 ++++++++++++++++++++++++-----
 src/ast/references.rs    | 12 +++++++++---
 src/module_loader/mod.rs |  7 +++++++
 3 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index b5acf47..c5ba712 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -35,6 +35,17 @@ impl Ast {
         Ok(evaled_ast)
     }
 
+    /// Replace the variables but leave the function calls alone.  The definitions in `scope` have to
+    /// be `eval()`ed already.
+    pub(crate) fn eval_only_variables(&self, scope: &Scope) -> Self {
+        let refs = self.extract_references(scope);
+        self.eval_variables(&Self::resolve_variables(
+            scope,
+            refs.variables.into_iter(),
+            None,
+        ))
+    }
+
     /// Variables can all be resolved in one go - we just loop them by name and resolve the ones
     /// that we can and leave the rest alone.
     fn resolve_variables(
@@ -195,11 +206,19 @@ impl Ast {
                 }
             }
 
-            Node::Function { args, body, name } => Node::Function {
-                name,
-                args,
-                body: body.replace_variables(replacements),
-            },
+            // the arguments of a function take precedence over variables of the same name
+            Node::Function { args, body, name } => {
+                let mut replacements = replacements.clone();
+                for arg in &args {
+                    replacements.remove(arg);
+                }
+
+                Node::Function {
+                    name,
+                    body: body.replace_variables(&replacements),
+                    args,
+                }
+            }
 
             Node::InfixFunctionCall {
                 left,
diff --git a/src/ast/references.rs b/src/ast/references.rs
index 0abca64..ad31064 100644
--- a/src/ast/references.rs
+++ b/src/ast/references.rs
@@ -29,9 +29,15 @@ impl AstReferences {
                 }
             }
 
-            Node::Function { body, .. } => {
-                // just the body can be an AST so recure on that
-                self.extract_dfs(body, scope);
+            Node::Function { args, body, .. } => {
+                // just the body can be an AST so recure on that.  but in there the arguments take
+                // precedence over variables of the same name
+                let mut body_references = Self::default();
+                body_references.extract_dfs(body, scope);
+                body_references.variables.retain(|v| !args.contains(v));
+
+                self.functions.extend(body_references.functions);
+                self.variables.extend(body_references.variables);
             }
 
             Node::InfixFunctionCall { left, right, .. } => {
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index dcdf549..79939d0 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -264,6 +264,13 @@ impl ModuleLoader {
             }
 
             eval_ast!(to_resolve.scope, variables, to_resolve.source_code);
+
+            // a call will be replaced by the body of the function, where the arguments of the calling
+            // function must not be mistaken for the variables that the body uses
+            for (name, ast) in to_resolve.scope.functions.clone() {
+                let ast = ast.eval_only_variables(&to_resolve.scope);
+                to_resolve.scope.functions.insert(name, ast);
+            }
             eval_ast!(to_resolve.scope, functions, to_resolve.source_code);
 
             // now that we've evaled it that's the last step, write the csvpo file
-- 
2.43.0


From 9d353eb7841397efa2d05dca140d04fcd6b328bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 23/63] fix: calls to imported functions were not evaluated in
 the bodies of functions

---
 src/ast/eval.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index c5ba712..2c29474 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -164,6 +164,14 @@ impl Ast {
                 .into()
             }
 
+            // the body of a function can call other functions
+            Node::Function { args, body, name } => Node::Function {
+                name,
+                args,
+                body: body.call_function(fn_id, fn_ast)?,
+            }
+            .into(),
+
             // also recurse for infix functions
             Node::InfixFunctionCall {
                 left,
-- 
2.43.0


From 9ff542337e8b90a3806038afb95246cb50dad98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 24/63] fix: requiring a module twice panicked

---
 src/module_loader/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 79939d0..6e8fe03 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -101,13 +101,14 @@ impl ModuleLoader {
                     .into_inner()?,
             ))
         } else {
-            let mut loaded = self.loaded.write()?;
+            let loaded = self.loaded.read()?;
             let mut main_module = self.main_module;
 
             for req_path in &main_module.required_modules {
-                main_module
-                    .scope
-                    .merge(&loaded.remove(req_path).unwrap().scope);
+                // a module can be required more than once
+                if let Some(required_module) = loaded.get(req_path) {
+                    main_module.scope.merge(&required_module.scope);
+                }
             }
 
             Ok(main_module)
-- 
2.43.0


From 17ec29095630acb7208449abc9c98d1edbc65403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:45 +0000
Subject: [PATCH 25/63] fix: panic when a module required by a dependency can't
 be loaded

---
 src/module_loader/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 6e8fe03..ecf0f88 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -83,7 +83,10 @@ impl ModuleLoader {
             }
         }
 
-        module_loader.eval_dependencies()?;
+        // with failures there might be modules missing (and they are reported when merging)
+        if !module_loader.has_failures() {
+            module_loader.eval_dependencies()?;
+        }
 
         let mut main = module_loader.merge_direct_dependencies()?;
         main.is_dirty = were_any_deps_dirty;
-- 
2.43.0


From 3d3cde50d51ae1bdd73807b52ddd6048fc4ebe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 26/63] fix: existing values beyond the module's rows and
 columns were lost in CSV files

---
 src/target/csv/compilation_target.rs | 51 ++++++++++++++++++----------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/target/csv/compilation_target.rs b/src/target/csv/compilation_target.rs
index f60b960..96c66ed 100644
--- a/src/target/csv/compilation_target.rs
+++ b/src/target/csv/compilation_target.rs
@@ -1,5 +1,6 @@
 use crate::target::{file_backer_upper, merge_rows, CompilationTarget, Csv, MergeResult};
 use crate::{Module, Result};
+use std::cmp;
 
 impl CompilationTarget for Csv<'_> {
     fn write_backup(&self) -> Result<()> {
@@ -10,7 +11,30 @@ impl CompilationTarget for Csv<'_> {
     fn write(&self, module: &Module) -> Result<()> {
         let existing_values = Self::read(&self.path, &self.compiler.output)?;
 
-        let widest_row = module.spreadsheet.widest_row();
+        // merge before writing anything: the existing values might have more rows or wider ones than
+        // the module, and those have to be kept
+        let rows = (0..cmp::max(existing_values.cells.len(), module.spreadsheet.rows.len()))
+            .map(|index| {
+                let existing_row = existing_values.cells.get(index).map_or(&[][..], |r| r);
+                let module_row = module.spreadsheet.rows.get(index);
+
+                merge_rows(
+                    existing_row,
+                    module_row.map_or(&[][..], |r| &r.cells),
+                    &self.compiler.config,
+                )
+            })
+            .collect::<Vec<_>>();
+
+        let widest_row = cmp::max(
+            existing_values
+                .cells
+                .iter()
+                .map(Vec::len)
+                .max()
+                .unwrap_or(0),
+            module.spreadsheet.widest_row(),
+        );
 
         let mut writer = csv::WriterBuilder::new()
             .flexible(true)
@@ -20,22 +44,15 @@ impl CompilationTarget for Csv<'_> {
                     .output_error(format!("Unable to open output file for writing: {e:?}"))
             })?;
 
-        for (index, row) in module.spreadsheet.rows.iter().enumerate() {
-            let mut output_row: Vec<String> = merge_rows(
-                existing_values
-                    .cells
-                    .get(index)
-                    .unwrap_or(&vec![].to_owned()),
-                &row.cells,
-                &self.compiler.config,
-            )
-            .iter()
-            .map(|cell| match cell {
-                MergeResult::New(v) => v.to_string(),
-                MergeResult::Existing(v) => v.to_string(),
-                MergeResult::Empty => String::new(),
-            })
-            .collect();
+        for (index, row) in rows.iter().enumerate() {
+            let mut output_row: Vec<String> = row
+                .iter()
+                .map(|cell| match cell {
+                    MergeResult::New(v) => v.to_string(),
+                    MergeResult::Existing(v) => v.to_string(),
+                    MergeResult::Empty => String::new(),
+                })
+                .collect();
 
             // all rows have to be as wide as the widest row
             output_row.resize(widest_row, String::new());
-- 
2.43.0


From 28456cade5f10e9f72b5c26df99d6f067226ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 27/63] fix: the order in which failed modules are reported was
 random

---
 src/error/display.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/error/display.rs b/src/error/display.rs
index 2941bdd..113ef39 100644
--- a/src/error/display.rs
+++ b/src/error/display.rs
@@ -74,6 +74,10 @@ csv++ with `GOOGLE_APPLICATION_CREDENTIALS` or the `--google-account-credentials
             }
 
             Self::ModuleLoadErrors(errors) => {
+                // always in the same order
+                let mut errors = errors.iter().collect::<Vec<_>>();
+                errors.sort_by_key(|(m, _)| *m);
+
                 for (m, e) in errors {
                     writeln!(f, "Error loading module {m}")?;
                     writeln!(f, "{e}")?;
-- 
2.43.0


From f35d793b99b2c095a8ad3ef162c3bdf74a49ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 28/63] fix: --no-cache used the object code of the main file

---
 src/compiler/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index d4b6ac4..bdb34a1 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -44,8 +44,11 @@ impl Compiler {
         let main_module_path: ModulePath =
             path::Path::new(main_filename).to_path_buf().try_into()?;
 
-        let main_module =
-            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?;
+        let main_module = if self.config.use_cache {
+            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?
+        } else {
+            Module::load_from_source_from_filename(main_module_path, self.input_filename.clone())?
+        };
 
         debug!("Loading dependencies for {}", &main_module.module_path);
         let mut main_module =
-- 
2.43.0


From 69e7cf66348707aec9a496bca45246d8ac13da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 29/63] fix: object code of older versions was used, that of
 newer ones was not

---
 src/module/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 5d9d807..a9c5a02 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -255,8 +255,8 @@ impl Module {
         // if the version is less than ours, don't use it and recompile instead.  otherwise we can
         // trust that it's ok to use
         self.is_dirty = match this_version.cmp(&loaded_version) {
-            cmp::Ordering::Equal | cmp::Ordering::Greater => false,
-            cmp::Ordering::Less => true,
+            cmp::Ordering::Equal | cmp::Ordering::Less => false,
+            cmp::Ordering::Greater => true,
         };
 
         Ok(())
-- 
2.43.0


From 240faceac27b2af53f5958bf24e28dd45a5c5d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 30/63] fix: cached modules kept what other modules and the
 command line had been before

---
 src/compiler/mod.rs      | 18 ++------
 src/module/mod.rs        | 35 ++++----------
 src/module_loader/mod.rs | 99 ++--------------------------------------
 3 files changed, 16 insertions(+), 136 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index bdb34a1..bd1ab5e 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -54,21 +54,9 @@ impl Compiler {
         let mut main_module =
             ModuleLoader::load_main(main_module, loader_root, self.config.use_cache)?;
 
-        if main_module.needs_eval {
-            info!("Compiling main module");
-            main_module = self.eval(main_module)?;
-            main_module.needs_eval = false;
-
-            if self.config.use_cache {
-                debug!(
-                    "Writing object file {:?}",
-                    main_module.source_code.object_code_filename()
-                );
-                main_module.write_object_file()?;
-            }
-        } else {
-            info!("Cached main is up to date, skipping compilation");
-        }
+        info!("Compiling main module");
+        main_module = self.eval(main_module)?;
+        main_module.needs_eval = false;
 
         info!("Compiled main: {main_module}");
 
diff --git a/src/module/mod.rs b/src/module/mod.rs
index a9c5a02..b0c115f 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -66,17 +66,6 @@ impl Module {
         })
     }
 
-    fn load_from_object_code<P: AsRef<path::Path>>(
-        module_path: ModulePath,
-        relative_to: &ModulePath,
-        loader_root: P,
-    ) -> Option<Self> {
-        let filename = loader_root
-            .as_ref()
-            .join(module_path.filename_relative_to(relative_to));
-        Self::load_from_object_code_from_filename(filename)
-    }
-
     fn load_from_object_code_from_filename(mut filename: path::PathBuf) -> Option<Self> {
         filename.set_extension("csvpo");
 
@@ -159,7 +148,12 @@ impl Module {
             }
         }
 
-        Self::load_from_source_from_filename(module_path, filename)
+        let mut module = Self::load_from_source_from_filename(module_path, filename)?;
+
+        // write it before anything is evaluated: what it evaluates to also depends on other modules
+        // and on the command line
+        module.write_object_file()?;
+        Ok(module)
     }
 
     pub(crate) fn load_from_cache<P: AsRef<path::Path>>(
@@ -167,18 +161,10 @@ impl Module {
         relative_to: &ModulePath,
         loader_root: P,
     ) -> Result<Self> {
-        if let Some(mut loaded_module) =
-            Self::load_from_object_code(module_path.clone(), relative_to, &loader_root)
-        {
-            loaded_module.check_if_is_dirty()?;
-            Ok(loaded_module)
-        } else {
-            Self::load_from_source_relative(
-                module_path,
-                relative_to,
-                loader_root.as_ref().to_path_buf().clone(),
-            )
-        }
+        let filename = loader_root
+            .as_ref()
+            .join(module_path.clone().filename_relative_to(relative_to));
+        Self::load_from_cache_from_filename(module_path, filename)
     }
 
     pub(crate) fn write_object_file(&mut self) -> Result<()> {
@@ -232,7 +218,6 @@ impl Module {
         // written)
         if source_file_modified > obj_file_modified {
             self.is_dirty = true;
-            self.needs_eval = true;
             return Ok(());
         }
 
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index ecf0f88..c3c4f1a 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -28,7 +28,6 @@ pub(super) struct ModuleLoader {
     loaded: Loaded,
     loader_root: path::PathBuf,
     main_module: Module,
-    is_dirty: bool,
     use_cache: bool,
 }
 
@@ -64,33 +63,17 @@ impl ModuleLoader {
             loaded: sync::Arc::default(),
             main_module,
             loader_root: relative_to.into(),
-            is_dirty: false,
             use_cache,
         };
-        let mut were_any_deps_dirty = false;
-
-        // we need to do this in a loop because every time we reload dirty dependencies we're
-        // pulling in changes to the source code, which could mean the author added a new `use ...`
-        // in which case we need to load it
-        loop {
-            module_loader.load(&module_loader.main_module)?;
-            module_loader = module_loader.propagate_dirty_flag()?;
-            if module_loader.is_dirty {
-                were_any_deps_dirty = true;
-                module_loader.reload_dirty_modules()?;
-            } else {
-                break;
-            }
-        }
+
+        module_loader.load(&module_loader.main_module)?;
 
         // with failures there might be modules missing (and they are reported when merging)
         if !module_loader.has_failures() {
             module_loader.eval_dependencies()?;
         }
 
-        let mut main = module_loader.merge_direct_dependencies()?;
-        main.is_dirty = were_any_deps_dirty;
-        Ok(main)
+        module_loader.merge_direct_dependencies()
     }
 
     /// Returns only the direct dependencies for this module graph.  For example if our Module A
@@ -161,73 +144,6 @@ impl ModuleLoader {
         dep_graph
     }
 
-    fn dirty_nodes(&self) -> collections::HashSet<ModulePath> {
-        let loaded = self.loaded.read().unwrap();
-        let dep_graph = self.load_dependency_graph();
-
-        let mut dirty_nodes: collections::HashSet<ModulePath> = collections::HashSet::default();
-        for node in dep_graph.node_indices().collect::<Vec<_>>() {
-            let Some(module) = loaded.get(&dep_graph[node]) else {
-                continue;
-            };
-
-            if module.is_dirty {
-                for graph_path in algo::simple_paths::all_simple_paths::<Vec<_>, _>(
-                    &dep_graph,
-                    // just assume that the main module is at index 0
-                    graph::NodeIndex::new(0),
-                    node,
-                    1,
-                    None,
-                ) {
-                    for n in graph_path {
-                        dirty_nodes.insert(dep_graph[n].clone());
-                    }
-                }
-            }
-        }
-
-        dirty_nodes
-    }
-
-    fn propagate_dirty_flag(self) -> Result<Self> {
-        let dirty_nodes = self.dirty_nodes();
-        let mut loaded = sync::Arc::try_unwrap(self.loaded)
-            .expect("Unable to access loaded")
-            .into_inner()?;
-
-        let is_dirty = !dirty_nodes.is_empty();
-
-        for mp in dirty_nodes {
-            if let Some(n) = loaded.get_mut(&mp) {
-                n.is_dirty = true;
-            }
-        }
-
-        Ok(Self {
-            loaded: sync::Arc::new(sync::RwLock::new(loaded)),
-            is_dirty,
-            ..self
-        })
-    }
-
-    fn reload_dirty_modules(&mut self) -> Result<()> {
-        let loaded = self.loaded.read().unwrap();
-        for (mp, module) in loaded.iter() {
-            if module.is_dirty {
-                self.loaded.write()?.insert(
-                    mp.clone(),
-                    Module::load_from_source_from_filename(
-                        mp.clone(),
-                        module.source_code.filename.clone(),
-                    )?,
-                );
-            }
-        }
-
-        Ok(())
-    }
-
     fn eval_dependencies(&mut self) -> Result<()> {
         let dep_graph = self.load_dependency_graph();
         let mut loaded = self.loaded.write()?;
@@ -252,10 +168,6 @@ impl ModuleLoader {
                 continue;
             };
 
-            if !to_resolve.needs_eval {
-                continue;
-            }
-
             // let mut local_scope = to_resolve.scope.clone();
             for req_path in to_resolve.required_modules.iter().rev() {
                 let Some(dep_scope) = scopes.get(req_path) else {
@@ -277,11 +189,6 @@ impl ModuleLoader {
             }
             eval_ast!(to_resolve.scope, functions, to_resolve.source_code);
 
-            // now that we've evaled it that's the last step, write the csvpo file
-            if self.use_cache {
-                to_resolve.write_object_file()?;
-            }
-
             scopes.insert(to_resolve.module_path.clone(), to_resolve.scope.clone());
         }
 
-- 
2.43.0


From aecc0c9e2a60be7962780594c879f75fdc7158be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 31/63] fix: object code was bound to the directory csv++ ran
 in, and to files of the same stem

---
 src/module/mod.rs                  | 16 +++++++++++++---
 src/source_code/arc_source_code.rs |  8 ++++++++
 src/source_code/mod.rs             |  2 +-
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index b0c115f..1cb4eb5 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -66,7 +66,8 @@ impl Module {
         })
     }
 
-    fn load_from_object_code_from_filename(mut filename: path::PathBuf) -> Option<Self> {
+    fn load_from_object_code_from_filename(source_filename: path::PathBuf) -> Option<Self> {
+        let mut filename = source_filename.clone();
         filename.set_extension("csvpo");
 
         if !filename.exists() {
@@ -78,7 +79,7 @@ impl Module {
             Err(e) => compiler_error(format!("Error opening object code: {e}")),
         };
 
-        let Ok(loaded_module) = bincode::deserialize_from(obj_file_reader) else {
+        let Ok(loaded_module) = bincode::deserialize_from::<_, Self>(obj_file_reader) else {
             // if we fail to load the old object file just warn about it and move on.  for whatever
             // reason (written by an old version) it's not compatible with our current version
             warn!(
@@ -88,7 +89,16 @@ impl Module {
             return None;
         };
 
-        Some(loaded_module)
+        // files which differ only in their extension share their object code
+        if loaded_module.source_code.filename.file_name() != source_filename.file_name() {
+            return None;
+        }
+
+        // it might have been written when running in another directory
+        Some(Self {
+            source_code: loaded_module.source_code.with_filename(source_filename),
+            ..loaded_module
+        })
     }
 
     // TODO: I would love to cut down on all these load_from_* functions
diff --git a/src/source_code/arc_source_code.rs b/src/source_code/arc_source_code.rs
index 50856d6..8eee33e 100644
--- a/src/source_code/arc_source_code.rs
+++ b/src/source_code/arc_source_code.rs
@@ -1,5 +1,6 @@
 use super::SourceCode;
 use std::ops;
+use std::path;
 use std::sync;
 
 #[derive(Clone, Debug, serde::Deserialize, serde::Serialize)]
@@ -9,6 +10,13 @@ impl ArcSourceCode {
     pub(crate) fn new(inner: SourceCode) -> Self {
         Self(sync::Arc::new(inner))
     }
+
+    pub(crate) fn with_filename(&self, filename: path::PathBuf) -> Self {
+        Self::new(SourceCode {
+            filename,
+            ..(*self.0).clone()
+        })
+    }
 }
 
 impl ops::Deref for ArcSourceCode {
diff --git a/src/source_code/mod.rs b/src/source_code/mod.rs
index 27febd8..21d04eb 100644
--- a/src/source_code/mod.rs
+++ b/src/source_code/mod.rs
@@ -15,7 +15,7 @@ pub type LineNumber = usize;
 /// the amount of characters offset from the beginning of the line
 pub type CharOffset = usize;
 
-#[derive(Debug, serde::Deserialize, serde::Serialize)]
+#[derive(Clone, Debug, serde::Deserialize, serde::Serialize)]
 pub struct SourceCode {
     pub filename: path::PathBuf,
     pub(crate) lines: LineNumber,
-- 
2.43.0


From 51a329285b04c0c501e739a593086f0ba265c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:35 +0000
Subject: [PATCH 32/63] fix: what circular imports evaluate to was random

---
 src/module_loader/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index c3c4f1a..7b42bb6 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -34,7 +34,15 @@ pub(super) struct ModuleLoader {
 // TODO: ideally this shouldn't take a $source_code and the calling part does the map_err
 macro_rules! eval_ast {
     ($scope:expr, $functions_or_variables:ident, $source_code:expr) => {{
-        for (name, ast) in $scope.$functions_or_variables.clone().into_iter() {
+        // the definitions can depend on each other, so don't let the order of a hash map decide
+        let mut definitions = $scope
+            .$functions_or_variables
+            .clone()
+            .into_iter()
+            .collect::<Vec<_>>();
+        definitions.sort_by(|(a, _), (b, _)| a.cmp(b));
+
+        for (name, ast) in definitions {
             $scope.$functions_or_variables.insert(
                 name,
                 ast.eval(&$scope, None)
@@ -119,7 +127,11 @@ impl ModuleLoader {
             dep_graph.add_edge(main_node, direct_dep_node, ());
         }
 
-        for (p, dep_mod) in loaded.iter() {
+        // the order decides where the resolution of circular dependencies begins
+        let mut loaded = loaded.iter().collect::<Vec<_>>();
+        loaded.sort_by_key(|(p, _)| *p);
+
+        for (p, dep_mod) in loaded {
             // TODO: clean this up with a macro or something. or maybe wrap the petgraph into a
             // `UniqueGraph` of my own making
             let dep_node = loaded_nodes
-- 
2.43.0


From bf15846de500a41852f5b7d2bbe9c9be77ec5245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:36 +0000
Subject: [PATCH 33/63] fix: report the first erroneous row instead of a random
 one

---
 src/module/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 1cb4eb5..5d13938 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -54,6 +54,9 @@ impl Module {
             .into_par_iter()
             .enumerate()
             .map(|(row_index, row)| row.eval(&self.source_code, &scope, row_index.into()))
+            .collect::<Vec<_>>()
+            .into_iter()
+            // only now that all rows are in order, otherwise it would be any of the errors
             .collect::<Result<Vec<_>>>()?;
 
         Ok(Self {
-- 
2.43.0


From c55f6b868b78a92e731c2e770e1e9f92dec8a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 34/63] fix: errors in formulas after cell options pointed at
 the wrong column

---
 src/cell/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index 912a873..0c51abe 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -38,8 +38,13 @@ pub struct Cell {
 
 fn parse_ast(input: &str, field: &Field, source_code: &ArcSourceCode) -> Result<Option<Ast>> {
     Ok(if input.starts_with('=') {
+        // the formula is what's left of the field after any options
+        let mut formula = field.clone();
+        let options_len = formula.positions.len() - input.chars().count();
+        formula.positions.drain(..options_len);
+
         Some(
-            AstParser::parse(input, false, Some(field.clone()), source_code.clone())
+            AstParser::parse(input, false, Some(formula), source_code.clone())
                 .map_err(|e| source_code.cell_syntax_error(e, field.address))?,
         )
     } else {
-- 
2.43.0


From 5f2654ba22601042545e5b5e0f15e7244fc3586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 35/63] fix: errors after a line break in a formula or string
 pointed at the wrong line

---
 src/parser/ast_lexer/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 92ac365..3ca3415 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -77,10 +77,7 @@ impl<'a> AstLexer<'a> {
                 let token = token_matcher.0;
 
                 if let Some(m) = token_matcher.try_match(p) {
-                    if token == Token::Newline {
-                        // just count the newline but don't store it on `tokens`
-                        line_number += 1;
-                    } else if token != Token::Comment {
+                    if token != Token::Newline && token != Token::Comment {
                         // we'll want to consume everything except for comments and newlines (no point
                         // in the parsing logic needing to consider them)
                         tokens.push(TokenMatch {
@@ -96,11 +93,17 @@ impl<'a> AstLexer<'a> {
                         });
                     }
 
-                    if token == Token::Newline {
-                        // move line_offset back to the beginning
-                        line_offset = 0;
+                    let full_match = &p[..m.len_full_match];
+                    if field.is_some() {
+                        // `field` knows where each of its characters came from, including those
+                        // after a newline
+                        line_offset += full_match.chars().count();
+                    } else if let Some((_, last_line)) = full_match.rsplit_once('\n') {
+                        // a newline (or a string that contains some), so we're on another line
+                        line_number += full_match.matches('\n').count();
+                        line_offset = last_line.chars().count();
                     } else {
-                        line_offset += p[..m.len_full_match].chars().count();
+                        line_offset += full_match.chars().count();
                     }
 
                     // move the input past the match
-- 
2.43.0


From f32f122fa006161f2addda70c3bed8b4ac7087bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 36/63] fix: errors in cell options pointed at the character
 before the bad input

---
 src/parser/cell_lexer/mod.rs           | 15 +++++++--------
 src/parser/cell_lexer/unknown_token.rs |  2 ++
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 39c6043..302ce15 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -168,7 +168,7 @@ impl<'a> CellLexer<'a> {
             token,
             str_match: str_match.to_string(),
             field: self.field.clone(),
-            cell_offset: self.current_cell_offset(),
+            cell_offset: self.cell_offset,
             source_code: self.source_code.clone(),
         }
     }
@@ -177,7 +177,7 @@ impl<'a> CellLexer<'a> {
         UnknownToken {
             bad_input: self.input.to_string(),
             field: self.field.clone(),
-            cell_offset: self.current_cell_offset(),
+            cell_offset: self.cell_offset,
             source_code: self.source_code.clone(),
         }
         .into_parse_error(message)
@@ -330,15 +330,14 @@ impl<'a> CellLexer<'a> {
             Err(self.unknown_string(format!("Expected a {token}")))
         } else {
             self.move_input(matched.len());
-            Ok(self.match_token(token, &matched))
+            Ok(TokenMatch {
+                // it's positioned on its last character
+                cell_offset: self.cell_offset - 1,
+                ..self.match_token(token, &matched)
+            })
         }
     }
 
-    // our parser has the `cell_offset` set to one position ahead of where we last read
-    fn current_cell_offset(&self) -> CharOffset {
-        self.cell_offset.saturating_sub(1)
-    }
-
     /// Move past the first `amount` bytes of the input
     fn move_input(&mut self, amount: usize) {
         let (consumed, rest) = self.input.split_at(amount);
diff --git a/src/parser/cell_lexer/unknown_token.rs b/src/parser/cell_lexer/unknown_token.rs
index 763ce06..6337342 100644
--- a/src/parser/cell_lexer/unknown_token.rs
+++ b/src/parser/cell_lexer/unknown_token.rs
@@ -27,6 +27,8 @@ impl BadInput for UnknownToken {
     fn position(&self) -> csvp::SourcePosition {
         self.field
             .position_for_offset(self.cell_offset)
+            // if we've reached the end of the cell it's what came before
+            .or_else(|| self.field.positions.last().copied())
             .unwrap_or_else(|| {
                 compiler_error(format!(
                     "Error getting position of {} from {:?}.",
-- 
2.43.0


From 3be74831de11ff108f4a5b0363cc54fbbe6ae339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:53 +0000
Subject: [PATCH 37/63] fix: notes were put one column left of and one row
 above their cell in Excel

The coordinates of a comment are 1-based.  A note on a cell of the first
column or row made the writer panic, any other ended up on another cell.
---
 src/target/excel/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 7f354fb..7f51e81 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -104,8 +104,13 @@ impl<'a> Excel<'a> {
         rt.set_text(note);
 
         let coord = comment.get_coordinate_mut();
-        coord.set_col_num(u32::try_from(position.column.x).expect("32 bit coordinate for comment"));
-        coord.set_row_num(u32::try_from(position.row.y).expect("32 bit coordinate for comment"));
+        // our addresses are 0-based and the ones in the workbook are 1-based
+        coord.set_col_num(
+            u32::try_from(position.column.x + 1).expect("32 bit coordinate for comment"),
+        );
+        coord.set_row_num(
+            u32::try_from(position.row.y + 1).expect("32 bit coordinate for comment"),
+        );
 
         worksheet.add_comments(comment);
     }
-- 
2.43.0


From c4b742ce0b7d2895d351106464b85408277bd0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 38/63] fix: border_color was ignored in Excel

---
 src/rgb/mod.rs                 | 5 +++++
 src/target/excel/excel_cell.rs | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rgb/mod.rs b/src/rgb/mod.rs
index 4f5c3f3..c14d632 100644
--- a/src/rgb/mod.rs
+++ b/src/rgb/mod.rs
@@ -23,6 +23,11 @@ impl Rgb {
     pub(crate) fn to_rgba(&self) -> String {
         format!("{:02X}{:02X}{:02X}FF", self.r, self.g, self.b)
     }
+
+    /// The alpha channel comes first (which is what Excel uses)
+    pub(crate) fn to_argb(&self) -> String {
+        format!("FF{:02X}{:02X}{:02X}", self.r, self.g, self.b)
+    }
 }
 
 #[cfg(test)]
diff --git a/src/target/excel/excel_cell.rs b/src/target/excel/excel_cell.rs
index 819b5bd..5f487d1 100644
--- a/src/target/excel/excel_cell.rs
+++ b/src/target/excel/excel_cell.rs
@@ -111,7 +111,10 @@ impl<'a> ExcelCell<'a> {
             return;
         }
 
-        let border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        let mut border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        if let Some(c) = &self.0.border_color {
+            border_style.get_color_mut().set_argb(c.to_argb());
+        }
 
         let b = s.get_borders_mut();
         if self.0.side_has_border(BorderSide::Left) {
-- 
2.43.0


From af671a92c68097627cb6f3cea6097a15c869759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:45 +0000
Subject: [PATCH 39/63] fix: date validations were off by two days in Excel

Excel counts January 1, 1900 as day 1 and has a February 29 in 1900.
---
 src/target/excel/cell_validation.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index 56c7a41..6f829ab 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -1,4 +1,5 @@
 use crate::cell_options::DataValidation;
+use crate::DateTime;
 use umya_spreadsheet as u;
 
 #[derive(Debug)]
@@ -30,20 +31,31 @@ macro_rules! validation {
 
 macro_rules! date_validation {
     ($v:ident, $op:ident, $formula1:ident, $prompt:expr) => {
-        validation!($v, Date, $op, $formula1.distance_from_epoch(), $prompt)
+        validation!($v, Date, $op, excel_serial(&$formula1), $prompt)
     };
     ($v:ident, $op:ident, $formula1:ident, $formula2:ident, $prompt:expr) => {
         validation!(
             $v,
             Date,
             $op,
-            $formula1.distance_from_epoch(),
-            $formula2.distance_from_epoch(),
+            excel_serial(&$formula1),
+            excel_serial(&$formula2),
             $prompt
         )
     };
 }
 
+/// The number that Excel represents the date as: January 1, 1900 is the first day, and (as in Lotus
+/// 1-2-3) there was a February 29 in 1900
+fn excel_serial(date: &DateTime) -> i64 {
+    let serial = date.distance_from_epoch() + 1;
+    if serial > 59 {
+        serial + 1
+    } else {
+        serial
+    }
+}
+
 // TODO:
 // * optimize this so there isn't a separate data validation for each cell - if a data validation
 //     is placed on a fill, we can specify the range covered by that fill instead of each cell
-- 
2.43.0


From e26bbaab0ea39913d45522f8a23a3bdd29e8dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:03 +0000
Subject: [PATCH 40/63] fix: quotes in the text of a validation broke the
 formula in Excel

---
 src/target/excel/cell_validation.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index 6f829ab..6783637 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -56,6 +56,11 @@ fn excel_serial(date: &DateTime) -> i64 {
     }
 }
 
+/// The text as it is written in a formula
+fn quote(text: &str) -> String {
+    format!("\"{}\"", text.replace('"', "\"\""))
+}
+
 // TODO:
 // * optimize this so there isn't a separate data validation for each cell - if a data validation
 //     is placed on a fill, we can specify the range covered by that fill instead of each cell
@@ -181,17 +186,17 @@ impl From<CellValidation> for u::DataValidation {
             }
 
             DataValidation::TextContains(t) => {
-                let f = format!("=ISNUMBER(SEARCH(\"{t}\", {position}))");
+                let f = format!("=ISNUMBER(SEARCH({}, {position}))", quote(&t));
                 custom_validation!(v, Custom, f, format!("Text contains \"{t}\""))
             }
 
             DataValidation::TextDoesNotContain(t) => {
-                let f = format!("=NOT(ISNUMBER(SEARCH(\"{t}\", {position})))");
+                let f = format!("=NOT(ISNUMBER(SEARCH({}, {position})))", quote(&t));
                 custom_validation!(v, Custom, f, format!("Text does not contain \"{t}\""))
             }
 
             DataValidation::TextEqualTo(t) => {
-                let f = format!("{position} = \"{t}\"");
+                let f = format!("{position} = {}", quote(&t));
                 custom_validation!(v, Custom, f, format!("Text equal to \"{t}\""))
             }
 
-- 
2.43.0


From fd31052e85125e37274f260798e172d59b28baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:04 +0000
Subject: [PATCH 41/63] fix: data validations of other cells were removed from
 an existing Excel worksheet

---
 src/target/excel/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 7f51e81..c1b73a0 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -82,17 +82,18 @@ impl<'a> Excel<'a> {
     }
 
     fn set_data_validations(worksheet: &mut u::Worksheet, cell_validations: Vec<CellValidation>) {
-        let mut validations = u::DataValidations::default();
         if cell_validations.is_empty() {
             return;
         }
 
-        validations.set_data_validation_list(
-            cell_validations
-                .into_iter()
-                .map(std::convert::Into::into)
-                .collect(),
-        );
+        let mut validations = worksheet.get_data_validations().cloned().unwrap_or_default();
+        let list = validations.get_data_validation_list_mut();
+        for cell_validation in cell_validations {
+            let address = cell_validation.0.to_string();
+            list.retain(|v| v.get_sequence_of_references().get_sqref() != address);
+            list.push(cell_validation.into());
+        }
+
         worksheet.set_data_validations(validations);
     }
 
-- 
2.43.0


From 0f0c1fc6689425b1276a10f873ce1b095d9c0041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 42/63] fix: notes were added again to an existing Excel
 worksheet

Compiling to the same file twice gave a cell two comments, which is not a
valid workbook.
---
 src/target/excel/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index c1b73a0..3a9af7f 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -113,7 +113,13 @@ impl<'a> Excel<'a> {
             u32::try_from(position.row.y + 1).expect("32 bit coordinate for comment"),
         );
 
-        worksheet.add_comments(comment);
+        let coord = comment.get_coordinate().clone();
+        let comments = worksheet.get_comments_mut();
+        comments.retain(|c| {
+            let other = c.get_coordinate();
+            other.get_col_num() != coord.get_col_num() || other.get_row_num() != coord.get_row_num()
+        });
+        comments.push(comment);
     }
 
     // TODO: turn into an impl (from/into)? the problem is we're mutating existing_cell...
-- 
2.43.0


From 765366acb732b07775e964ca05e324128610eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:06 +0000
Subject: [PATCH 43/63] fix: the old value of a cell that is now empty stayed
 in the Excel worksheet

The values are overwritten unless --safe is given (as they are in CSV).
---
 src/target/excel/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 3a9af7f..11dba14 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -139,9 +139,12 @@ impl<'a> Excel<'a> {
                     percentage,
                     sign: None,
                 } if !percentage => existing_cell.set_value_number(value as f64),
-                _ => existing_cell.set_formula(ast.to_string()),
+                // (the result of a formula that was there is not the one of this formula)
+                _ => existing_cell.set_blank().set_formula(ast.to_string()),
             };
-        } else if !cell.parsed_value.is_empty() {
+        } else if cell.parsed_value.is_empty() {
+            existing_cell.set_blank();
+        } else {
             existing_cell.set_value_string(cell.parsed_value.clone());
         }
     }
-- 
2.43.0


From 271047823cc2fa5670031453ebd4beadf6f831ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:07 +0000
Subject: [PATCH 44/63] fix: --safe kept cells of an Excel worksheet that have
 no value but a style

---
 src/target/excel/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 11dba14..d5d273d 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -157,11 +157,12 @@ impl<'a> Excel<'a> {
         position: a1::Address,
         worksheet: &u::Worksheet,
     ) -> ExistingCell<ExcelValue> {
-        let cell_value = worksheet.get_cell(position.to_string());
-        if let Some(cell) = cell_value {
-            ExistingCell::Value(cell.clone())
-        } else {
-            ExistingCell::Empty
+        match worksheet.get_cell(position.to_string()) {
+            // a cell that only has a style does not have a value
+            Some(cell) if cell.is_formula() || !cell.get_value().is_empty() => {
+                ExistingCell::Value(cell.clone())
+            }
+            _ => ExistingCell::Empty,
         }
     }
 
-- 
2.43.0


From 8a6836034f5508c4e29568aaa0f561fc263318b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 45/63] fix: rows after the first thousand replaced the first
 ones in Google Sheets

---
 .../google_sheets/batch_update_builder.rs     | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index f0c9d4a..1e221f6 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -7,6 +7,8 @@ use crate::{Cell, Compiler, Module};
 use google_sheets4::api;
 use std::str::FromStr;
 
+const ROWS_PER_REQUEST: usize = 1000;
+
 pub(super) struct BatchUpdateBuilder<'a> {
     existing_values: &'a ExistingValues<SheetsValue>,
     compiler: &'a Compiler,
@@ -37,11 +39,12 @@ impl<'a> BatchUpdateBuilder<'a> {
     fn batch_update_cells_requests(&self) -> Vec<api::Request> {
         let all_rows = self.row_data();
 
-        // split the rows into requests with 1000 per
+        // split the rows into requests
         all_rows
-            .chunks(1000)
-            .map(|rows| api::Request {
-                update_cells: Some(self.update_cells_request(rows)),
+            .chunks(ROWS_PER_REQUEST)
+            .enumerate()
+            .map(|(i, rows)| api::Request {
+                update_cells: Some(self.update_cells_request(i * ROWS_PER_REQUEST, rows)),
                 ..Default::default()
             })
             .collect()
@@ -91,7 +94,11 @@ impl<'a> BatchUpdateBuilder<'a> {
             .collect()
     }
 
-    fn update_cells_request(&self, rows: &[api::RowData]) -> api::UpdateCellsRequest {
+    fn update_cells_request(
+        &self,
+        first_row: usize,
+        rows: &[api::RowData],
+    ) -> api::UpdateCellsRequest {
         api::UpdateCellsRequest {
             fields: Some(google_sheets4::FieldMask::from_str("*").unwrap()),
             start: Some(api::GridCoordinate {
@@ -101,7 +108,7 @@ impl<'a> BatchUpdateBuilder<'a> {
                         .expect("a 32-bit value for column offset"),
                 ),
                 row_index: Some(
-                    i32::try_from(self.compiler.config.offset.0)
+                    i32::try_from(self.compiler.config.offset.0 as usize + first_row)
                         .expect("a 32-bit value for row offset"),
                 ),
                 sheet_id: None,
-- 
2.43.0


From b952c49df3b018369a1db14a8df7100b6eb6c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 46/63] fix: --x-offset moved rows and --y-offset columns in
 Google Sheets

---
 src/target/google_sheets/batch_update_builder.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 1e221f6..28fbc56 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -77,14 +77,21 @@ impl<'a> BatchUpdateBuilder<'a> {
     }
 
     fn row_data(&self) -> Vec<api::RowData> {
+        // the existing values are those of the whole sheet
+        let (column_offset, row_offset) = self.compiler.config.offset;
+
         self.module
             .spreadsheet
             .rows
             .iter()
             .enumerate()
             .map(|(i, row)| {
-                let empty_row = vec![];
-                let existing_row = self.existing_values.cells.get(i).unwrap_or(&empty_row);
+                let existing_row = self
+                    .existing_values
+                    .cells
+                    .get(i + row_offset as usize)
+                    .and_then(|existing_row| existing_row.get(column_offset as usize..))
+                    .unwrap_or(&[]);
                 let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);
 
                 api::RowData {
@@ -104,11 +111,11 @@ impl<'a> BatchUpdateBuilder<'a> {
             start: Some(api::GridCoordinate {
                 // TODO: get rid of the unwraps
                 column_index: Some(
-                    i32::try_from(self.compiler.config.offset.1)
+                    i32::try_from(self.compiler.config.offset.0)
                         .expect("a 32-bit value for column offset"),
                 ),
                 row_index: Some(
-                    i32::try_from(self.compiler.config.offset.0 as usize + first_row)
+                    i32::try_from(self.compiler.config.offset.1 as usize + first_row)
                         .expect("a 32-bit value for row offset"),
                 ),
                 sheet_id: None,
-- 
2.43.0


From 40062c1ba211a1f7eb16df17c59793c8d22a0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 47/63] fix: border=all gave no borders in Google Sheets

---
 src/target/google_sheets/google_sheets_cell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index a38fc45..5884aa1 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -153,7 +153,7 @@ impl<'a> GoogleSheetsCell<'a> {
     }
 
     fn border_side(&self, side: BorderSide) -> Option<api::Border> {
-        if self.0.borders.contains(&side) {
+        if self.0.borders.contains(&side) || self.0.borders.contains(&BorderSide::All) {
             Some(self.border())
         } else {
             None
-- 
2.43.0


From b409da4a48d7ba81f4ce5a6315c572a57dbc70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 48/63] fix: halign=center and wrap=overflow used values that
 Google Sheets does not know

---
 src/target/google_sheets/google_sheets_cell.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 5884aa1..2f307ec 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -205,7 +205,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn horizontal_alignment(&self) -> String {
         match self.0.horizontal_align {
             HorizontalAlign::Left => "LEFT",
-            HorizontalAlign::Center => "MIDDLE",
+            HorizontalAlign::Center => "CENTER",
             HorizontalAlign::Right => "RIGHT",
         }
         .to_string()
@@ -277,7 +277,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn wrap_strategy(&self) -> String {
         match self.0.text_wrap {
             TextWrap::Wrap => "WRAP",
-            TextWrap::Overflow => "OVERFLOW",
+            TextWrap::Overflow => "OVERFLOW_CELL",
             TextWrap::Clip => "CLIP",
         }
         .to_string()
-- 
2.43.0


From 377c9b5d6d50775f8d3cfa1b0634ccb789c5b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 49/63] fix: data validations used conditions that Google
 Sheets does not know

---
 .../google_sheets/google_sheets_cell.rs       | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 2f307ec..5cbd050 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -85,14 +85,17 @@ impl<'a> GoogleSheetsCell<'a> {
     pub(super) fn data_validation_rule(&self) -> Option<api::DataValidationRule> {
         Some(api::DataValidationRule {
             condition: Some(match self.0.data_validation.as_ref()? {
-                DataValidation::Custom(c) => validate_str!("CUSTOM", c),
+                DataValidation::Custom(c) => {
+                    let formula = format!("={}", c.strip_prefix('=').unwrap_or(c));
+                    validate_str!("CUSTOM_FORMULA", formula)
+                }
                 DataValidation::DateAfter(d) => validate_date!("DATE_AFTER", d),
                 DataValidation::DateBefore(d) => validate_date!("DATE_BEFORE", d),
                 DataValidation::DateBetween(da, db) => {
                     validate_date!("DATE_BETWEEN", da, db)
                 }
-                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQUAL_TO", d),
-                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID_DATE"),
+                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQ", d),
+                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID"),
                 DataValidation::DateNotBetween(da, db) => {
                     validate_date!("DATE_NOT_BETWEEN", da, db)
                 }
@@ -104,34 +107,34 @@ impl<'a> GoogleSheetsCell<'a> {
                 DataValidation::NumberBetween(na, nb) => {
                     validate_str!("NUMBER_BETWEEN", na, nb)
                 }
-                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQUAL_TO", n),
+                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQ", n),
                 DataValidation::NumberGreaterThan(n) => {
-                    validate_str!("NUMBER_GREATER_THAN", n)
+                    validate_str!("NUMBER_GREATER", n)
                 }
                 DataValidation::NumberGreaterThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_GREATER_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_GREATER_THAN_EQ", n)
                 }
                 DataValidation::NumberLessThan(n) => {
-                    validate_str!("NUMBER_LESS_THAN", n)
+                    validate_str!("NUMBER_LESS", n)
                 }
                 DataValidation::NumberLessThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_LESS_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_LESS_THAN_EQ", n)
                 }
                 DataValidation::NumberNotBetween(na, nb) => {
                     validate_str!("NUMBER_NOT_BETWEEN", na, nb)
                 }
                 DataValidation::NumberNotEqualTo(n) => {
-                    validate_str!("NUMBER_NOT_EQUAL_TO", n)
+                    validate_str!("NUMBER_NOT_EQ", n)
                 }
                 DataValidation::TextContains(t) => validate_str!("TEXT_CONTAINS", t),
                 DataValidation::TextDoesNotContain(t) => {
-                    validate_str!("TEXT_DOES_NOT_CONTAIN", t)
+                    validate_str!("TEXT_NOT_CONTAINS", t)
                 }
-                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQUAL_TO", t),
-                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_VALID_EMAIL"),
-                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_VALID_URL"),
+                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQ", t),
+                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_EMAIL"),
+                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_URL"),
                 DataValidation::ValueInList(list) => api::BooleanCondition {
-                    type_: Some("VALUE_IN_LIST".to_string()),
+                    type_: Some("ONE_OF_LIST".to_string()),
                     values: Some(
                         list.iter()
                             .map(|l| api::ConditionValue {
@@ -141,7 +144,7 @@ impl<'a> GoogleSheetsCell<'a> {
                             .collect(),
                     ),
                 },
-                DataValidation::ValueInRange(a1) => validate_str!("VALUE_IN_RANGE", a1),
+                DataValidation::ValueInRange(a1) => validate_str!("ONE_OF_RANGE", a1),
             }),
             // TODO: show a helpful message?
             input_message: None,
-- 
2.43.0


From 55ae572947dc2e95e4efb9fe3e423d8b24931117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 50/63] fix: dates of data validations were sent as relative
 dates to Google Sheets

---
 src/target/google_sheets/google_sheets_cell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 5cbd050..8e09113 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -32,7 +32,7 @@ macro_rules! build_boolean_condition {
 
 macro_rules! validate_date {
     ($gs_name:literal $(, $dv:ident)*) => {
-        build_boolean_condition!($gs_name, relative_date $(,$dv)*)
+        build_boolean_condition!($gs_name, user_entered_value $(,$dv)*)
     };
 }
 
-- 
2.43.0


From 4f8614dba4dd86f49cb1507ebc449798194d22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 51/63] fix: texts of a list validation were sent with quotes
 to Google Sheets

---
 src/target/google_sheets/google_sheets_cell.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 8e09113..e9f2ee7 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -5,6 +5,7 @@
 //! sending a bunch of default values and prefer to return None instead.  In other words the API
 //! payloads should reflect only the things the user specified on the cell.
 //!
+use crate::ast::Node;
 use crate::cell_options::{
     BorderSide, BorderStyle, DataValidation, HorizontalAlign, NumberFormat, TextFormat, TextWrap,
     VerticalAlign,
@@ -138,7 +139,10 @@ impl<'a> GoogleSheetsCell<'a> {
                     values: Some(
                         list.iter()
                             .map(|l| api::ConditionValue {
-                                user_entered_value: Some(l.to_string()),
+                                user_entered_value: Some(match l.clone().into_inner() {
+                                    Node::Text(t) => t,
+                                    node => node.to_string(),
+                                }),
                                 ..Default::default()
                             })
                             .collect(),
-- 
2.43.0


From d250d83cf5e4dd0d01602e1575775f83e9492e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 52/63] fix: --safe kept cells of a Google sheet that have no
 value

---
 .../google_sheets/batch_update_builder.rs     | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 28fbc56..ebade16 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -2,7 +2,7 @@
 //!
 use super::{google_sheets_cell, SheetsValue};
 use crate::ast::Node;
-use crate::target::{merge_rows, ExistingValues, MergeResult};
+use crate::target::{merge_rows, ExistingCell, ExistingValues, MergeResult};
 use crate::{Cell, Compiler, Module};
 use google_sheets4::api;
 use std::str::FromStr;
@@ -91,8 +91,21 @@ impl<'a> BatchUpdateBuilder<'a> {
                     .cells
                     .get(i + row_offset as usize)
                     .and_then(|existing_row| existing_row.get(column_offset as usize..))
-                    .unwrap_or(&[]);
-                let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);
+                    .unwrap_or(&[])
+                    .iter()
+                    .enumerate()
+                    .map(|(column, cell)| match cell {
+                        // there is no value to keep
+                        ExistingCell::Value(cell_data)
+                            if column < row.cells.len()
+                                && cell_data.user_entered_value.is_none() =>
+                        {
+                            ExistingCell::Empty
+                        }
+                        _ => cell.clone(),
+                    })
+                    .collect::<Vec<_>>();
+                let merged_row = merge_rows(&existing_row, &row.cells, &self.compiler.config);
 
                 api::RowData {
                     values: Some(Self::cell_data(&merged_row)),
-- 
2.43.0


From e10299d16b30f28ee8083a173c5b2a6933454dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 53/63] fix: ids of Google Sheets that contain - or _ were
 rejected

---
 src/output/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index 11da65c..4b6d38a 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -62,11 +62,14 @@ impl Output {
     }
 
     fn from_google_sheet_id(sheet_id: String) -> Result<Self> {
-        if sheet_id.chars().all(char::is_alphanumeric) {
+        if sheet_id
+            .chars()
+            .all(|c| c.is_alphanumeric() || c == '-' || c == '_')
+        {
             Ok(Self::GoogleSheets(sheet_id))
         } else {
             Err(Error::InitError(
-                "The GOOGLE_SHEET_ID must be all letters and digits.".to_string(),
+                "The GOOGLE_SHEET_ID must be all letters, digits, - and _.".to_string(),
             ))
         }
     }
-- 
2.43.0


From 118da24e021f7ff853a461b295d220c5aecb87e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:57 +0000
Subject: [PATCH 54/63] verif: show what is sent to Google Sheets (under cfg
 csvpp_verif only)

---
 src/lib.rs                      |  4 ++++
 src/target/google_sheets/mod.rs | 23 +++++++++++++++++++++++
 src/target/mod.rs               |  3 +++
 3 files changed, 30 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6875837..11e817a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,7 @@
 #![warn(clippy::pedantic)]
 #![deny(warnings)]
+// for `csvpp_verif`
+#![allow(unexpected_cfgs)]
 
 mod ast;
 mod cell;
@@ -40,6 +42,8 @@ pub(crate) use source_code::ArcSourceCode;
 pub use source_code::{CharOffset, LineNumber, SourceCode};
 pub use spreadsheet::Spreadsheet;
 pub(crate) use target::CompilationTarget;
+#[cfg(csvpp_verif)]
+pub use target::verif;
 
 use log::{error, info, warn};
 
diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index 62e876e..d45e866 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -190,6 +190,29 @@ impl<'a> GoogleSheets<'a> {
     }
 }
 
+/// What would be sent to Google Sheets, for verification without a network
+#[cfg(csvpp_verif)]
+pub mod verif {
+    use super::{BatchUpdateBuilder, ExistingCell, ExistingValues, SheetsValue};
+    use crate::{Compiler, Module};
+    pub use google_sheets4::api;
+
+    #[must_use]
+    pub fn batch_update(
+        compiler: &Compiler,
+        module: &Module,
+        existing: Vec<Vec<SheetsValue>>,
+    ) -> api::BatchUpdateSpreadsheetRequest {
+        let existing_values = ExistingValues {
+            cells: existing
+                .into_iter()
+                .map(|row| row.into_iter().map(ExistingCell::Value).collect())
+                .collect(),
+        };
+        BatchUpdateBuilder::new(compiler, module, &existing_values).build()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     /* TODO: need to
diff --git a/src/target/mod.rs b/src/target/mod.rs
index da82ea2..7192f52 100644
--- a/src/target/mod.rs
+++ b/src/target/mod.rs
@@ -12,6 +12,9 @@ pub(crate) use excel::Excel;
 pub(crate) use google_sheets::GoogleSheets;
 pub(crate) use open_document::OpenDocument;
 
+#[cfg(csvpp_verif)]
+pub use google_sheets::verif;
+
 #[derive(Clone, Debug, PartialEq)]
 pub(crate) enum ExistingCell<V: Clone> {
     Value(V),
-- 
2.43.0


From 752bd5b9340f5e0a6b53fc8d4593c7d337161360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 55/63] fix: backups of files with a dot in their name were
 written to another file

---
 src/target/file_backer_upper.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/target/file_backer_upper.rs b/src/target/file_backer_upper.rs
index 543dbed..69c5ee2 100644
--- a/src/target/file_backer_upper.rs
+++ b/src/target/file_backer_upper.rs
@@ -49,8 +49,11 @@ pub(crate) fn backup_file<P: AsRef<path::Path>>(
         let timestamp = now.format(time_format);
 
         let mut new_file = file_parent.to_path_buf();
-        new_file.push(format!("{}-{timestamp}", file_stem.to_str().unwrap()));
-        new_file.set_extension(file_extension);
+        // the stem might have a dot of its own so this can't be left to `set_extension`
+        let mut new_name = file_stem.to_os_string();
+        new_name.push(format!("-{timestamp}."));
+        new_name.push(file_extension);
+        new_file.push(new_name);
 
         if new_file.exists() {
             continue;
-- 
2.43.0


From 3b46af98ac94bf2e044d31ab7790c3b423d97a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 56/63] fix: an output filename with an extension that is not
 UTF-8 ended in a panic

---
 src/output/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index 4b6d38a..a1fbdf5 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -56,7 +56,7 @@ impl Output {
         } else {
             Err(Error::InitError(format!(
                 "{} is an unsupported extension: only .csv, .xlsx or .ods are supported.",
-                ext.to_str().unwrap()
+                ext.to_string_lossy()
             )))
         }
     }
-- 
2.43.0


From a17d755291088840b162f1d97288bf6dc754d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 57/63] fix: writing to an .ods file ended in a panic

---
 src/target/open_document/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/target/open_document/mod.rs b/src/target/open_document/mod.rs
index 58b389d..dac9d42 100644
--- a/src/target/open_document/mod.rs
+++ b/src/target/open_document/mod.rs
@@ -19,7 +19,9 @@ impl CompilationTarget for OpenDocument<'_> {
     }
 
     fn write(&self, _module: &Module) -> Result<()> {
-        todo!()
+        Err(self
+            .compiler
+            .output_error("Writing .ods files is not supported yet"))
     }
 }
 
-- 
2.43.0


From 04e2f2fc5a81948f5686d00f83f2067273f070d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 58/63] fix: object code that could not be opened ended in a
 panic

---
 src/module/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 5d13938..b668d9e 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -79,7 +79,11 @@ impl Module {
 
         let obj_file_reader = match fs::File::open(&filename) {
             Ok(r) => r,
-            Err(e) => compiler_error(format!("Error opening object code: {e}")),
+            Err(e) => {
+                // it can be compiled from source just as well
+                warn!("Error opening object code {}: {e}", filename.display());
+                return None;
+            }
         };
 
         let Ok(loaded_module) = bincode::deserialize_from::<_, Self>(obj_file_reader) else {
-- 
2.43.0


From 2e3ef972a9d31476b08d58dea7a9f7dd6dcd46cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:02 +0000
Subject: [PATCH 59/63] fix: a cell that ends after the = of an option ended in
 a panic

---
 src/parser/cell_lexer/token_match.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/cell_lexer/token_match.rs b/src/parser/cell_lexer/token_match.rs
index b926d7c..b022459 100644
--- a/src/parser/cell_lexer/token_match.rs
+++ b/src/parser/cell_lexer/token_match.rs
@@ -46,6 +46,8 @@ impl BadInput for TokenMatch {
     fn position(&self) -> csvp::SourcePosition {
         self.field
             .position_for_offset(self.cell_offset)
+            // if we've reached the end of the cell it's what came before
+            .or_else(|| self.field.positions.last().copied())
             .unwrap_or_else(|| {
                 compiler_error(format!(
                     "Error getting position of {} from {:?}.",
-- 
2.43.0


From c76ed7530fa2579472e471f1d2b31e39690fbc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:36 +0000
Subject: [PATCH 60/63] fix: an Excel file was replaced by a damaged one when
 the disk was full

---
 src/target/excel/compilation_target.rs | 27 ++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/target/excel/compilation_target.rs b/src/target/excel/compilation_target.rs
index ad49796..8eaa2e3 100644
--- a/src/target/excel/compilation_target.rs
+++ b/src/target/excel/compilation_target.rs
@@ -1,8 +1,29 @@
 use super::super::{file_backer_upper, CompilationTarget};
 use super::Excel;
 use crate::{Module, Result};
+use std::{fs, result};
 use umya_spreadsheet as u;
 
+impl Excel<'_> {
+    /// Writes to a temporary file which then replaces the output.  `u::writer::xlsx::write` does the
+    /// same, but misses errors of the last write and would replace the output by a damaged file.
+    fn save(&self, spreadsheet: &u::Spreadsheet) -> result::Result<(), u::XlsxError> {
+        let mut contents = vec![];
+        u::writer::xlsx::write_writer(spreadsheet, &mut contents)?;
+
+        let temp_path = self.path.with_extension("xlsxtmp");
+        let saved =
+            fs::write(&temp_path, contents).and_then(|()| fs::rename(&temp_path, &self.path));
+        if let Err(e) = saved {
+            // best effort: what failed is more interesting than whether this succeeds
+            let _ = fs::remove_file(&temp_path);
+            return Err(e.into());
+        }
+
+        Ok(())
+    }
+}
+
 impl CompilationTarget for Excel<'_> {
     fn write_backup(&self) -> Result<()> {
         file_backer_upper::backup_file(self.compiler, &self.path)?;
@@ -20,14 +41,12 @@ impl CompilationTarget for Excel<'_> {
 
         self.build_worksheet(module, worksheet);
 
-        u::writer::xlsx::write(&spreadsheet, self.path.clone()).map_err(|e| {
+        self.save(&spreadsheet).map_err(|e| {
             self.compiler.output_error(format!(
                 "Unable to write target file {}: {e}",
                 self.path.display()
             ))
-        })?;
-
-        Ok(())
+        })
     }
 }
 
-- 
2.43.0


From 255fce5a52c6d113ceb2421dc0e194f7309fbfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:27 +0000
Subject: [PATCH 61/63] fix: a field of some thousand characters overflowed the
 stack

---
 csvp/src/parser.rs | 103 +++++++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 59 deletions(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index c2a43df..5156c7c 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -155,75 +155,60 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        self.consume_whitespace();
+        loop {
+            self.consume_whitespace();
 
-        match self.consume_char() {
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_field(fb)
-            }
-            // Some(c) if c.is_whitespace() => self.parse_field(fb),
-            Some('"') => Ok(self.parse_quoted_field(fb, false)?),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                Ok(self.parse_unquoted_field(fb)?)
-            }
-            None => Ok(FieldResult::Eof),
+            return match self.consume_char() {
+                Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                    continue;
+                }
+                Some('"') => self.parse_quoted_field(fb),
+                Some(c) => {
+                    fb.push(c, &mut *self);
+                    Ok(self.parse_unquoted_field(fb))
+                }
+                None => Ok(FieldResult::Eof),
+            };
         }
     }
 
-    fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        match self.consume_char() {
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_unquoted_field(fb)
-            }
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_unquoted_field(fb)
+    fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> FieldResult {
+        loop {
+            match self.consume_char() {
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                }
+                Some(c) if self.is_field_separator(c) => return FieldResult::some(fb),
+                Some(c) if is_record_terminator(c) => return FieldResult::last(fb),
+                Some(c) => fb.push(c, &mut *self),
+                None => return FieldResult::last(fb),
             }
-            None => Ok(FieldResult::last(fb)),
         }
     }
 
-    fn parse_quoted_field(
-        &mut self,
-        mut fb: FieldBuilder,
-        escape_mode: bool,
-    ) -> Result<FieldResult> {
-        let c = self.consume_char();
-        if escape_mode {
-            if let Some(c) = c {
-                fb.push(c, &mut *self);
-                return self.parse_quoted_field(fb, false);
-            }
-
-            return Err(self.parse_error("Expected a quoted character but got EOF"));
-        }
-
-        match c {
-            Some('"') => {
-                // is it two quotes in a row? if so it's a quoted quote
-                // TODO: or it could be a empty string? would we parse `foo,"",bar` correctly?
-                if let Some('"') = self.chars.peek() {
-                    self.parse_quoted_field(fb, true)
-                } else {
-                    // otherwise it's a terminating quote. we need to also make sure we consume any
-                    // trailing spaces and make sure there is a ','
-                    self.parse_rest_of_quoted_field(fb)
+    fn parse_quoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
+        loop {
+            match self.consume_char() {
+                Some('"') => {
+                    // is it two quotes in a row? if so it's a quoted quote
+                    // TODO: or it could be a empty string? would we parse `foo,"",bar` correctly?
+                    if let Some('"') = self.chars.peek() {
+                        self.consume_char();
+                        fb.push('"', &mut *self);
+                    } else {
+                        // otherwise it's a terminating quote. we need to also make sure we consume
+                        // any trailing spaces and make sure there is a ','
+                        return self.parse_rest_of_quoted_field(fb);
+                    }
                 }
+                Some(c) => fb.push(c, &mut *self),
+                None => return Err(self.parse_error("Expected a closing quote but got EOF")),
             }
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_quoted_field(fb, false)
-            }
-            None => Err(self.parse_error("Expected a closing quote but got EOF")),
         }
     }
 
-- 
2.43.0


From e9d248f8b878ce8ac85f96105d940215d6b1702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:15 +0000
Subject: [PATCH 62/63] fix: blank lines of an existing CSV output moved the
 rows after them up

---
 src/target/csv/mod.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/target/csv/mod.rs b/src/target/csv/mod.rs
index b2bda54..145d974 100644
--- a/src/target/csv/mod.rs
+++ b/src/target/csv/mod.rs
@@ -19,6 +19,23 @@ fn csv_reader() -> csv::ReaderBuilder {
     csv_reader
 }
 
+/// How many blank lines there are in `contents` from `start` on, where `start` is the end of a record
+fn count_blank_lines(contents: &[u8], start: usize) -> usize {
+    let (before, mut rest) = contents.split_at(start.min(contents.len()));
+    if before.ends_with(b"\r") {
+        // it's still the end of the line of that record
+        rest = rest.strip_prefix(b"\n").unwrap_or(rest);
+    }
+
+    let mut blank_lines = 0;
+    while let [b'\r', b'\n', after @ ..] | [b'\r' | b'\n', after @ ..] = rest {
+        blank_lines += 1;
+        rest = after;
+    }
+
+    blank_lines
+}
+
 impl<'a> Csv<'a> {
     pub fn new<P: Into<path::PathBuf>>(compiler: &'a Compiler, path: P) -> Self {
         Self {
@@ -32,8 +49,8 @@ impl<'a> Csv<'a> {
     }
 
     fn read<P: AsRef<path::Path>>(path: P, output: &Output) -> Result<ExistingValues<String>> {
-        let file = match fs::File::open(path.as_ref()) {
-            Ok(f) => f,
+        let contents = match fs::read(path.as_ref()) {
+            Ok(c) => c,
             Err(e) => {
                 return match e.kind() {
                     io::ErrorKind::NotFound => Ok(ExistingValues::default()),
@@ -44,13 +61,20 @@ impl<'a> Csv<'a> {
             }
         };
 
-        let mut reader = csv_reader().from_reader(io::BufReader::new(file));
+        let mut reader = csv_reader().from_reader(contents.as_slice());
 
         let mut cells = vec![];
         for result in reader.records() {
+            let record = result.or(Err(output.clone().into_error("Error reading CSV row")))?;
+
+            // the reader skips blank lines, but they are rows of the spreadsheet
+            if let Some(position) = record.position() {
+                let start = usize::try_from(position.byte()).unwrap_or(usize::MAX);
+                cells.resize(cells.len() + count_blank_lines(&contents, start), vec![]);
+            }
+
             cells.push(
-                result
-                    .or(Err(output.clone().into_error("Error reading CSV row")))?
+                record
                     .iter()
                     .map(|cell| {
                         if cell.is_empty() {
-- 
2.43.0


From 726dd345ef0d16980e5e808dbed4d1d54e584d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:29 +0000
Subject: [PATCH 63/63] fix: errors of the command line's values were not shown

---
 src/compiler/try_from.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/compiler/try_from.rs b/src/compiler/try_from.rs
index 3a66aa4..55848ca 100644
--- a/src/compiler/try_from.rs
+++ b/src/compiler/try_from.rs
@@ -1,22 +1,29 @@
 use crate::logger;
 use crate::parser::ast_parser::AstParser;
 use crate::{CliArgs, Compiler, Config, Output};
-use log::debug;
+use log::{debug, LevelFilter};
 
 impl TryFrom<&CliArgs> for Compiler {
     type Error = crate::Error;
 
     fn try_from(cli_args: &CliArgs) -> std::result::Result<Self, Self::Error> {
+        let config = Config::try_from(cli_args);
+
+        // errors are shown by the logger, so it's needed before anything can fail
+        logger::init(
+            config
+                .as_ref()
+                .map_or(LevelFilter::Error, |config| config.verbosity),
+        );
+
         let config = Config {
             key_values: AstParser::parse_key_value_str(
                 &cli_args.key_values,
                 &cli_args.input_filename,
             )?,
-            ..Config::try_from(cli_args)?
+            ..config?
         };
 
-        logger::init(config.verbosity);
-
         let compiler = Self {
             config,
             output: Output::try_from(cli_args)?,
-- 
2.43.0

