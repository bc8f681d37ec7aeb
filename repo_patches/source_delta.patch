From 72f93b70f7414ef51a8dd732575c7a1b28c7b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:38 +0000
Subject: [PATCH 01/36] fix: read lexemes and comments that end at the end of
 the input

The last byte of a lexeme at EOF was dropped (a one byte lexeme became an
empty token that never advanced), and '?', ':' and ';' as the last bytes
indexed past the end of the buffer.
---
 src/lexical_analyzer/tokenizer.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 605f494..aa0eb66 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -121,10 +121,8 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
                 // Comment
                 ';' => {
-                    let mut current = self.program[self.cursor.get()] as char;
-                    while current != '\n' {
+                    while self.peek_next_char().is_some_and(|current| current != '\n') {
                         self.cursor.set(self.cursor.get() + 1);
-                        current = self.program[self.cursor.get()] as char;
                     }
                     return self.parse(peek);
                 }
@@ -183,7 +181,6 @@ impl<'a> LexicalAnalyzer<'a> {
     // get next lexeme and new cursor position (to commit peek)
     fn peek_lexeme(&self, init_cur_pos: usize) -> Result<(&str, usize), LexicalError> {
         let mut cursor_pos = init_cur_pos;
-        let mut next_ch = self.program[cursor_pos] as char;
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
@@ -199,13 +196,10 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
             }
         };
-        while is_valid_character(next_ch) {
-            if cursor_pos < self.program.len() - 1 {
-                cursor_pos += 1;
-                next_ch = self.program[cursor_pos] as char;
-            } else {
-                break;
-            }
+        while cursor_pos < self.program.len()
+            && is_valid_character(self.program[cursor_pos] as char)
+        {
+            cursor_pos += 1;
         }
         if is_invalid {
             return Err(LexicalError {
-- 
2.43.0


From 6f4f8b7441e43993bd6d5f19d8a5b6d007118593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:38 +0000
Subject: [PATCH 02/36] fix: report lexemes that are not valid UTF-8 instead of
 panicking

---
 src/lexical_analyzer/tokenizer.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index aa0eb66..05a1410 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -201,19 +201,14 @@ impl<'a> LexicalAnalyzer<'a> {
         {
             cursor_pos += 1;
         }
-        if is_invalid {
-            return Err(LexicalError {
+        let lexeme = &self.program[init_cur_pos..cursor_pos];
+        match from_utf8(lexeme) {
+            Ok(valid_lexeme) if !is_invalid => Ok((valid_lexeme, cursor_pos)),
+            _ => Err(LexicalError {
                 error_type: LexicalErrorType::InvalidIdentifier,
-                lexeme: from_utf8(&self.program[init_cur_pos..cursor_pos])
-                    .unwrap()
-                    .to_string(),
+                lexeme: String::from_utf8_lossy(lexeme).into_owned(),
                 position: self.last_token_pos.get(),
-            });
-        } else {
-            return Ok((
-                from_utf8(&self.program[init_cur_pos..cursor_pos]).unwrap(),
-                cursor_pos,
-            ));
+            }),
         }
     }
 
-- 
2.43.0


From b343b95ab8dc1004c22f28e289875ef7eb70d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:31 +0000
Subject: [PATCH 03/36] fix: skip comments iteratively and let them end the
 lexeme before them

Every comment line cost a stack frame, so files with many comments
overflowed the stack; and 'name;comment' was reported as an invalid
identifier.
---
 src/lexical_analyzer/tokenizer.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 05a1410..acd37cf 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -36,7 +36,7 @@ impl<'a> LexicalAnalyzer<'a> {
     }
 
     fn parse(&self, peek: bool) -> Result<Token, LexicalError> {
-        self.skip_whitespaces();
+        self.skip_whitespaces_and_comments();
         if self.cursor.get() == self.program.len() {
             return Ok(Token::EOF);
         }
@@ -119,13 +119,6 @@ impl<'a> LexicalAnalyzer<'a> {
                         }),
                     }
                 }
-                // Comment
-                ';' => {
-                    while self.peek_next_char().is_some_and(|current| current != '\n') {
-                        self.cursor.set(self.cursor.get() + 1);
-                    }
-                    return self.parse(peek);
-                }
                 // Other
                 _ => {
                     let mut init_cur_pos = self.cursor.get() - 1;
@@ -184,7 +177,7 @@ impl<'a> LexicalAnalyzer<'a> {
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
-            ')' | '(' => false,
+            ')' | '(' | ';' => false,
             _ => {
                 if LexicalAnalyzer::is_whitespace(&c) {
                     false
@@ -220,6 +213,16 @@ impl<'a> LexicalAnalyzer<'a> {
         Some(current)
     }
 
+    fn skip_whitespaces_and_comments(&self) {
+        self.skip_whitespaces();
+        while self.peek_next_char() == Some(';') {
+            while self.peek_next_char().is_some_and(|current| current != '\n') {
+                self.cursor.set(self.cursor.get() + 1);
+            }
+            self.skip_whitespaces();
+        }
+    }
+
     fn skip_whitespaces(&self) {
         while self.cursor.get() != self.program.len() {
             let current = self.program[self.cursor.get()] as char;
-- 
2.43.0


From 7dcda51b3535ba1f406f3f5eb82ee04134d25a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:50 +0000
Subject: [PATCH 04/36] fix: look ahead of '<=' and '>=' like reading them

The lookahead compared the operator's own first character with '=', so
it reported '<' and '>' where reading the token gives '<=' and '>='.
---
 src/lexical_analyzer/tokenizer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index acd37cf..7cc5642 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -290,9 +290,15 @@ impl<'a> LexicalAnalyzer<'a> {
     }
 
     fn ordering_type(&self, c: &char, peek: bool) -> OperationType {
+        let next_char_pos = if peek {
+            self.cursor.get() + 1
+        } else {
+            self.cursor.get()
+        };
+        let next_char = self.program.get(next_char_pos);
         match c {
-            '<' => match self.peek_next_char() {
-                Some('=') => {
+            '<' => match next_char {
+                Some(b'=') => {
                     if !peek {
                         self.cursor.set(self.cursor.get() + 1);
                     }
@@ -300,8 +306,8 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
                 _ => OperationType::LessThan,
             },
-            '>' => match self.peek_next_char() {
-                Some('=') => {
+            '>' => match next_char {
+                Some(b'=') => {
                     if !peek {
                         self.cursor.set(self.cursor.get() + 1);
                     }
-- 
2.43.0


From 020b683170d679dbb1b920567643c66737f5c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:18 +0000
Subject: [PATCH 05/36] fix: reject a '?' that is not followed by a name

---
 src/lexical_analyzer/tokenizer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 7cc5642..42b36aa 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -61,6 +61,13 @@ impl<'a> LexicalAnalyzer<'a> {
                     if !peek {
                         self.cursor.set(new_cur_pos);
                     }
+                    if var_name.is_empty() {
+                        return Err(LexicalError {
+                            error_type: LexicalErrorType::InvalidIdentifier,
+                            lexeme: var_name.to_string(),
+                            position: self.last_token_pos.get(),
+                        });
+                    }
                     Ok(Token::Identifier(var_name))
                 }
                 // Keywords (Note that 2 keywords, namely "domain" and "problem", can start without ':' as well)
-- 
2.43.0


From 9b9397a180adfa17b847ad6e884c91119c39a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:18 +0000
Subject: [PATCH 06/36] fix: report stray tokens in a problem file instead of
 panicking

---
 src/syntactic_analyzer/problem_parser/router.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index 9e941c9..43e6647 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -66,8 +66,13 @@ impl <'a> Parser<'a> {
                 Token::EOF | Token::Punctuator(PunctuationType::RParentheses) => {
                     return Ok(syntax_tree);
                 }
-                err => {
-                    panic!("unexpected token {:?}", err)
+                token => {
+                    let error = SyntacticError {
+                        expected: "either ')' to close the definition of the problem, or '(' to start defining new components".to_string(),
+                        found: token.to_string(),
+                        position: self.tokenizer.get_last_token_position(),
+                    };
+                    return Err(ParsingError::Syntactic(error));
                 }
             }
         }
-- 
2.43.0


From 1de645050a39455a06e14b922dd996c9950c1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:10 +0000
Subject: [PATCH 07/36] fix: report a problem given as domain, or a domain
 given as problem, instead of panicking

---
 src/lib.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3a996c3..a170db8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -42,14 +42,14 @@ impl HDDLAnalyzer {
                             Ok(warnings)
                         }
                         _ => {
-                            panic!("expected problem, found domain")
+                            Err(wrong_file_kind("a problem", "a domain"))
                         }
                     }
                 }
                 None => Ok(symbol_table.warnings),
             }
         } else {
-            panic!("expected domain, found problem")
+            Err(wrong_file_kind("a domain", "a problem"))
         }
     }
 
@@ -74,7 +74,7 @@ impl HDDLAnalyzer {
                     n_methods: d.methods.len() as u32,
                 })
             }
-            _ => panic!("expected domain, found problem"),
+            _ => Err(wrong_file_kind("a domain", "a problem")),
         }
     }
 
@@ -100,7 +100,7 @@ impl HDDLAnalyzer {
 
                         }
                         _ => {
-                            panic!("expected problem, found domain")
+                            Err(wrong_file_kind("a problem", "a domain"))
                         }
                     }
                 }
@@ -113,7 +113,16 @@ impl HDDLAnalyzer {
                     return Ok(serde_json::to_string_pretty(&root).unwrap());
                 }
             },
-            _ => panic!("expected domain, found problem"),
+            _ => Err(wrong_file_kind("a domain", "a problem")),
         }
     }
 }
+
+// the file is a valid HDDL definition, but not of the kind that is asked for
+fn wrong_file_kind(expected: &str, found: &str) -> ParsingError {
+    ParsingError::Syntactic(SyntacticError {
+        expected: format!("{} definition", expected),
+        found: format!("{} definition", found),
+        position: TokenPosition { line: 1 },
+    })
+}
-- 
2.43.0


From 38a516d3ce520a9187ffaf84336d054d8535bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:12 +0000
Subject: [PATCH 08/36] fix: keep the order of the serialized definitions
 stable

The top level of the JSON output was a HashMap, so the same input was
written with its two keys in either order.
---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a170db8..9164686 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,7 +6,7 @@ mod syntactic_analyzer;
 mod language_server;
 pub use language_server::RequestHandler;
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use crate::lexical_analyzer::TokenPosition;
 use lexical_analyzer::LexicalAnalyzer;
@@ -90,7 +90,7 @@ impl HDDLAnalyzer {
                     let problem_ast = problem_parser.parse()?;
                     match problem_ast {
                         AbstractSyntaxTree::Problem(p) => {
-                            let root = HashMap::from(
+                            let root = BTreeMap::from(
                                 [
                                     ("domain", AbstractSyntaxTree::Domain(d)),
                                     ("problem", AbstractSyntaxTree::Problem(p))
@@ -105,7 +105,7 @@ impl HDDLAnalyzer {
                     }
                 }
                 None => {
-                    let root = HashMap::from(
+                    let root = BTreeMap::from(
                         [
                             ("domain", AbstractSyntaxTree::Domain(d)),
                         ]
-- 
2.43.0


From 9811c5e25823d13a0cb48f42229ad58732224300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:14 +0000
Subject: [PATCH 09/36] fix: consume the ')' that closes a task network or a
 goal

A method or :htn without subtasks, :ordered-subtasks with :constraints,
and :goal left their closing ')' unread. It was then taken for the end of
the definition, and the rest of the file was silently ignored.
---
 .../problem_parser/init_tn_parser.rs          | 18 +++++++++---------
 .../problem_parser/router.rs                  | 19 +++++++++++++++++--
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index 2c0119b..3135cba 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -32,6 +32,8 @@ impl<'a> Parser<'a> {
                 }
                 // empty init tn
                 Token::Punctuator(PunctuationType::RParentheses) => {
+                    // consume ')'
+                    let _ = self.tokenizer.get_token()?;
                     return Ok(InitialTaskNetwork {
                         parameters: None,
                         tn: HTN {
@@ -61,6 +63,8 @@ impl<'a> Parser<'a> {
         // check if it is an empty task network
         match self.tokenizer.lookahead()? {
             Token::Punctuator(PunctuationType::RParentheses) => {
+                // consume ')'
+                let _ = self.tokenizer.get_token()?;
                 return Ok(HTN {
                     subtasks,
                     ordering_pos,
@@ -194,16 +198,12 @@ impl<'a> Parser<'a> {
             }
             Token::Keyword(KeywordName::OrderedSubtasks) => {
                 subtasks = self.parse_subtasks()?;
+                if let Token::Keyword(KeywordName::Constraints) = self.tokenizer.lookahead()? {
+                    // skip constraints keyword
+                    let _ = self.tokenizer.get_token()?;
+                    constraints = Some(self.parse_constraints()?);
+                }
                 match self.tokenizer.get_token()? {
-                    Token::Keyword(KeywordName::Constraints) => {
-                        constraints = Some(self.parse_constraints()?);
-                        return Ok(HTN {
-                            subtasks,
-                            ordering_pos,
-                            orderings: TaskOrdering::Total,
-                            constraints,
-                        });
-                    }
                     Token::Punctuator(PunctuationType::RParentheses) => {
                         return Ok(HTN {
                             subtasks,
diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index 43e6647..a352dda 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -44,8 +44,23 @@ impl <'a> Parser<'a> {
                         }
                         // goal state (optional)
                         Token::Keyword(KeywordName::Goal) => {
-                            let goal = self.parse_formula()?;
-                            syntax_tree.add_goal(goal)
+                            let goal = match self.tokenizer.lookahead()? {
+                                // no goal formula
+                                Token::Punctuator(PunctuationType::RParentheses) => Formula::Empty,
+                                _ => self.parse_formula()?,
+                            };
+                            syntax_tree.add_goal(goal);
+                            match self.tokenizer.get_token()? {
+                                Token::Punctuator(PunctuationType::RParentheses) => {}
+                                token => {
+                                    let error = SyntacticError {
+                                        expected: "')' to close the goal definition".to_string(),
+                                        found: token.to_string(),
+                                        position: self.tokenizer.get_last_token_position(),
+                                    };
+                                    return Err(ParsingError::Syntactic(error));
+                                }
+                            }
                         }
                         // initial state
                         Token::Keyword(KeywordName::Init) => {
-- 
2.43.0


From c0e9e919f9f4d226773e6510632ccf6a3dd47b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:14 +0000
Subject: [PATCH 10/36] fix: do not take a bare ')' or '()' for the end of a
 connector

parse_formula turned any ')' into an empty formula: '(not)' and
':precondition )' consumed the ')' of the enclosing block, and '(and ()
(p))' stopped at the '()'. Only the ')' of and/or/oneof ends their
operands now; '()' is still the empty formula.
---
 .../domain_parser/formula_parser.rs           | 48 +++++++------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/src/syntactic_analyzer/domain_parser/formula_parser.rs b/src/syntactic_analyzer/domain_parser/formula_parser.rs
index 64788d3..8c12ddd 100644
--- a/src/syntactic_analyzer/domain_parser/formula_parser.rs
+++ b/src/syntactic_analyzer/domain_parser/formula_parser.rs
@@ -3,9 +3,6 @@ use super::*;
 impl<'a> Parser<'a> {
     pub fn parse_formula(&'a self) -> Result<Formula, ParsingError> {
         match self.tokenizer.get_token()? {
-            Token::Punctuator(PunctuationType::RParentheses) => {
-                return Ok(Formula::Empty);
-            }
             Token::Punctuator(PunctuationType::LParentheses) => {
                 match self.tokenizer.get_token()? {
                     // Not Operation
@@ -27,39 +24,15 @@ impl<'a> Parser<'a> {
                     }
                     // And Connector
                     Token::Operator(OperationType::And) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::And(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::And(self.parse_operands()?));
                     }
                     // Xor Connector
                     Token::Operator(OperationType::Xor) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::Xor(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::Xor(self.parse_operands()?));
                     }
                     // Or Connector
                     Token::Operator(OperationType::Or) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::Or(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::Or(self.parse_operands()?));
                     }
                     // Equality
                     Token::Operator(OperationType::Equal) => match self.tokenizer.get_token()? {
@@ -216,4 +189,19 @@ impl<'a> Parser<'a> {
             }
         }
     }
+
+    // parses the operands of a connector, and the ')' that closes it
+    fn parse_operands(&'a self) -> Result<Vec<Box<Formula>>, ParsingError> {
+        let mut operands = vec![];
+        loop {
+            match self.tokenizer.lookahead()? {
+                Token::Punctuator(PunctuationType::RParentheses) => {
+                    // consume ')'
+                    let _ = self.tokenizer.get_token()?;
+                    return Ok(operands);
+                }
+                _ => operands.push(Box::new(self.parse_formula()?)),
+            }
+        }
+    }
 }
-- 
2.43.0


From 214226e33fc8627100b3431fb49298365e626990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:38 +0000
Subject: [PATCH 11/36] fix: bound the nesting of formulas

Formulas are parsed and analyzed recursively, so a deeply nested one
overflowed the stack and aborted the process (or the language server).
---
 .../domain_parser/formula_parser.rs           | 19 +++++++++++++++++++
 src/syntactic_analyzer/parser.rs              |  9 ++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/syntactic_analyzer/domain_parser/formula_parser.rs b/src/syntactic_analyzer/domain_parser/formula_parser.rs
index 8c12ddd..963dee7 100644
--- a/src/syntactic_analyzer/domain_parser/formula_parser.rs
+++ b/src/syntactic_analyzer/domain_parser/formula_parser.rs
@@ -1,7 +1,26 @@
 use super::*;
 
+// formulas are processed recursively, so their nesting is bounded to protect the stack
+const MAX_FORMULA_DEPTH: usize = 128;
+
 impl<'a> Parser<'a> {
     pub fn parse_formula(&'a self) -> Result<Formula, ParsingError> {
+        let depth = self.formula_depth.get();
+        if depth == MAX_FORMULA_DEPTH {
+            let error = SyntacticError {
+                expected: format!("at most {} nested formulas", MAX_FORMULA_DEPTH),
+                found: self.tokenizer.lookahead()?.to_string(),
+                position: self.tokenizer.get_last_token_position(),
+            };
+            return Err(ParsingError::Syntactic(error));
+        }
+        self.formula_depth.set(depth + 1);
+        let formula = self.parse_nested_formula();
+        self.formula_depth.set(depth);
+        formula
+    }
+
+    fn parse_nested_formula(&'a self) -> Result<Formula, ParsingError> {
         match self.tokenizer.get_token()? {
             Token::Punctuator(PunctuationType::LParentheses) => {
                 match self.tokenizer.get_token()? {
diff --git a/src/syntactic_analyzer/parser.rs b/src/syntactic_analyzer/parser.rs
index 4d8fb94..ad896be 100644
--- a/src/syntactic_analyzer/parser.rs
+++ b/src/syntactic_analyzer/parser.rs
@@ -1,14 +1,21 @@
+use std::cell::Cell;
+
 use self::definition_types::ProblemDefinition;
 
 use super::*;
 
 pub struct Parser<'a> {
     pub tokenizer: LexicalAnalyzer<'a>,
+    // number of formulas that are currently being parsed (each one is nested in the previous)
+    pub formula_depth: Cell<usize>,
 }
 
 impl<'a> Parser<'a> {
     pub fn new(tokenizer: LexicalAnalyzer<'a>) -> Parser<'a> {
-        Parser { tokenizer }
+        Parser {
+            tokenizer,
+            formula_depth: Cell::new(0),
+        }
     }
     pub fn parse(&'a self) -> Result<AbstractSyntaxTree<'a>, ParsingError> {
         // match opening '('
-- 
2.43.0


From bc0babd3e5d00d1b0cd20a27ce4059c14f73ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:06 +0000
Subject: [PATCH 12/36] fix: check the predicates of existentially quantified
 formulas instead of panicking

---
 src/semantic_analyzer/undefined_elements.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/semantic_analyzer/undefined_elements.rs b/src/semantic_analyzer/undefined_elements.rs
index c84c907..5cfc6f3 100644
--- a/src/semantic_analyzer/undefined_elements.rs
+++ b/src/semantic_analyzer/undefined_elements.rs
@@ -38,16 +38,17 @@ pub fn check_predicate_declarations<'a>(
                 check_predicate_declarations(&*f, declared_predicates)?;
             }
         }
-        Formula::ForAll(_, new_formula) => {
+        Formula::ForAll(_, new_formula) | Formula::Exists(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
         Formula::Equals(_, _) => {}
         Formula::Weighted(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
-        // TODO: add support for imply, and exists
-        _ => {
-            panic!()
+        Formula::Imply(antecedents, consequents) => {
+            for f in antecedents.iter().chain(consequents) {
+                check_predicate_declarations(&*f, declared_predicates)?;
+            }
         }
     }
     return Ok(());
-- 
2.43.0


From e821a6b8de4228b51c088505911e0d9c39108bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 13/36] fix: check the predicates inside quantified goals

Undefined predicates and wrong arities below a quantifier were reported
in preconditions and effects, but not in the goal.
---
 src/semantic_analyzer/analyzers/domain_analyzer.rs  | 6 +++---
 src/semantic_analyzer/analyzers/problem_analyzer.rs | 1 +
 src/semantic_analyzer/undefined_elements.rs         | 4 +++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 405fdef..3a76dd5 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -73,7 +73,7 @@ impl<'a> DomainSemanticAnalyzer<'a> {
             // assert precondition predicates are declared
             match &action.preconditions {
                 Some(precondition) => {
-                    check_predicate_declarations(precondition, &self.domain.predicates)?;
+                    check_predicate_declarations(precondition, &declared_predicates)?;
                     let precond_predicates = precondition.get_propositional_predicates();
                     self.type_checker.check_formula(
                         &precond_predicates,
@@ -87,7 +87,7 @@ impl<'a> DomainSemanticAnalyzer<'a> {
             // assert effect predicates are declared
             match &action.effects {
                 Some(effect) => {
-                    check_predicate_declarations(effect, &self.domain.predicates)?;
+                    check_predicate_declarations(effect, &declared_predicates)?;
                     let eff_predicates = effect.get_propositional_predicates();
                     self.type_checker.check_formula(
                         &eff_predicates,
@@ -134,7 +134,7 @@ impl<'a> DomainSemanticAnalyzer<'a> {
             // Assert preconditions are valid
             match &method.precondition {
                 Some(precondition) => {
-                    check_predicate_declarations(precondition, &self.domain.predicates)?;
+                    check_predicate_declarations(precondition, &declared_predicates)?;
                     let precond_predicates = precondition.get_propositional_predicates();
                     self.type_checker.check_formula(
                         &precond_predicates,
diff --git a/src/semantic_analyzer/analyzers/problem_analyzer.rs b/src/semantic_analyzer/analyzers/problem_analyzer.rs
index 6ba5fef..978820e 100644
--- a/src/semantic_analyzer/analyzers/problem_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/problem_analyzer.rs
@@ -68,6 +68,7 @@ impl<'a> ProblemSemanticAnalyzer<'a> {
         // check goal description
         match &self.problem.goal {
             Some(goal) => {
+                check_predicate_declarations(goal, &self.type_checker.symbol_table.predicates)?;
                 for predicate in goal.get_propositional_predicates() {
                     let _ = self.type_checker.check_predicate_instantiation(predicate)?;
                 }
diff --git a/src/semantic_analyzer/undefined_elements.rs b/src/semantic_analyzer/undefined_elements.rs
index 5cfc6f3..24a102d 100644
--- a/src/semantic_analyzer/undefined_elements.rs
+++ b/src/semantic_analyzer/undefined_elements.rs
@@ -1,8 +1,10 @@
+use std::collections::HashSet;
+
 use super::*;
 
 pub fn check_predicate_declarations<'a>(
     formula: &Formula<'a>,
-    declared_predicates: &Vec<Predicate<'a>>,
+    declared_predicates: &HashSet<&'a Predicate<'a>>,
 ) -> Result<(), SemanticErrorType> {
     match &*formula {
         Formula::Empty => {}
-- 
2.43.0


From 101ae751d7b1109e668d70ae35265c89bb737411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:38 +0000
Subject: [PATCH 14/36] fix: do not swap the arities of a task in the error for
 its method

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 3a76dd5..8ff18f7 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -158,8 +158,8 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                         if method.task_terms.len() != declared_compound_task.parameters.len() {
                             return Err(SemanticErrorType::InconsistentTaskArity(ArityError {
                                 symbol: method.task.name.to_string(),
-                                expected_arity: method.task_terms.len() as u32,
-                                found_arity: declared_compound_task.parameters.len() as u32,
+                                expected_arity: declared_compound_task.parameters.len() as u32,
+                                found_arity: method.task_terms.len() as u32,
                                 position: method.task.name_pos,
                             }));
                         } else {
-- 
2.43.0


From 75e8b4668213ee81b716bc838d42a833bd577ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:38 +0000
Subject: [PATCH 15/36] fix: give the line of a wrong number of task parameters

---
 src/output/errors/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/errors/semantic.rs b/src/output/errors/semantic.rs
index 348ee90..fcec700 100644
--- a/src/output/errors/semantic.rs
+++ b/src/output/errors/semantic.rs
@@ -87,8 +87,8 @@ impl fmt::Display for SemanticErrorType {
             SemanticErrorType::InconsistentTaskArity(ar_error) => {
                 write!(
                     f,
-                    "Task {} takes {} parameters, but {} are given.",
-                    ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
+                    "line {}: Task {} takes {} parameters, but {} are given.",
+                    ar_error.position.line, ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
                 )
             }
             SemanticErrorType::InconsistentPredicateArgType(type_error) => {
-- 
2.43.0


From 9ae93695f9f626bb4fe80cb8729234ea710137d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:38 +0000
Subject: [PATCH 16/36] fix: report the declared type of an object that does
 not fit a predicate

The type was taken from the argument itself, which never has one: the
message said that no typing was found, and printing it panicked when the
predicate's parameter is untyped.
---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index e77d954..284825a 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -58,7 +58,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                 return Err(SemanticErrorType::InconsistentPredicateArgType(
                                     TypeError {
                                         expected: expected.symbol_type.map(String::from),
-                                        found: found.symbol_type.map(String::from),
+                                        found: object_type.map(String::from),
                                         var_name: predicate.name.to_string(),
                                         position: found.name_pos,
                                     },
-- 
2.43.0


From dbcf3534f7464ed13e1eab8e9e2f7b98e48f18fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:04 +0000
Subject: [PATCH 17/36] fix: report a constant that does not fit a subtask as
 task argument error

---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index 284825a..6e7ecc6 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -177,7 +177,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
@@ -268,7 +268,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
-- 
2.43.0


From 66e2b432f38444333742016fed49bcb7d8b90249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:56 +0000
Subject: [PATCH 18/36] fix: report duplicate constants

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 8ff18f7..198a76f 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -30,10 +30,21 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         let declared_predicates = self.verify_predicates()?;
         let declared_tasks = self.verify_compound_tasks()?;
         let mut declared_constants = HashSet::new();
+        let mut constant_positions = HashMap::new();
         match &self.domain.constants {
             Some(constants) => {
                 for c in constants {
-                    declared_constants.insert(c);
+                    if !declared_constants.insert(c) {
+                        return Err(SemanticErrorType::DuplicateObjectDeclaration(
+                            DuplicateError {
+                                symbol: c.name.to_string(),
+                                first_pos: *constant_positions.get(c.name).unwrap(),
+                                second_pos: c.name_pos,
+                            },
+                        ));
+                    } else {
+                        constant_positions.insert(c.name, c.name_pos);
+                    }
                 }
             }
             None => {}
-- 
2.43.0


From 713747c22620c94023a0c3e3a26a5656d9c51e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:02 +0000
Subject: [PATCH 19/36] fix: report undefined types of constants and of every
 parameter list

The types of action and method parameters were only checked along with a
formula, those of constants and of the initial task network never.
---
 src/semantic_analyzer/analyzers/domain_analyzer.rs  | 12 ++++++++++++
 src/semantic_analyzer/analyzers/problem_analyzer.rs |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 198a76f..6914b14 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -33,6 +33,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         let mut constant_positions = HashMap::new();
         match &self.domain.constants {
             Some(constants) => {
+                // assert constant types are declared
+                if let Some(error) = self.type_checker.check_type_declarations(constants) {
+                    return Err(error);
+                }
                 for c in constants {
                     if !declared_constants.insert(c) {
                         return Err(SemanticErrorType::DuplicateObjectDeclaration(
@@ -81,6 +85,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&action.parameters) {
+                return Err(error);
+            }
             // assert precondition predicates are declared
             match &action.preconditions {
                 Some(precondition) => {
@@ -142,6 +150,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&method.params) {
+                return Err(error);
+            }
             // Assert preconditions are valid
             match &method.precondition {
                 Some(precondition) => {
diff --git a/src/semantic_analyzer/analyzers/problem_analyzer.rs b/src/semantic_analyzer/analyzers/problem_analyzer.rs
index 978820e..76edee6 100644
--- a/src/semantic_analyzer/analyzers/problem_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/problem_analyzer.rs
@@ -50,6 +50,12 @@ impl<'a> ProblemSemanticAnalyzer<'a> {
 
         // check the initial task network
         if let Some(htn) = &self.problem.init_tn {
+            if let Some(parameters) = &htn.parameters {
+                if let Some(error) = self.type_checker.check_type_declarations(parameters) {
+                    return Err(error);
+                }
+            }
+
             if !htn.tn.orderings.is_acyclic() {
                 return Err(
                     SemanticErrorType::CyclicOrderingDeclaration(
-- 
2.43.0


From ba5cca5a24b70a0922d3a9cce7d905f8712ebe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:54 +0000
Subject: [PATCH 20/36] fix: compute nullable tasks correctly, and for domains
 without compound tasks

A method with two or more subtasks that are not nullable was treated as
if one of them (whichever the hash set returned first) was all that
remained, and without any compound task the fixpoint loop never ended.
---
 src/semantic_analyzer/tdg.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 7117eae..9f172e6 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -442,6 +442,7 @@ impl<'a> TDG<'a> {
         let mut new_nullables = HashSet::new();
         let mut new_unit_reachable: HashMap<usize, HashSet<usize>> = HashMap::new();
         while changed_nullables || changed_unit_reachability {
+            changed_unit_reachability = false;
             // nullables induction step
             for (t, methods) in self.edges_from_tasks.iter() {
                 for method in methods {
@@ -479,6 +480,8 @@ impl<'a> TDG<'a> {
                                 if not_nullable.is_none() {
                                     not_nullable = Some(*task)
                                 } else {
+                                    // more than one task remains
+                                    not_nullable = None;
                                     break;
                                 }
                             }
@@ -488,9 +491,8 @@ impl<'a> TDG<'a> {
                         }
                     }
                 }
-                if change == *previous_reachables {
-                    changed_unit_reachability = false;
-                } else {
+                if change != *previous_reachables {
+                    changed_unit_reachability = true;
                     new_unit_reachable.insert(*c, change);
                 }
             }
-- 
2.43.0


From 2a22468a04eb8ac0026ed25306994d81cb8c688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:34 +0000
Subject: [PATCH 21/36] fix: list warnings, nullable tasks and recursion cycles
 in a stable order

They were collected from hash maps and sets, so their order (and the
cycle that is reported) changed from one run to the next.
---
 src/lib.rs                                         |  7 ++++++-
 src/semantic_analyzer/analyzers/domain_analyzer.rs |  2 +-
 src/semantic_analyzer/tdg.rs                       | 14 +++++++-------
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9164686..c18e58c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -67,7 +67,12 @@ impl HDDLAnalyzer {
                 let recursion_type = tdg.get_recursion_type(&nullables);
                 Ok(MetaData {
                     recursion: recursion_type,
-                    nullables: nullables.iter().map(|x| x.to_string()).collect(),
+                    nullables: d
+                        .compound_tasks
+                        .iter()
+                        .filter(|x| nullables.contains(x.name))
+                        .map(|x| x.name.to_string())
+                        .collect(),
                     domain_name: String::new(),
                     n_actions: d.actions.len() as u32,
                     n_tasks: d.compound_tasks.len() as u32,
diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 6914b14..df6371f 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -222,7 +222,7 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         }
         // Check whether all compound tasks can be refined to primitive ones
         let tdg = TDG::new(self.domain);
-        for task in declared_tasks.iter() {
+        for task in self.domain.compound_tasks.iter() {
             let reachables = tdg.reachable(&task.name);
             if (reachables.primitives.len() == 0) && (reachables.nullable == false) {
                 warnings.push(WarningType::NoPrimitiveRefinement(WarningInfo {
diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 9f172e6..077a743 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -1,12 +1,12 @@
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
 
 use super::*;
 
 pub struct TDG<'a> {
     tasks: Vec<(&'a str, TaskType)>,
     methods: Vec<(&'a Symbol<'a>, HTN<'a>)>,
-    edges_from_tasks: HashMap<usize, HashSet<usize>>,
-    edges_to_tasks: HashMap<usize, HashSet<usize>>,
+    edges_from_tasks: BTreeMap<usize, BTreeSet<usize>>,
+    edges_to_tasks: BTreeMap<usize, BTreeSet<usize>>,
 }
 
 impl<'a> TDG<'a> {
@@ -22,14 +22,14 @@ impl<'a> TDG<'a> {
         tasks.extend(domain.actions.iter().map(|x| (x.name, TaskType::Primitive)));
 
         // edges
-        let mut to_methods = HashMap::new();
-        let mut to_tasks = HashMap::new();
+        let mut to_methods = BTreeMap::new();
+        let mut to_tasks = BTreeMap::new();
 
         // compute index of tasks and methods for efficiency
         let mut task_indices = HashMap::new();
         for (index, (task, _)) in tasks.iter().enumerate() {
             task_indices.insert(*task, index);
-            to_methods.insert(index, HashSet::new());
+            to_methods.insert(index, BTreeSet::new());
         }
 
         let mut methods = vec![];
@@ -49,7 +49,7 @@ impl<'a> TDG<'a> {
 
         // collect "method to task" edges
         for (method_index, method) in methods.iter().enumerate() {
-            let tasks: HashSet<usize> = method
+            let tasks: BTreeSet<usize> = method
                 .1
                 .subtasks
                 .iter()
-- 
2.43.0


From 6c56a78ffe9b7b90d291d656f42e2ecbfa69f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:10 +0000
Subject: [PATCH 22/36] fix: find what comes before and after a subtask under a
 partial order

Partial orders other than a chain of n-1 orderings failed an assertion,
some chains made the search loop forever or panic, and subtask ids were
compared by substring.
---
 src/semantic_analyzer/tdg.rs | 178 +++++++++++------------------------
 1 file changed, 55 insertions(+), 123 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 077a743..e3b4159 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -251,142 +251,74 @@ impl<'a> TDG<'a> {
         return recursion_type;
     }
 
+    // tasks that must be executed before the given task in the given method
     fn get_prefix(&self, task_index: usize, method_index: usize) -> Vec<usize> {
         let (_, method) = &self.methods[method_index];
-        let (task, _) = &self.tasks[task_index];
-        match &method.orderings {
-            TaskOrdering::Total => {
-                for (index, subtask) in method.subtasks.iter().enumerate() {
-                    if subtask.task.name == *task {
-                        return method
-                            .subtasks
-                            .iter()
-                            .take(index)
-                            .map(|x| self.get_task_index(&x.task.name))
-                            .collect();
-                    }
-                }
-                panic!("{} does not exist in {:?}", task, method.subtasks)
-            }
-            TaskOrdering::Partial(orderings) => {
-                // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                // construct the ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
-                for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(&e2);
-                    } else {
-                        adjacency.insert(&e1, HashSet::from([*e2]));
-                    }
-                }
-                // find tasks that are explicitly ordered after "task"
-                let mut prefix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoings) => {
-                            for outgoing in outgoings {
-                                for occurance in task_occurances.iter() {
-                                    if outgoing.contains(occurance) {
-                                        prefix.push(id_to_task_mapping.get(t).unwrap());
-                                        stack.push(&t);
-                                    }
-                                }
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                return prefix
-                    .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
-                    .collect();
-            }
-        }
+        let (_, predecessors) = self.get_first_occurance(task_index, method_index);
+        method
+            .subtasks
+            .iter()
+            .enumerate()
+            .filter(|(index, _)| predecessors.contains(index))
+            .map(|(_, x)| self.get_task_index(&x.task.name))
+            .collect()
     }
 
+    // remaining tasks, i.e., those that can be executed after the given task in the given method
     fn get_suffix(&self, task_index: usize, method_index: usize) -> Vec<usize> {
+        let (_, method) = &self.methods[method_index];
+        let (occurance, predecessors) = self.get_first_occurance(task_index, method_index);
+        method
+            .subtasks
+            .iter()
+            .enumerate()
+            .filter(|(index, _)| *index != occurance && !predecessors.contains(index))
+            .map(|(_, x)| self.get_task_index(&x.task.name))
+            .collect()
+    }
+
+    // position of the occurance of the task with the fewest subtasks before it, and those subtasks
+    fn get_first_occurance(
+        &self,
+        task_index: usize,
+        method_index: usize,
+    ) -> (usize, HashSet<usize>) {
         let (_, method) = &self.methods[method_index];
         let (task, _) = &self.tasks[task_index];
+        method
+            .subtasks
+            .iter()
+            .enumerate()
+            .filter(|(_, subtask)| subtask.task.name == *task)
+            .map(|(index, _)| (index, TDG::get_predecessors(method, index)))
+            .min_by_key(|(_, predecessors)| predecessors.len())
+            .unwrap_or_else(|| panic!("{} does not exist in {:?}", task, method))
+    }
+
+    // positions of the subtasks that are (transitively) ordered before the given one
+    fn get_predecessors(method: &HTN<'a>, subtask: usize) -> HashSet<usize> {
         match &method.orderings {
-            TaskOrdering::Total => {
-                for (index, subtask) in method.subtasks.iter().enumerate() {
-                    if subtask.task.name == *task {
-                        return method
-                            .subtasks
-                            .iter()
-                            .skip(index + 1)
-                            .map(|x| self.get_task_index(&x.task.name))
-                            .collect();
-                    }
-                }
-                panic!("{} does not exist in {:?}", task, method)
-            }
+            TaskOrdering::Total => (0..subtask).collect(),
             TaskOrdering::Partial(orderings) => {
-                // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
+                let mut predecessors = HashSet::new();
+                let mut stack = vec![subtask];
+                while let Some(current) = stack.pop() {
+                    let current_id = match &method.subtasks[current].id {
+                        Some(id) => id.name,
+                        None => continue,
+                    };
+                    for (before, _) in orderings.iter().filter(|(_, after)| *after == current_id) {
+                        for (index, x) in method.subtasks.iter().enumerate() {
+                            if x.id.as_ref().is_some_and(|id| id.name == *before)
+                                && predecessors.insert(index)
+                            {
+                                stack.push(index);
                             }
                         }
-                        None => {}
-                    }
-                }
-                // construct ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
-                for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(e2);
-                    } else {
-                        adjacency.insert(e1, HashSet::from([*e2]));
-                    }
-                }
-                // find tasks that are explicitly ordered after "task"
-                let mut suffix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoing) => {
-                            stack.extend(outgoing.iter());
-                            suffix.extend(outgoing.iter());
-                        }
-                        None => {}
                     }
                 }
-                suffix
-                    .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
-                    .collect()
+                predecessors.remove(&subtask);
+                predecessors
             }
         }
     }
-- 
2.43.0


From b620a10f93b45a3bd38590fb5a491a557903b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:39 +0000
Subject: [PATCH 23/36] fix: require every prefix on a cycle to be nullable

A prefix that starts with the task the cycle is closed with was exempted,
so cycles that need other tasks first were reported as empty or growing
empty prefix recursion.
---
 src/semantic_analyzer/tdg.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index e3b4159..e7e229c 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -173,14 +173,10 @@ impl<'a> TDG<'a> {
                             let (_, m_id) = cyclic_path[index];
                             let prefix = self.get_prefix(*t_id, m_id);
                             // check epsilon prefix
-                            if prefix.len() > 0 {
-                                if prefix[0] != *new_task {
-                                    for x in prefix.iter() {
-                                        if !nullables.contains(x) {
-                                            is_epsilon_prefix = false;
-                                            break;
-                                        }
-                                    }
+                            for x in prefix.iter() {
+                                if !nullables.contains(x) {
+                                    is_epsilon_prefix = false;
+                                    break;
                                 }
                             }
                             suffix.extend(self.get_suffix(*t_id, m_id));
-- 
2.43.0


From 8b3fb215a0a836d30798128295381def0d38096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:33 +0000
Subject: [PATCH 24/36] fix: classify the recursion without enumerating all
 simple paths

The number of paths is exponential in the size of the hierarchy, so the
metadata of larger domains (e.g., Freecell-Learned-ECAI-16) was never
computed.
---
 src/semantic_analyzer/tdg.rs | 194 ++++++++++++++++++-----------------
 1 file changed, 98 insertions(+), 96 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index e7e229c..60270d9 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -140,111 +140,103 @@ impl<'a> TDG<'a> {
             .iter()
             .map(|x| self.get_task_index(&x))
             .collect();
-        let mut recursion_type = RecursionType::NonRecursive;
-        // DFS over TDG
-        let mut stack = vec![];
-        // initiating the stack
         // TODO: restrict to those reachable from inital task network
-        for (t, methods) in self.edges_from_tasks.iter() {
+        let mut edges = vec![];
+        for (task, methods) in self.edges_from_tasks.iter() {
             for method in methods {
-                stack.push(vec![(*t, *method)]);
+                for subtask in self.edges_to_tasks.get(method).unwrap() {
+                    let prefix = self.get_prefix(*subtask, *method);
+                    let suffix = self.get_suffix(*subtask, *method);
+                    edges.push(DecompositionEdge {
+                        task: *task,
+                        method: *method,
+                        subtask: *subtask,
+                        is_epsilon_prefix: prefix.iter().all(|x| nullables.contains(x)),
+                        is_empty_suffix: suffix.is_empty(),
+                        is_nullable_suffix: suffix.iter().all(|x| nullables.contains(x)),
+                    });
+                }
             }
         }
-        // induction
-        while let Some(path) = stack.pop() {
-            let (_, current_method) = path.iter().last().unwrap();
-            for new_task in self.edges_to_tasks.get(current_method).unwrap() {
-                let mut cycle: Option<Vec<(usize, usize)>> = None;
-                for (index, (t, _)) in path.iter().enumerate() {
-                    if t == new_task {
-                        let mut cycle_path: Vec<(usize, usize)> =
-                            path.iter().skip(index).cloned().collect();
-                        cycle_path.push((*new_task, *current_method));
-                        cycle = Some(cycle_path);
-                        break;
-                    }
+        // the prefix (suffix) of a cycle is nullable iff those of all its edges are
+        if let Some(cycle) = self.find_cycle(
+            &edges,
+            |edge| edge.is_epsilon_prefix && edge.is_nullable_suffix,
+            |edge| !edge.is_empty_suffix,
+        ) {
+            return RecursionType::GrowAndShrinkRecursion(cycle);
+        }
+        if let Some(cycle) = self.find_cycle(
+            &edges,
+            |edge| edge.is_epsilon_prefix && edge.is_empty_suffix,
+            |_| true,
+        ) {
+            return RecursionType::EmptyRecursion(cycle);
+        }
+        if let Some(cycle) = self.find_cycle(
+            &edges,
+            |edge| edge.is_epsilon_prefix,
+            |edge| !edge.is_nullable_suffix,
+        ) {
+            return RecursionType::GrowingEmptyPrefixRecursion(cycle);
+        }
+        if let Some(cycle) = self.find_cycle(&edges, |_| true, |_| true) {
+            return RecursionType::Recursive(cycle);
+        }
+        return RecursionType::NonRecursive;
+    }
+
+    // finds a cycle that consists of allowed edges, and contains at least one required edge
+    fn find_cycle(
+        &self,
+        edges: &Vec<DecompositionEdge>,
+        is_allowed: impl Fn(&DecompositionEdge) -> bool,
+        is_required: impl Fn(&DecompositionEdge) -> bool,
+    ) -> Option<Vec<(String, String)>> {
+        let mut allowed: HashMap<usize, Vec<&DecompositionEdge>> = HashMap::new();
+        for edge in edges.iter().filter(|edge| is_allowed(edge)) {
+            allowed.entry(edge.task).or_default().push(edge);
+        }
+        for first in edges.iter().filter(|e| is_allowed(e) && is_required(e)) {
+            // BFS for a path that leads back to the task of the first edge
+            let mut reached_by: HashMap<usize, &DecompositionEdge> =
+                HashMap::from([(first.subtask, first)]);
+            let mut queue = VecDeque::from([first.subtask]);
+            while let Some(task) = queue.pop_front() {
+                if task == first.task {
+                    break;
                 }
-                match cycle {
-                    Some(cyclic_path) => {
-                        // compute cycle prefix
-                        let mut is_epsilon_prefix = true;
-                        let mut suffix: Vec<usize> = vec![];
-                        for (index, (t_id, _)) in cyclic_path.iter().skip(1).enumerate() {
-                            let (_, m_id) = cyclic_path[index];
-                            let prefix = self.get_prefix(*t_id, m_id);
-                            // check epsilon prefix
-                            for x in prefix.iter() {
-                                if !nullables.contains(x) {
-                                    is_epsilon_prefix = false;
-                                    break;
-                                }
-                            }
-                            suffix.extend(self.get_suffix(*t_id, m_id));
-                        }
-                        // convert cyclic path to names
-                        let cyclic_path = cyclic_path
-                            .iter()
-                            .map(|(task_id, method_id)| {
-                                (
-                                    self.tasks[*task_id].0.to_string(),
-                                    self.methods[*method_id].0.name.to_string(),
-                                )
-                            })
-                            .collect();
-                        if is_epsilon_prefix == true {
-                            if suffix.len() == 0 {
-                                match recursion_type {
-                                    RecursionType::GrowAndShrinkRecursion(_) => {}
-                                    _ => {
-                                        recursion_type = RecursionType::EmptyRecursion(cyclic_path);
-                                    }
-                                }
-                            } else {
-                                let nullable_suffix =
-                                    suffix.iter().all(|sym| nullables.contains(sym));
-                                match recursion_type {
-                                    RecursionType::GrowAndShrinkRecursion(_) => {}
-                                    RecursionType::EmptyRecursion(_) => {
-                                        if nullable_suffix {
-                                            recursion_type =
-                                                RecursionType::GrowAndShrinkRecursion(cyclic_path);
-                                        }
-                                    }
-                                    _ => {
-                                        if nullable_suffix {
-                                            recursion_type =
-                                                RecursionType::GrowAndShrinkRecursion(cyclic_path);
-                                        } else {
-                                            recursion_type =
-                                                RecursionType::GrowingEmptyPrefixRecursion(
-                                                    cyclic_path,
-                                                );
-                                        }
-                                    }
-                                }
-                            }
-                        } else {
-                            match recursion_type {
-                                RecursionType::NonRecursive => {
-                                    recursion_type = RecursionType::Recursive(cyclic_path);
-                                }
-                                _ => {}
-                            }
-                        }
-                    }
-                    None => {
-                        if let Some(methods) = self.edges_from_tasks.get(new_task) {
-                            for method in methods {
-                                let mut new_path = path.clone();
-                                new_path.push((*new_task, *method));
-                                stack.push(new_path);
-                            }
-                        }
+                for edge in allowed.get(&task).into_iter().flatten() {
+                    if !reached_by.contains_key(&edge.subtask) {
+                        reached_by.insert(edge.subtask, edge);
+                        queue.push_back(edge.subtask);
                     }
                 }
             }
+            // walk the path backwards
+            if let Some(last) = reached_by.get(&first.task) {
+                let mut path = vec![*last];
+                while path[path.len() - 1].task != first.task {
+                    path.push(reached_by[&path[path.len() - 1].task]);
+                }
+                let mut cycle: Vec<(usize, usize)> =
+                    path.iter().rev().map(|e| (e.task, e.method)).collect();
+                cycle.push((first.task, last.method));
+                // convert cyclic path to names
+                return Some(
+                    cycle
+                        .iter()
+                        .map(|(task_id, method_id)| {
+                            (
+                                self.tasks[*task_id].0.to_string(),
+                                self.methods[*method_id].0.name.to_string(),
+                            )
+                        })
+                        .collect(),
+                );
+            }
         }
-        return recursion_type;
+        None
     }
 
     // tasks that must be executed before the given task in the given method
@@ -454,6 +446,16 @@ enum TaskType {
     Compound,
 }
 
+// a subtask of a method for the task
+struct DecompositionEdge {
+    task: usize,
+    method: usize,
+    subtask: usize,
+    is_epsilon_prefix: bool,
+    is_empty_suffix: bool,
+    is_nullable_suffix: bool,
+}
+
 pub struct ReachableSet<'a> {
     pub primitives: HashSet<&'a str>,
     pub compounds: HashSet<&'a str>,
-- 
2.43.0


From f55907080135524957bb1fd626059e7034d3e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 25/36] fix: warn about every compound task without a primitive
 refinement

A task was taken to be refinable as soon as some action is reachable from
it, even if each of its methods needs a task that cannot be refined (e.g.
one that can only be decomposed into itself and an action).
---
 .../analyzers/domain_analyzer.rs              |  5 ++---
 src/semantic_analyzer/tdg.rs                  | 21 +++++++++++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index df6371f..31a4f26 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -221,10 +221,9 @@ impl<'a> DomainSemanticAnalyzer<'a> {
             }
         }
         // Check whether all compound tasks can be refined to primitive ones
-        let tdg = TDG::new(self.domain);
+        let refinables = TDG::new(self.domain).compute_refinables();
         for task in self.domain.compound_tasks.iter() {
-            let reachables = tdg.reachable(&task.name);
-            if (reachables.primitives.len() == 0) && (reachables.nullable == false) {
+            if !refinables.contains(task.name) {
                 warnings.push(WarningType::NoPrimitiveRefinement(WarningInfo {
                     symbol: task.name.to_string(),
                     position: task.name_pos,
diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 60270d9..c071936 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -311,6 +311,27 @@ impl<'a> TDG<'a> {
         }
     }
 
+    // tasks that can be decomposed into a (potentially empty) sequence of primitive tasks
+    pub fn compute_refinables(&self) -> HashSet<&'a str> {
+        let mut refinables: HashSet<usize> = (0..self.tasks.len())
+            .filter(|task| self.tasks[*task].1 == TaskType::Primitive)
+            .collect();
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for (task, methods) in self.edges_from_tasks.iter() {
+                let is_refinable = methods.iter().any(|method| {
+                    let subtasks = self.edges_to_tasks.get(method).unwrap();
+                    subtasks.iter().all(|subtask| refinables.contains(subtask))
+                });
+                if is_refinable && refinables.insert(*task) {
+                    changed = true;
+                }
+            }
+        }
+        refinables.iter().map(|task| self.tasks[*task].0).collect()
+    }
+
     fn get_task_index(&self, task_name: &str) -> usize {
         self.tasks
             .iter()
-- 
2.43.0


From b043a5c28e6056b0a2d988355c8fbacb9fc7e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:35 +0000
Subject: [PATCH 26/36] fix: report undefined tasks when metadata is requested
 instead of panicking

---
 src/lib.rs                                    |  1 +
 .../analyzers/domain_analyzer.rs              | 23 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c18e58c..7016af2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -62,6 +62,7 @@ impl HDDLAnalyzer {
         let domain_ast = domain_parser.parse()?;
         match domain_ast {
             AbstractSyntaxTree::Domain(d) => {
+                DomainSemanticAnalyzer::new(&d).verify_task_declarations()?;
                 let tdg = TDG::new(&d);
                 let nullables = tdg.compute_nullables();
                 let recursion_type = tdg.get_recursion_type(&nullables);
diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 31a4f26..5412179 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -291,6 +291,29 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         Ok(declared_tasks)
     }
 
+    // asserts that the tasks and subtasks of all methods are declared
+    pub fn verify_task_declarations(&self) -> Result<(), SemanticErrorType> {
+        let is_compound = |name: &str| self.domain.compound_tasks.iter().any(|x| x.name == name);
+        let is_primitive = |name: &str| self.domain.actions.iter().any(|x| x.name == name);
+        for method in self.domain.methods.iter() {
+            if !is_compound(method.task.name) {
+                return Err(SemanticErrorType::UndefinedTask(UndefinedSymbolError {
+                    symbol: method.task.name.to_string(),
+                    position: method.task.name_pos,
+                }));
+            }
+            for subtask in method.tn.subtasks.iter() {
+                if !is_compound(subtask.task.name) && !is_primitive(subtask.task.name) {
+                    return Err(SemanticErrorType::UndefinedSubtask(UndefinedSymbolError {
+                        symbol: subtask.task.name.to_string(),
+                        position: subtask.task.name_pos,
+                    }));
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn check_duplicate_requirements(
         requirements: &'a Vec<RequirementType>,
     ) -> Option<SemanticErrorType> {
-- 
2.43.0


From 78de50654bc5e17c92d5ebf4257a8fee6271e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:01 +0000
Subject: [PATCH 27/36] fix: report duplicate definitions in the language
 server

The related location of a duplicate was built from a URI that does not
parse, so the server panicked on every duplicate definition.
---
 src/language_server/diagnostic_utils.rs | 34 +++++++++++++++----------
 src/language_server/request_handler.rs  | 11 +++++---
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/language_server/diagnostic_utils.rs b/src/language_server/diagnostic_utils.rs
index 5102f09..0458eaf 100644
--- a/src/language_server/diagnostic_utils.rs
+++ b/src/language_server/diagnostic_utils.rs
@@ -20,7 +20,7 @@ pub fn classify_file(content: &Vec<u8>) -> FileVariant {
     parser.classify()
 }
 
-pub fn diagnose_domain(content: &Vec<u8>) -> DocumentDiagnosticReportResult {
+pub fn diagnose_domain(uri: &Url, content: &Vec<u8>) -> DocumentDiagnosticReportResult {
     let lexer = LexicalAnalyzer::new(content);
     let parser = Parser::new(lexer);
     let mut items = vec![];
@@ -32,13 +32,13 @@ pub fn diagnose_domain(content: &Vec<u8>) -> DocumentDiagnosticReportResult {
                         // TODO: add warnings
                     }
                     Err(semantic_error) => {
-                        items.push(ParsingError::Semantic(semantic_error).into());
+                        items.push(LocatedError(ParsingError::Semantic(semantic_error), uri).into());
                     }
                 }
             }
         },
         Err(paring_error) => {
-            items.push(paring_error.into());
+            items.push(LocatedError(paring_error, uri).into());
         }
     }
     DocumentDiagnosticReportResult::Report(
@@ -70,7 +70,11 @@ pub fn generate_empty_report() -> DocumentDiagnosticReportResult {
     )
 }
 
-pub fn diagnose_problem(domain_content: Option<&Vec<u8>>, problem_content: &Vec<u8>) -> DocumentDiagnosticReportResult {
+pub fn diagnose_problem(
+    domain: Option<(&Url, &Vec<u8>)>,
+    problem_uri: &Url,
+    problem_content: &Vec<u8>,
+) -> DocumentDiagnosticReportResult {
     let mut items = vec![];
     let mut symbol_table = None;
     
@@ -78,8 +82,8 @@ pub fn diagnose_problem(domain_content: Option<&Vec<u8>>, problem_content: &Vec<
     let domain_parser;
     let domain_verifier;
     let domain_ast;
-    match domain_content {
-        Some(content) => {
+    match domain {
+        Some((domain_uri, content)) => {
             domain_lexer = LexicalAnalyzer::new(content);
             domain_parser = Parser::new(domain_lexer);
             match domain_parser.parse() {
@@ -93,13 +97,13 @@ pub fn diagnose_problem(domain_content: Option<&Vec<u8>>, problem_content: &Vec<
                                 // TODO: add warnings
                             }
                             Err(semantic_error) => {
-                                items.push(ParsingError::Semantic(semantic_error).into());
+                                items.push(LocatedError(ParsingError::Semantic(semantic_error), domain_uri).into());
                             }
                         }
                     }
                 }
                 Err(parsing_error) => {
-                    items.push(parsing_error.into());
+                    items.push(LocatedError(parsing_error, domain_uri).into());
                 }
             }
         }
@@ -118,14 +122,14 @@ pub fn diagnose_problem(domain_content: Option<&Vec<u8>>, problem_content: &Vec<
                         // TODO: add warnings
                     },
                     Err(semantic_error) => {
-                        items.push(ParsingError::Semantic(semantic_error).into());
+                        items.push(LocatedError(ParsingError::Semantic(semantic_error), problem_uri).into());
                     }
                 }
             }
         },
         Ok(_) => {}
         Err(parsing_error) => {
-            items.push(parsing_error.into());
+            items.push(LocatedError(parsing_error, problem_uri).into());
         }
     }
     DocumentDiagnosticReportResult::Report(
@@ -144,8 +148,11 @@ pub fn diagnose_problem(domain_content: Option<&Vec<u8>>, problem_content: &Vec<
 }
 
 
-impl From<ParsingError> for Diagnostic {
-    fn from(error: ParsingError) -> Self {
+// an error, and the URI of the document that it is found in
+struct LocatedError<'a>(ParsingError, &'a Url);
+
+impl<'a> From<LocatedError<'a>> for Diagnostic {
+    fn from(LocatedError(error, uri): LocatedError<'a>) -> Self {
         let source = Some("HDDL Analyzer".to_string());
         match error {
             ParsingError::Lexiacal(lexical_error) => {
@@ -199,8 +206,7 @@ impl From<ParsingError> for Diagnostic {
                             Some(vec![
                                 DiagnosticRelatedInformation {
                                     location: Location {
-                                        // TODO: fix the dummy URI
-                                        uri: Url::parse("//").unwrap(),
+                                        uri: uri.clone(),
                                         range: Range {
                                             start: Position { line: duplicate.first_pos.line - 1, character: 0 },
                                             end: Position { line: duplicate.first_pos.line, character: 0 }
diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 37371c6..1f4f92f 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -110,7 +110,7 @@ impl LanguageServer for RequestHandler {
                                 ),
                             )
                             .await;
-                        let diagnosis = diagnose_domain(document);
+                        let diagnosis = diagnose_domain(&params.text_document.uri, document);
                         return Ok(diagnosis);
                     }
                     FileVariant::Problem => {
@@ -131,7 +131,12 @@ impl LanguageServer for RequestHandler {
                                                         params.text_document.uri.to_string()
                                                     ),
                                                 ).await;
-                                            return Ok(diagnose_problem(Some(&content), document));
+                                            let domain_uri = Url::from_file_path(entry.path()).unwrap();
+                                            return Ok(diagnose_problem(
+                                                Some((&domain_uri, &content)),
+                                                &params.text_document.uri,
+                                                document,
+                                            ));
                                         }
                                         // File is not the domain
                                         _ => {}
@@ -151,7 +156,7 @@ impl LanguageServer for RequestHandler {
                                 ),
                             )
                             .await;
-                        return Ok(diagnose_problem(None, document));
+                        return Ok(diagnose_problem(None, &params.text_document.uri, document));
                     }
                     FileVariant::MaybeNotHDDL => {
                         // TODO: attempt to fix this
-- 
2.43.0


From c4097bea5cfa770c343d6fbc606f2824ce082b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:26 +0000
Subject: [PATCH 28/36] fix: do not panic on documents without a folder or
 unreadable files in the language server

Requests about documents that are not files, or whose folder or saved content cannot
be read, or whose folder contains an unreadable entry named like a domain,
panicked in the handler.
---
 src/language_server/request_handler.rs | 32 ++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 1f4f92f..f13be16 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -73,9 +73,13 @@ impl LanguageServer for RequestHandler {
         // get the saved file content
         let text = match params.text {
             Some(content) => content.into_bytes(),
-            None => tokio::fs::read(params.text_document.uri.path())
-                .await
-                .unwrap(),
+            None => match params.text_document.uri.to_file_path() {
+                Ok(path) => match tokio::fs::read(path).await {
+                    Ok(content) => content,
+                    Err(_) => return,
+                },
+                Err(_) => return,
+            },
         };
         // sync the file
         self.sync(params.text_document.uri, text).await;
@@ -98,7 +102,6 @@ impl LanguageServer for RequestHandler {
                 self.client
                     .log_message(MessageType::LOG, "Diagnostic Request Recieved.")
                     .await;
-                let file_path = params.text_document.uri.to_file_path().unwrap();
                 match classify_file(document) {
                     FileVariant::Domain => {
                         self.client
@@ -114,12 +117,23 @@ impl LanguageServer for RequestHandler {
                         return Ok(diagnosis);
                     }
                     FileVariant::Problem => {
-                        let root_folder = file_path.parent().unwrap();
-                        let mut files = tokio::fs::read_dir(root_folder).await.unwrap();
+                        // documents that are not saved yet have no folder
+                        let file_path = params.text_document.uri.to_file_path().unwrap_or_default();
+                        let root_folder = file_path.parent().unwrap_or(&file_path);
+                        let mut files = match tokio::fs::read_dir(root_folder).await {
+                            Ok(files) => files,
+                            Err(_) => {
+                                return Ok(diagnose_problem(None, &params.text_document.uri, document));
+                            }
+                        };
                         while let Ok(Some(entry)) = files.next_entry().await {
                             match entry.path().extension() {
                                 Some(extension) if (extension == "hddl" || extension == "pddl") => {
-                                    let content = tokio::fs::read(entry.path()).await.unwrap();
+                                    let content = match tokio::fs::read(entry.path()).await {
+                                        Ok(content) => content,
+                                        // not a (readable) file
+                                        Err(_) => continue,
+                                    };
                                     match classify_file(&content) {
                                         FileVariant::Domain => {
                                             self.client
@@ -127,7 +141,7 @@ impl LanguageServer for RequestHandler {
                                                     MessageType::LOG,
                                                     format!(
                                                         "{} is the domain for {}. Attempting to diagnose.",
-                                                        root_folder.to_str().unwrap(),
+                                                        root_folder.display(),
                                                         params.text_document.uri.to_string()
                                                     ),
                                                 ).await;
@@ -152,7 +166,7 @@ impl LanguageServer for RequestHandler {
                                 MessageType::LOG,
                                 format!(
                                     "Could not find the domain in {}",
-                                    root_folder.to_str().unwrap()
+                                    root_folder.display()
                                 ),
                             )
                             .await;
-- 
2.43.0


From 8a7146cebc3750bb910399e136d6e4247554588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:40 +0000
Subject: [PATCH 29/36] fix: apply all content changes of a document in the
 language server

A change notification may hold several changes that apply in order; only the
first one was stored.
---
 src/language_server/request_handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index f13be16..2dce8bf 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -88,7 +88,8 @@ impl LanguageServer for RequestHandler {
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let uri = params.text_document.uri;
         // TODO: add support for incremental change
-        if let Some(new_text) = params.content_changes.into_iter().next() {
+        // the changes apply one after another: the last one is the new content
+        if let Some(new_text) = params.content_changes.into_iter().last() {
             self.sync(uri, new_text.text.into_bytes()).await
         }
     }
-- 
2.43.0


From 5a937743b8c804e2dff02a1f05c98f3f7bd63055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:07 +0000
Subject: [PATCH 30/36] fix: diagnose a problem against the open domain
 document in the language server

While a document is open the client owns its content, so the domain must not be
read from disk; once it is closed the file is the truth again.
---
 src/language_server/request_handler.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 2dce8bf..f12d90e 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -94,11 +94,16 @@ impl LanguageServer for RequestHandler {
         }
     }
 
+    async fn did_close(&self, params: DidCloseTextDocumentParams) {
+        self.documents.write().await.remove(&params.text_document.uri);
+    }
+
     async fn diagnostic(
         &self,
         params: DocumentDiagnosticParams,
     ) -> tower_lsp::jsonrpc::Result<DocumentDiagnosticReportResult> {
-        match self.documents.read().await.get(&params.text_document.uri) {
+        let documents = self.documents.read().await;
+        match documents.get(&params.text_document.uri) {
             Some(document) => {
                 self.client
                     .log_message(MessageType::LOG, "Diagnostic Request Recieved.")
@@ -130,10 +135,17 @@ impl LanguageServer for RequestHandler {
                         while let Ok(Some(entry)) = files.next_entry().await {
                             match entry.path().extension() {
                                 Some(extension) if (extension == "hddl" || extension == "pddl") => {
-                                    let content = match tokio::fs::read(entry.path()).await {
-                                        Ok(content) => content,
-                                        // not a (readable) file
-                                        Err(_) => continue,
+                                    // what the client has open is newer than the saved file
+                                    let opened = documents
+                                        .iter()
+                                        .find(|(uri, _)| uri.to_file_path() == Ok(entry.path()));
+                                    let content = match opened {
+                                        Some((_, content)) => content.clone(),
+                                        None => match tokio::fs::read(entry.path()).await {
+                                            Ok(content) => content,
+                                            // not a (readable) file
+                                            Err(_) => continue,
+                                        },
                                     };
                                     match classify_file(&content) {
                                         FileVariant::Domain => {
-- 
2.43.0


From a2d296f01a1a85f45a2201e751fe8c6cc780419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:48 +0000
Subject: [PATCH 31/36] fix: keep the order of saves and later notifications in
 the language server

---
 src/language_server/request_handler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index f12d90e..ad93e5d 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -70,6 +70,8 @@ impl LanguageServer for RequestHandler {
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
+        // later notifications wait until the saved content is in place
+        let mut documents = self.documents.write().await;
         // get the saved file content
         let text = match params.text {
             Some(content) => content.into_bytes(),
@@ -82,7 +84,7 @@ impl LanguageServer for RequestHandler {
             },
         };
         // sync the file
-        self.sync(params.text_document.uri, text).await;
+        documents.insert(params.text_document.uri, text);
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-- 
2.43.0


From 877dbbd185aa794cf6bacfa263b9f75316e38a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:13 +0000
Subject: [PATCH 32/36] fix: reject a type that is given to no name instead of
 dropping it

---
 src/syntactic_analyzer/problem_parser/list_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/syntactic_analyzer/problem_parser/list_parser.rs b/src/syntactic_analyzer/problem_parser/list_parser.rs
index bda1acf..7f9d375 100644
--- a/src/syntactic_analyzer/problem_parser/list_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/list_parser.rs
@@ -11,7 +11,8 @@ impl<'a> Parser<'a> {
                 token = self.tokenizer.get_token()?;
             }
             match token {
-                Token::Punctuator(PunctuationType::Dash) => {
+                // a type is always given to at least one name
+                Token::Punctuator(PunctuationType::Dash) if !objects.is_empty() => {
                     // match type
                     let object_type = self.tokenizer.get_token()?;
                     let type_pos = self.tokenizer.get_last_token_position();
-- 
2.43.0


From 7d5800a42671a49c2eb7acc7b917164578481b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:41 +0000
Subject: [PATCH 33/36] fix: keep the facts of every :init section

---
 src/syntactic_analyzer/syntax_tree/problem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/syntactic_analyzer/syntax_tree/problem.rs b/src/syntactic_analyzer/syntax_tree/problem.rs
index 3959789..597f13b 100644
--- a/src/syntactic_analyzer/syntax_tree/problem.rs
+++ b/src/syntactic_analyzer/syntax_tree/problem.rs
@@ -32,7 +32,7 @@ impl <'a> ProblemAST<'a> {
         self.init_tn = Some(tn);
     }
     pub fn add_init_state(&mut self, state: Vec<Predicate<'a>>) {
-        self.init_state = state;
+        self.init_state.extend(state);
     }
     pub fn add_goal(&mut self, goal: Formula<'a>) {
         self.goal = Some(goal);
-- 
2.43.0


From 0956b0c9b6b94fe5ba375b746c34501af5aafba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:57 +0000
Subject: [PATCH 34/36] fix: keep the constraints of every :constraints section
 of a task network

---
 src/syntactic_analyzer/problem_parser/init_tn_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index 3135cba..1d62ba5 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -175,7 +175,9 @@ impl<'a> Parser<'a> {
                             }
                         }
                         Token::Keyword(KeywordName::Constraints) => {
-                            constraints = Some(self.parse_constraints()?);
+                            constraints
+                                .get_or_insert_with(Vec::new)
+                                .extend(self.parse_constraints()?);
                         }
                         Token::Punctuator(PunctuationType::RParentheses) => {
                             return Ok(HTN {
-- 
2.43.0


From 265c77ada656660cb85df41cdab742d43046ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:15 +0000
Subject: [PATCH 35/36] fix: reject a second goal or initial task network
 instead of dropping the first

---
 src/syntactic_analyzer/problem_parser/router.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index a352dda..4c1647d 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -38,12 +38,12 @@ impl <'a> Parser<'a> {
                             }
                         }
                         // initial task network declaration
-                        Token::Keyword(KeywordName::HTN) => {
+                        Token::Keyword(KeywordName::HTN) if syntax_tree.init_tn.is_none() => {
                             let init_tn = self.parse_initial_tn()?;
                             syntax_tree.add_init_tn(init_tn);
                         }
                         // goal state (optional)
-                        Token::Keyword(KeywordName::Goal) => {
+                        Token::Keyword(KeywordName::Goal) if syntax_tree.goal.is_none() => {
                             let goal = match self.tokenizer.lookahead()? {
                                 // no goal formula
                                 Token::Punctuator(PunctuationType::RParentheses) => Formula::Empty,
@@ -67,6 +67,7 @@ impl <'a> Parser<'a> {
                             let init_state = self.parse_predicates()?;
                             syntax_tree.add_init_state(init_state)
                         }
+                        // anything else, including a second goal or initial task network
                         token => {
                             let error = SyntacticError {
                                 expected: "a keyword for block definition"
-- 
2.43.0


From 30c8f8bf6ad5bddc1184d5725067557936ddd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:38 +0000
Subject: [PATCH 36/36] fix: name the token 'imply' in error messages

---
 src/lexical_analyzer/token_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexical_analyzer/token_types.rs b/src/lexical_analyzer/token_types.rs
index 9088092..96ae118 100644
--- a/src/lexical_analyzer/token_types.rs
+++ b/src/lexical_analyzer/token_types.rs
@@ -74,7 +74,7 @@ impl fmt::Display for OperationType {
             OperationType::Xor => write!(fmt, "oneof"),
             OperationType::ForAll => write!(fmt, "forall"),
             OperationType::Exists => write!(fmt, "exists"),
-            OperationType::Implication => write!(fmt, "when"),
+            OperationType::Implication => write!(fmt, "imply"),
             OperationType::Probabilistic => write!(fmt, "probabilistic"),
             OperationType::Equal => write!(fmt, "="),
             OperationType::LessThan => write!(fmt, "<"),
-- 
2.43.0

