From e7766096f47e90ace099b717c68e952ea6c0fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:19 +0000
Subject: [PATCH 01/37] fix: comment that ends at the end of the file must not
 read past the input

---
 src/lexical_analyzer/tokenizer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 605f494..921d69a 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -121,10 +121,11 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
                 // Comment
                 ';' => {
-                    let mut current = self.program[self.cursor.get()] as char;
-                    while current != '\n' {
+                    while let Some(current) = self.peek_next_char() {
+                        if current == '\n' {
+                            break;
+                        }
                         self.cursor.set(self.cursor.get() + 1);
-                        current = self.program[self.cursor.get()] as char;
                     }
                     return self.parse(peek);
                 }
-- 
2.43.0


From e09c998e0c80ce9cfd751c8268728bc14690ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:19 +0000
Subject: [PATCH 02/37] fix: lexeme at the end of the file is read completely
 and within bounds

---
 src/lexical_analyzer/tokenizer.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 921d69a..3230f0a 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -184,7 +184,6 @@ impl<'a> LexicalAnalyzer<'a> {
     // get next lexeme and new cursor position (to commit peek)
     fn peek_lexeme(&self, init_cur_pos: usize) -> Result<(&str, usize), LexicalError> {
         let mut cursor_pos = init_cur_pos;
-        let mut next_ch = self.program[cursor_pos] as char;
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
@@ -200,13 +199,8 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
             }
         };
-        while is_valid_character(next_ch) {
-            if cursor_pos < self.program.len() - 1 {
-                cursor_pos += 1;
-                next_ch = self.program[cursor_pos] as char;
-            } else {
-                break;
-            }
+        while cursor_pos < self.program.len() && is_valid_character(self.program[cursor_pos] as char) {
+            cursor_pos += 1;
         }
         if is_invalid {
             return Err(LexicalError {
-- 
2.43.0


From 7c23b256cea1cc998e2d8919251ad08425a07e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:19 +0000
Subject: [PATCH 03/37] fix: lexemes that are not valid UTF-8 are lexical
 errors instead of panics

---
 src/lexical_analyzer/tokenizer.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 3230f0a..ebd267b 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -202,19 +202,16 @@ impl<'a> LexicalAnalyzer<'a> {
         while cursor_pos < self.program.len() && is_valid_character(self.program[cursor_pos] as char) {
             cursor_pos += 1;
         }
-        if is_invalid {
-            return Err(LexicalError {
-                error_type: LexicalErrorType::InvalidIdentifier,
-                lexeme: from_utf8(&self.program[init_cur_pos..cursor_pos])
-                    .unwrap()
-                    .to_string(),
-                position: self.last_token_pos.get(),
-            });
-        } else {
-            return Ok((
-                from_utf8(&self.program[init_cur_pos..cursor_pos]).unwrap(),
-                cursor_pos,
-            ));
+        match from_utf8(&self.program[init_cur_pos..cursor_pos]) {
+            Ok(lexeme) if !is_invalid => return Ok((lexeme, cursor_pos)),
+            _ => {
+                return Err(LexicalError {
+                    error_type: LexicalErrorType::InvalidIdentifier,
+                    lexeme: String::from_utf8_lossy(&self.program[init_cur_pos..cursor_pos])
+                        .to_string(),
+                    position: self.last_token_pos.get(),
+                });
+            }
         }
     }
 
-- 
2.43.0


From 53ef194cc49ce277a6d94f7b85e9a48314e67129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:44 +0000
Subject: [PATCH 04/37] fix: a comment directly after a name ends the name

---
 src/lexical_analyzer/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index ebd267b..727f8fa 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -187,7 +187,7 @@ impl<'a> LexicalAnalyzer<'a> {
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
-            ')' | '(' => false,
+            ')' | '(' | ';' => false,
             _ => {
                 if LexicalAnalyzer::is_whitespace(&c) {
                     false
-- 
2.43.0


From 38d70b72376b3ef6a4e9972a9c03d403dab57a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:44 +0000
Subject: [PATCH 05/37] fix: unexpected token between problem blocks is a
 syntactic error instead of a panic

---
 src/syntactic_analyzer/problem_parser/router.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index 9e941c9..43e6647 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -66,8 +66,13 @@ impl <'a> Parser<'a> {
                 Token::EOF | Token::Punctuator(PunctuationType::RParentheses) => {
                     return Ok(syntax_tree);
                 }
-                err => {
-                    panic!("unexpected token {:?}", err)
+                token => {
+                    let error = SyntacticError {
+                        expected: "either ')' to close the definition of the problem, or '(' to start defining new components".to_string(),
+                        found: token.to_string(),
+                        position: self.tokenizer.get_last_token_position(),
+                    };
+                    return Err(ParsingError::Syntactic(error));
                 }
             }
         }
-- 
2.43.0


From 684091a64710bfc59cf370a3f2888e6da007eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:44 +0000
Subject: [PATCH 06/37] fix: the goal block consumes its closing parenthesis,
 so later blocks are not dropped

---
 src/syntactic_analyzer/problem_parser/router.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index 43e6647..4e6591f 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -45,6 +45,18 @@ impl <'a> Parser<'a> {
                         // goal state (optional)
                         Token::Keyword(KeywordName::Goal) => {
                             let goal = self.parse_formula()?;
+                            // skip goal block's closing parantheses
+                            match self.tokenizer.get_token()? {
+                                Token::Punctuator(PunctuationType::RParentheses) => {}
+                                token => {
+                                    let error = SyntacticError {
+                                        expected: "')' to close the goal description".to_string(),
+                                        found: token.to_string(),
+                                        position: self.tokenizer.get_last_token_position(),
+                                    };
+                                    return Err(ParsingError::Syntactic(error));
+                                }
+                            }
                             syntax_tree.add_goal(goal)
                         }
                         // initial state
-- 
2.43.0


From e1b6257726d538e31f66dc5c04b1aa8db03aa5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:44 +0000
Subject: [PATCH 07/37] fix: an empty task network consumes its closing
 parenthesis, so later blocks are not dropped

---
 src/syntactic_analyzer/problem_parser/init_tn_parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index 2c0119b..f779a8f 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -32,6 +32,8 @@ impl<'a> Parser<'a> {
                 }
                 // empty init tn
                 Token::Punctuator(PunctuationType::RParentheses) => {
+                    // consume ')'
+                    let _ = self.tokenizer.get_token()?;
                     return Ok(InitialTaskNetwork {
                         parameters: None,
                         tn: HTN {
@@ -61,6 +63,8 @@ impl<'a> Parser<'a> {
         // check if it is an empty task network
         match self.tokenizer.lookahead()? {
             Token::Punctuator(PunctuationType::RParentheses) => {
+                // consume ')'
+                let _ = self.tokenizer.get_token()?;
                 return Ok(HTN {
                     subtasks,
                     ordering_pos,
-- 
2.43.0


From 9d459d4416028936f77516d2dc92f701c624ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:44 +0000
Subject: [PATCH 08/37] fix: constraints of an ordered task network are
 followed by the closing parenthesis of the block

---
 .../problem_parser/init_tn_parser.rs          | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index f779a8f..e9d79d5 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -201,12 +201,24 @@ impl<'a> Parser<'a> {
                 match self.tokenizer.get_token()? {
                     Token::Keyword(KeywordName::Constraints) => {
                         constraints = Some(self.parse_constraints()?);
-                        return Ok(HTN {
-                            subtasks,
-                            ordering_pos,
-                            orderings: TaskOrdering::Total,
-                            constraints,
-                        });
+                        match self.tokenizer.get_token()? {
+                            Token::Punctuator(PunctuationType::RParentheses) => {
+                                return Ok(HTN {
+                                    subtasks,
+                                    ordering_pos,
+                                    orderings: TaskOrdering::Total,
+                                    constraints,
+                                });
+                            }
+                            token => {
+                                let error = SyntacticError {
+                                    expected: "closing ')' after task network definition".to_string(),
+                                    found: token.to_string(),
+                                    position: self.tokenizer.get_last_token_position(),
+                                };
+                                return Err(ParsingError::Syntactic(error));
+                            }
+                        }
                     }
                     Token::Punctuator(PunctuationType::RParentheses) => {
                         return Ok(HTN {
-- 
2.43.0


From 6d6a33b192b9c45628a4e9144cab6534c6308842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:19 +0000
Subject: [PATCH 09/37] fix: an empty formula inside a connective no longer
 ends the connective, and ')' is not a formula

---
 .../domain_parser/formula_parser.rs           | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/syntactic_analyzer/domain_parser/formula_parser.rs b/src/syntactic_analyzer/domain_parser/formula_parser.rs
index 64788d3..e1e8a49 100644
--- a/src/syntactic_analyzer/domain_parser/formula_parser.rs
+++ b/src/syntactic_analyzer/domain_parser/formula_parser.rs
@@ -3,9 +3,6 @@ use super::*;
 impl<'a> Parser<'a> {
     pub fn parse_formula(&'a self) -> Result<Formula, ParsingError> {
         match self.tokenizer.get_token()? {
-            Token::Punctuator(PunctuationType::RParentheses) => {
-                return Ok(Formula::Empty);
-            }
             Token::Punctuator(PunctuationType::LParentheses) => {
                 match self.tokenizer.get_token()? {
                     // Not Operation
@@ -29,36 +26,36 @@ impl<'a> Parser<'a> {
                     Token::Operator(OperationType::And) => {
                         let mut expressions = vec![];
                         loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
+                            if let Token::Punctuator(PunctuationType::RParentheses) = self.tokenizer.lookahead()? {
+                                // consume ')'
+                                let _ = self.tokenizer.get_token()?;
                                 return Ok(Formula::And(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
                             }
+                            expressions.push(Box::new(self.parse_formula()?));
                         }
                     }
                     // Xor Connector
                     Token::Operator(OperationType::Xor) => {
                         let mut expressions = vec![];
                         loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
+                            if let Token::Punctuator(PunctuationType::RParentheses) = self.tokenizer.lookahead()? {
+                                // consume ')'
+                                let _ = self.tokenizer.get_token()?;
                                 return Ok(Formula::Xor(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
                             }
+                            expressions.push(Box::new(self.parse_formula()?));
                         }
                     }
                     // Or Connector
                     Token::Operator(OperationType::Or) => {
                         let mut expressions = vec![];
                         loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
+                            if let Token::Punctuator(PunctuationType::RParentheses) = self.tokenizer.lookahead()? {
+                                // consume ')'
+                                let _ = self.tokenizer.get_token()?;
                                 return Ok(Formula::Or(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
                             }
+                            expressions.push(Box::new(self.parse_formula()?));
                         }
                     }
                     // Equality
-- 
2.43.0


From af30578486d398460be97688072941d8c9531262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:40 +0000
Subject: [PATCH 10/37] fix: a problem given as the domain (or vice versa) is a
 syntactic error instead of a panic

---
 src/lib.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3a996c3..2d10fc2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -42,14 +42,14 @@ impl HDDLAnalyzer {
                             Ok(warnings)
                         }
                         _ => {
-                            panic!("expected problem, found domain")
+                            Err(wrong_file_type("problem", "domain"))
                         }
                     }
                 }
                 None => Ok(symbol_table.warnings),
             }
         } else {
-            panic!("expected domain, found problem")
+            Err(wrong_file_type("domain", "problem"))
         }
     }
 
@@ -74,7 +74,7 @@ impl HDDLAnalyzer {
                     n_methods: d.methods.len() as u32,
                 })
             }
-            _ => panic!("expected domain, found problem"),
+            _ => Err(wrong_file_type("domain", "problem")),
         }
     }
 
@@ -100,7 +100,7 @@ impl HDDLAnalyzer {
 
                         }
                         _ => {
-                            panic!("expected problem, found domain")
+                            Err(wrong_file_type("problem", "domain"))
                         }
                     }
                 }
@@ -113,7 +113,16 @@ impl HDDLAnalyzer {
                     return Ok(serde_json::to_string_pretty(&root).unwrap());
                 }
             },
-            _ => panic!("expected domain, found problem"),
+            _ => Err(wrong_file_type("domain", "problem")),
         }
     }
 }
+
+// a domain was given where a problem is needed, or vice versa
+fn wrong_file_type(expected: &str, found: &str) -> ParsingError {
+    ParsingError::Syntactic(SyntacticError {
+        expected: format!("a {} definition", expected),
+        found: format!("a {} definition", found),
+        position: TokenPosition { line: 1 },
+    })
+}
-- 
2.43.0


From 32ab33cc71124c33c755c8c021956eae6a4c3c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:40 +0000
Subject: [PATCH 11/37] fix: existentially quantified formulas are checked for
 undefined predicates instead of panicking

---
 src/semantic_analyzer/undefined_elements.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/semantic_analyzer/undefined_elements.rs b/src/semantic_analyzer/undefined_elements.rs
index c84c907..fc62ce5 100644
--- a/src/semantic_analyzer/undefined_elements.rs
+++ b/src/semantic_analyzer/undefined_elements.rs
@@ -38,16 +38,17 @@ pub fn check_predicate_declarations<'a>(
                 check_predicate_declarations(&*f, declared_predicates)?;
             }
         }
-        Formula::ForAll(_, new_formula) => {
+        Formula::ForAll(_, new_formula) | Formula::Exists(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
         Formula::Equals(_, _) => {}
         Formula::Weighted(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
-        // TODO: add support for imply, and exists
-        _ => {
-            panic!()
+        Formula::Imply(premises, conclusions) => {
+            for f in premises.iter().chain(conclusions.iter()) {
+                check_predicate_declarations(&*f, declared_predicates)?;
+            }
         }
     }
     return Ok(());
-- 
2.43.0


From 0b4581e482b33eafa6cb7377a364ce5645aad809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:40 +0000
Subject: [PATCH 12/37] fix: expected and found arity of a method's task were
 swapped

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 405fdef..bdb2929 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -158,8 +158,8 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                         if method.task_terms.len() != declared_compound_task.parameters.len() {
                             return Err(SemanticErrorType::InconsistentTaskArity(ArityError {
                                 symbol: method.task.name.to_string(),
-                                expected_arity: method.task_terms.len() as u32,
-                                found_arity: declared_compound_task.parameters.len() as u32,
+                                expected_arity: declared_compound_task.parameters.len() as u32,
+                                found_arity: method.task_terms.len() as u32,
                                 position: method.task.name_pos,
                             }));
                         } else {
-- 
2.43.0


From bc3adccf91e286c656aa76a2471af87229099683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:40 +0000
Subject: [PATCH 13/37] fix: type error of a ground predicate reports the type
 of the object, which found.symbol_type never holds

---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index e77d954..284825a 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -58,7 +58,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                 return Err(SemanticErrorType::InconsistentPredicateArgType(
                                     TypeError {
                                         expected: expected.symbol_type.map(String::from),
-                                        found: found.symbol_type.map(String::from),
+                                        found: object_type.map(String::from),
                                         var_name: predicate.name.to_string(),
                                         position: found.name_pos,
                                     },
-- 
2.43.0


From cc13639882a01c6c2e7a59ea0a7a4fd1cd8a9410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:40 +0000
Subject: [PATCH 14/37] fix: a constant of the wrong type in an initial subtask
 is a task (not predicate) type error

---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index 284825a..6e7ecc6 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -177,7 +177,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
@@ -268,7 +268,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
-- 
2.43.0


From 2de90f7f1e7df8ec213603408635fb195896b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:18 +0000
Subject: [PATCH 15/37] fix: duplicate constants are reported

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index bdb2929..b64f966 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -32,8 +32,19 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         let mut declared_constants = HashSet::new();
         match &self.domain.constants {
             Some(constants) => {
+                let mut constant_positions = HashMap::new();
                 for c in constants {
-                    declared_constants.insert(c);
+                    if !declared_constants.insert(c) {
+                        return Err(SemanticErrorType::DuplicateObjectDeclaration(
+                            DuplicateError {
+                                symbol: c.name.to_string(),
+                                first_pos: *constant_positions.get(c.name).unwrap(),
+                                second_pos: c.name_pos,
+                            },
+                        ));
+                    } else {
+                        constant_positions.insert(c.name, c.name_pos);
+                    }
                 }
             }
             None => {}
-- 
2.43.0


From a50403f87bf6962dbf2c5eecaaba8511e1d029c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:18 +0000
Subject: [PATCH 16/37] fix: undefined types of constants, actions, methods and
 the initial task network are reported

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs  | 12 ++++++++++++
 src/semantic_analyzer/analyzers/problem_analyzer.rs |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index b64f966..d6e45b3 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -32,6 +32,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         let mut declared_constants = HashSet::new();
         match &self.domain.constants {
             Some(constants) => {
+                // assert types of constants are declared
+                if let Some(error) = self.type_checker.check_type_declarations(constants) {
+                    return Err(error);
+                }
                 let mut constant_positions = HashMap::new();
                 for c in constants {
                     if !declared_constants.insert(c) {
@@ -81,6 +85,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&action.parameters) {
+                return Err(error);
+            }
             // assert precondition predicates are declared
             match &action.preconditions {
                 Some(precondition) => {
@@ -142,6 +150,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // Assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&method.params) {
+                return Err(error);
+            }
             // Assert preconditions are valid
             match &method.precondition {
                 Some(precondition) => {
diff --git a/src/semantic_analyzer/analyzers/problem_analyzer.rs b/src/semantic_analyzer/analyzers/problem_analyzer.rs
index 6ba5fef..049d268 100644
--- a/src/semantic_analyzer/analyzers/problem_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/problem_analyzer.rs
@@ -58,6 +58,13 @@ impl<'a> ProblemSemanticAnalyzer<'a> {
                 );
             }
 
+            // assert parameter types are declared
+            if let Some(parameters) = &htn.parameters {
+                if let Some(error) = self.type_checker.check_type_declarations(parameters) {
+                    return Err(error);
+                }
+            }
+
             for subtask in htn.tn.subtasks.iter() {
                 let _ = self
                     .type_checker
-- 
2.43.0


From f06753efa59dffe4989220cf07b0a69bff5c2f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:03 +0000
Subject: [PATCH 17/37] fix: a method with two non-nullable subtasks does not
 reduce to one of them

---
 src/semantic_analyzer/tdg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 7117eae..c2956a6 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -479,6 +479,8 @@ impl<'a> TDG<'a> {
                                 if not_nullable.is_none() {
                                     not_nullable = Some(*task)
                                 } else {
+                                    // more than one subtask remains
+                                    not_nullable = None;
                                     break;
                                 }
                             }
-- 
2.43.0


From f08e07fba259062aa6492a55b7952e671b592dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:03 +0000
Subject: [PATCH 18/37] fix: computing the nullable tasks of a domain without
 compound tasks terminates

---
 src/semantic_analyzer/tdg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index c2956a6..0c7c3da 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -461,6 +461,7 @@ impl<'a> TDG<'a> {
             }
 
             // unit reachability induction step
+            changed_unit_reachability = false;
             for (c, previous_reachables) in unit_reachability.iter() {
                 let mut change = previous_reachables.clone();
                 for previous_reachable in previous_reachables {
@@ -490,9 +491,8 @@ impl<'a> TDG<'a> {
                         }
                     }
                 }
-                if change == *previous_reachables {
-                    changed_unit_reachability = false;
-                } else {
+                if change != *previous_reachables {
+                    changed_unit_reachability = true;
                     new_unit_reachable.insert(*c, change);
                 }
             }
-- 
2.43.0


From 87ea57ce8c6b6ed9b800c2fc9f1ec99347e449de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:03 +0000
Subject: [PATCH 19/37] fix: prefixes and suffixes of partially ordered methods
 are computed instead of panicking

---
 src/semantic_analyzer/tdg.rs | 139 ++++++++++++-----------------------
 1 file changed, 46 insertions(+), 93 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 0c7c3da..ebcd85d 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -269,57 +269,12 @@ impl<'a> TDG<'a> {
                 panic!("{} does not exist in {:?}", task, method.subtasks)
             }
             TaskOrdering::Partial(orderings) => {
-                // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                // construct the ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
-                for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(&e2);
-                    } else {
-                        adjacency.insert(&e1, HashSet::from([*e2]));
-                    }
-                }
-                // find tasks that are explicitly ordered after "task"
-                let mut prefix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoings) => {
-                            for outgoing in outgoings {
-                                for occurance in task_occurances.iter() {
-                                    if outgoing.contains(occurance) {
-                                        prefix.push(id_to_task_mapping.get(t).unwrap());
-                                        stack.push(&t);
-                                    }
-                                }
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                return prefix
-                    .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
-                    .collect();
+                let (occurance, predecessors) = self.get_predecessors(task, method, orderings);
+                predecessors
+                    .into_iter()
+                    .filter(|x| Some(*x) != occurance)
+                    .map(|x| self.get_task_index(&method.subtasks[x].task.name))
+                    .collect()
             }
         }
     }
@@ -342,53 +297,51 @@ impl<'a> TDG<'a> {
                 panic!("{} does not exist in {:?}", task, method)
             }
             TaskOrdering::Partial(orderings) => {
-                // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                // construct ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
-                for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(e2);
-                    } else {
-                        adjacency.insert(e1, HashSet::from([*e2]));
-                    }
-                }
-                // find tasks that are explicitly ordered after "task"
-                let mut suffix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoing) => {
-                            stack.extend(outgoing.iter());
-                            suffix.extend(outgoing.iter());
+                let (occurance, predecessors) = self.get_predecessors(task, method, orderings);
+                (0..method.subtasks.len())
+                    .filter(|x| Some(*x) != occurance && !predecessors.contains(x))
+                    .map(|x| self.get_task_index(&method.subtasks[x].task.name))
+                    .collect()
+            }
+        }
+    }
+
+    // returns the earliest occurance of the task in a partially ordered method, and the subtasks
+    // that are (transitively) ordered before it
+    fn get_predecessors(
+        &self,
+        task: &str,
+        method: &HTN<'a>,
+        orderings: &Vec<(&'a str, &'a str)>,
+    ) -> (Option<usize>, Vec<usize>) {
+        let has_id = |x: usize, name: &str| match &method.subtasks[x].id {
+            Some(id) => id.name == name,
+            None => false,
+        };
+        let mut earliest: (Option<usize>, Vec<usize>) = (None, vec![]);
+        for (occurance, _) in method
+            .subtasks
+            .iter()
+            .enumerate()
+            .filter(|(_, x)| x.task.name == task)
+        {
+            let mut before = vec![];
+            let mut stack = vec![occurance];
+            while let Some(t) = stack.pop() {
+                for (e1, _) in orderings.iter().filter(|(_, e2)| has_id(t, e2)) {
+                    for x in (0..method.subtasks.len()).filter(|x| has_id(*x, e1)) {
+                        if !before.contains(&x) {
+                            before.push(x);
+                            stack.push(x);
                         }
-                        None => {}
                     }
                 }
-                suffix
-                    .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
-                    .collect()
+            }
+            if earliest.0.is_none() || before.len() < earliest.1.len() {
+                earliest = (Some(occurance), before);
             }
         }
+        earliest
     }
 
     fn get_task_index(&self, task_name: &str) -> usize {
-- 
2.43.0


From 6643cc9c979b8b689f4cd026d8f8c016c27da947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:18 +0000
Subject: [PATCH 20/37] fix: a non-nullable prefix is not empty even if it
 starts with the recursive task

---
 src/semantic_analyzer/tdg.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index ebcd85d..1e2df19 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -173,14 +173,10 @@ impl<'a> TDG<'a> {
                             let (_, m_id) = cyclic_path[index];
                             let prefix = self.get_prefix(*t_id, m_id);
                             // check epsilon prefix
-                            if prefix.len() > 0 {
-                                if prefix[0] != *new_task {
-                                    for x in prefix.iter() {
-                                        if !nullables.contains(x) {
-                                            is_epsilon_prefix = false;
-                                            break;
-                                        }
-                                    }
+                            for x in prefix.iter() {
+                                if !nullables.contains(x) {
+                                    is_epsilon_prefix = false;
+                                    break;
                                 }
                             }
                             suffix.extend(self.get_suffix(*t_id, m_id));
-- 
2.43.0


From 693285fbb8995f6dc557e531585d5cb4aa4e0bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:18 +0000
Subject: [PATCH 21/37] fix: the reported decomposition cycle does not depend
 on hash order

---
 src/semantic_analyzer/tdg.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 1e2df19..4ad5663 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -1,12 +1,12 @@
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
 
 use super::*;
 
 pub struct TDG<'a> {
     tasks: Vec<(&'a str, TaskType)>,
     methods: Vec<(&'a Symbol<'a>, HTN<'a>)>,
-    edges_from_tasks: HashMap<usize, HashSet<usize>>,
-    edges_to_tasks: HashMap<usize, HashSet<usize>>,
+    edges_from_tasks: BTreeMap<usize, BTreeSet<usize>>,
+    edges_to_tasks: BTreeMap<usize, BTreeSet<usize>>,
 }
 
 impl<'a> TDG<'a> {
@@ -22,14 +22,14 @@ impl<'a> TDG<'a> {
         tasks.extend(domain.actions.iter().map(|x| (x.name, TaskType::Primitive)));
 
         // edges
-        let mut to_methods = HashMap::new();
-        let mut to_tasks = HashMap::new();
+        let mut to_methods = BTreeMap::new();
+        let mut to_tasks = BTreeMap::new();
 
         // compute index of tasks and methods for efficiency
         let mut task_indices = HashMap::new();
         for (index, (task, _)) in tasks.iter().enumerate() {
             task_indices.insert(*task, index);
-            to_methods.insert(index, HashSet::new());
+            to_methods.insert(index, BTreeSet::new());
         }
 
         let mut methods = vec![];
@@ -49,7 +49,7 @@ impl<'a> TDG<'a> {
 
         // collect "method to task" edges
         for (method_index, method) in methods.iter().enumerate() {
-            let tasks: HashSet<usize> = method
+            let tasks: BTreeSet<usize> = method
                 .1
                 .subtasks
                 .iter()
-- 
2.43.0


From 77213c5c3be2794d69b2c8a1db00385b4506160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:18 +0000
Subject: [PATCH 22/37] fix: nullable tasks are listed in declaration order
 instead of hash order

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2d10fc2..51d9f1e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -65,9 +65,14 @@ impl HDDLAnalyzer {
                 let tdg = TDG::new(&d);
                 let nullables = tdg.compute_nullables();
                 let recursion_type = tdg.get_recursion_type(&nullables);
+                // list nullables in the order of their declaration
+                let nullables = d
+                    .compound_tasks
+                    .iter()
+                    .filter(|x| nullables.contains(x.name));
                 Ok(MetaData {
                     recursion: recursion_type,
-                    nullables: nullables.iter().map(|x| x.to_string()).collect(),
+                    nullables: nullables.map(|x| x.name.to_string()).collect(),
                     domain_name: String::new(),
                     n_actions: d.actions.len() as u32,
                     n_tasks: d.compound_tasks.len() as u32,
-- 
2.43.0


From feb3177b636449fe56359f23173a4295e0813a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:18 +0000
Subject: [PATCH 23/37] fix: the keys of the JSON output are not in hash order

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 51d9f1e..a91b59a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,7 +6,7 @@ mod syntactic_analyzer;
 mod language_server;
 pub use language_server::RequestHandler;
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use crate::lexical_analyzer::TokenPosition;
 use lexical_analyzer::LexicalAnalyzer;
@@ -95,7 +95,7 @@ impl HDDLAnalyzer {
                     let problem_ast = problem_parser.parse()?;
                     match problem_ast {
                         AbstractSyntaxTree::Problem(p) => {
-                            let root = HashMap::from(
+                            let root = BTreeMap::from(
                                 [
                                     ("domain", AbstractSyntaxTree::Domain(d)),
                                     ("problem", AbstractSyntaxTree::Problem(p))
@@ -110,7 +110,7 @@ impl HDDLAnalyzer {
                     }
                 }
                 None => {
-                    let root = HashMap::from(
+                    let root = BTreeMap::from(
                         [
                             ("domain", AbstractSyntaxTree::Domain(d)),
                         ]
-- 
2.43.0


From 66d6518ca13a1a825510223e7ce9dcd3676b9ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:18 +0000
Subject: [PATCH 24/37] fix: warnings are listed in declaration order instead
 of hash order

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index d6e45b3..c7b82dd 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -222,7 +222,7 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         }
         // Check whether all compound tasks can be refined to primitive ones
         let tdg = TDG::new(self.domain);
-        for task in declared_tasks.iter() {
+        for task in self.domain.compound_tasks.iter() {
             let reachables = tdg.reachable(&task.name);
             if (reachables.primitives.len() == 0) && (reachables.nullable == false) {
                 warnings.push(WarningType::NoPrimitiveRefinement(WarningInfo {
-- 
2.43.0


From ed7c394533f36b9d471f6afd7fbe4c3bf7832104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:18 +0000
Subject: [PATCH 25/37] fix: metadata carries the name of the domain

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a91b59a..3392cd9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -73,7 +73,7 @@ impl HDDLAnalyzer {
                 Ok(MetaData {
                     recursion: recursion_type,
                     nullables: nullables.map(|x| x.name.to_string()).collect(),
-                    domain_name: String::new(),
+                    domain_name: d.name.clone(),
                     n_actions: d.actions.len() as u32,
                     n_tasks: d.compound_tasks.len() as u32,
                     n_methods: d.methods.len() as u32,
-- 
2.43.0


From 58b0b2a7595558f83ef3d6d845b54d00509c8047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:18 +0000
Subject: [PATCH 26/37] fix: a second :init block extends the initial state
 instead of hiding the first from all checks

---
 src/syntactic_analyzer/syntax_tree/problem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/syntactic_analyzer/syntax_tree/problem.rs b/src/syntactic_analyzer/syntax_tree/problem.rs
index 3959789..597f13b 100644
--- a/src/syntactic_analyzer/syntax_tree/problem.rs
+++ b/src/syntactic_analyzer/syntax_tree/problem.rs
@@ -32,7 +32,7 @@ impl <'a> ProblemAST<'a> {
         self.init_tn = Some(tn);
     }
     pub fn add_init_state(&mut self, state: Vec<Predicate<'a>>) {
-        self.init_state = state;
+        self.init_state.extend(state);
     }
     pub fn add_goal(&mut self, goal: Formula<'a>) {
         self.goal = Some(goal);
-- 
2.43.0


From c09993df2ae809ef703b4ac1b6d7b476259c7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:13 +0000
Subject: [PATCH 27/37] fix: a task is refinable only if some method leads to a
 finite network of actions

---
 .../analyzers/domain_analyzer.rs              |  4 ++--
 src/semantic_analyzer/tdg.rs                  | 21 +++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index c7b82dd..1130fe5 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -222,9 +222,9 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         }
         // Check whether all compound tasks can be refined to primitive ones
         let tdg = TDG::new(self.domain);
+        let refinables = tdg.compute_refinables();
         for task in self.domain.compound_tasks.iter() {
-            let reachables = tdg.reachable(&task.name);
-            if (reachables.primitives.len() == 0) && (reachables.nullable == false) {
+            if !refinables.contains(task.name) {
                 warnings.push(WarningType::NoPrimitiveRefinement(WarningInfo {
                     symbol: task.name.to_string(),
                     position: task.name_pos,
diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 4ad5663..5cd3214 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -349,6 +349,27 @@ impl<'a> TDG<'a> {
             .0
     }
 
+    // returns the tasks that can be decomposed into a (potentially empty) network of actions
+    pub fn compute_refinables(&self) -> HashSet<&'a str> {
+        let mut refinables: HashSet<usize> = (0..self.tasks.len())
+            .filter(|index| self.tasks[*index].1 == TaskType::Primitive)
+            .collect();
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for (task, methods) in self.edges_from_tasks.iter() {
+                let is_refinable = methods.iter().any(|method| {
+                    let subtasks = self.edges_to_tasks.get(method).unwrap();
+                    subtasks.iter().all(|x| refinables.contains(x))
+                });
+                if is_refinable && refinables.insert(*task) {
+                    changed = true;
+                }
+            }
+        }
+        refinables.iter().map(|x| self.tasks[*x].0).collect()
+    }
+
     pub fn compute_nullables(&self) -> HashSet<&'a str> {
         // nullable base case
         let mut nullables: HashSet<usize> = self
-- 
2.43.0


From dc394aaee3b12683a1ad69cf730a127ef9eea5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:33 +0000
Subject: [PATCH 28/37] fix: metadata of a domain with undefined tasks is an
 error instead of a panic

---
 src/lib.rs                                  |  1 +
 src/semantic_analyzer/mod.rs                |  3 ++-
 src/semantic_analyzer/undefined_elements.rs | 23 +++++++++++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3392cd9..7326c09 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -62,6 +62,7 @@ impl HDDLAnalyzer {
         let domain_ast = domain_parser.parse()?;
         match domain_ast {
             AbstractSyntaxTree::Domain(d) => {
+                check_task_declarations(&d)?;
                 let tdg = TDG::new(&d);
                 let nullables = tdg.compute_nullables();
                 let recursion_type = tdg.get_recursion_type(&nullables);
diff --git a/src/semantic_analyzer/mod.rs b/src/semantic_analyzer/mod.rs
index 6bcde83..535d178 100644
--- a/src/semantic_analyzer/mod.rs
+++ b/src/semantic_analyzer/mod.rs
@@ -12,4 +12,5 @@ use type_checker::*;
 extern crate petgraph;
 
 pub use analyzers::*;
-pub use tdg::TDG;
\ No newline at end of file
+pub use tdg::TDG;
+pub use undefined_elements::check_task_declarations;
\ No newline at end of file
diff --git a/src/semantic_analyzer/undefined_elements.rs b/src/semantic_analyzer/undefined_elements.rs
index fc62ce5..08ace73 100644
--- a/src/semantic_analyzer/undefined_elements.rs
+++ b/src/semantic_analyzer/undefined_elements.rs
@@ -53,3 +53,26 @@ pub fn check_predicate_declarations<'a>(
     }
     return Ok(());
 }
+
+// Assert that the tasks of all methods and their subtasks are declared
+pub fn check_task_declarations<'a>(domain: &DomainAST<'a>) -> Result<(), SemanticErrorType> {
+    for method in domain.methods.iter() {
+        if !domain.compound_tasks.iter().any(|x| x.name == method.task.name) {
+            return Err(SemanticErrorType::UndefinedTask(UndefinedSymbolError {
+                symbol: method.task.name.to_string(),
+                position: method.task.name_pos,
+            }));
+        }
+        for subtask in method.tn.subtasks.iter() {
+            if !domain.compound_tasks.iter().any(|x| x.name == subtask.task.name)
+                && !domain.actions.iter().any(|x| x.name == subtask.task.name)
+            {
+                return Err(SemanticErrorType::UndefinedSubtask(UndefinedSymbolError {
+                    symbol: subtask.task.name.to_string(),
+                    position: subtask.task.name_pos,
+                }));
+            }
+        }
+    }
+    Ok(())
+}
-- 
2.43.0


From 368b6329f70dbc9d12cf3db957f9283762c16e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:33 +0000
Subject: [PATCH 29/37] fix: diagnostics of duplicate declarations no longer
 panic on an unparsable dummy URI

---
 src/language_server/diagnostic_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language_server/diagnostic_utils.rs b/src/language_server/diagnostic_utils.rs
index 5102f09..223d9cd 100644
--- a/src/language_server/diagnostic_utils.rs
+++ b/src/language_server/diagnostic_utils.rs
@@ -200,7 +200,7 @@ impl From<ParsingError> for Diagnostic {
                                 DiagnosticRelatedInformation {
                                     location: Location {
                                         // TODO: fix the dummy URI
-                                        uri: Url::parse("//").unwrap(),
+                                        uri: Url::parse("file:///").unwrap(),
                                         range: Range {
                                             start: Position { line: duplicate.first_pos.line - 1, character: 0 },
                                             end: Position { line: duplicate.first_pos.line, character: 0 }
-- 
2.43.0


From 844fdd2c38d7561f6e37bbdb88ed5c6ecf300929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:33 +0000
Subject: [PATCH 30/37] fix: the last of several full-text changes is the
 current content

---
 src/language_server/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 37371c6..e3e3698 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -84,7 +84,7 @@ impl LanguageServer for RequestHandler {
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let uri = params.text_document.uri;
         // TODO: add support for incremental change
-        if let Some(new_text) = params.content_changes.into_iter().next() {
+        if let Some(new_text) = params.content_changes.into_iter().last() {
             self.sync(uri, new_text.text.into_bytes()).await
         }
     }
-- 
2.43.0


From 750cab2e6c8f2573b5978228d7f9501066a33524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:56 +0000
Subject: [PATCH 31/37] fix: language server requests survive documents whose
 path cannot be read

---
 src/language_server/request_handler.rs | 35 +++++++++++++++++++-------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index e3e3698..23eaefc 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -73,9 +73,17 @@ impl LanguageServer for RequestHandler {
         // get the saved file content
         let text = match params.text {
             Some(content) => content.into_bytes(),
-            None => tokio::fs::read(params.text_document.uri.path())
-                .await
-                .unwrap(),
+            None => {
+                let content = match params.text_document.uri.to_file_path() {
+                    Ok(path) => tokio::fs::read(path).await.ok(),
+                    Err(_) => None,
+                };
+                match content {
+                    Some(content) => content,
+                    // the file cannot be read, keep the synced content
+                    None => return,
+                }
+            }
         };
         // sync the file
         self.sync(params.text_document.uri, text).await;
@@ -98,7 +106,6 @@ impl LanguageServer for RequestHandler {
                 self.client
                     .log_message(MessageType::LOG, "Diagnostic Request Recieved.")
                     .await;
-                let file_path = params.text_document.uri.to_file_path().unwrap();
                 match classify_file(document) {
                     FileVariant::Domain => {
                         self.client
@@ -114,12 +121,22 @@ impl LanguageServer for RequestHandler {
                         return Ok(diagnosis);
                     }
                     FileVariant::Problem => {
-                        let root_folder = file_path.parent().unwrap();
-                        let mut files = tokio::fs::read_dir(root_folder).await.unwrap();
+                        let file_path = params.text_document.uri.to_file_path().unwrap_or_default();
+                        let root_folder = match file_path.parent() {
+                            Some(folder) => folder,
+                            None => return Ok(diagnose_problem(None, document)),
+                        };
+                        let mut files = match tokio::fs::read_dir(root_folder).await {
+                            Ok(files) => files,
+                            Err(_) => return Ok(diagnose_problem(None, document)),
+                        };
                         while let Ok(Some(entry)) = files.next_entry().await {
                             match entry.path().extension() {
                                 Some(extension) if (extension == "hddl" || extension == "pddl") => {
-                                    let content = tokio::fs::read(entry.path()).await.unwrap();
+                                    let content = match tokio::fs::read(entry.path()).await {
+                                        Ok(content) => content,
+                                        Err(_) => continue,
+                                    };
                                     match classify_file(&content) {
                                         FileVariant::Domain => {
                                             self.client
@@ -127,7 +144,7 @@ impl LanguageServer for RequestHandler {
                                                     MessageType::LOG,
                                                     format!(
                                                         "{} is the domain for {}. Attempting to diagnose.",
-                                                        root_folder.to_str().unwrap(),
+                                                        root_folder.display(),
                                                         params.text_document.uri.to_string()
                                                     ),
                                                 ).await;
@@ -147,7 +164,7 @@ impl LanguageServer for RequestHandler {
                                 MessageType::LOG,
                                 format!(
                                     "Could not find the domain in {}",
-                                    root_folder.to_str().unwrap()
+                                    root_folder.display()
                                 ),
                             )
                             .await;
-- 
2.43.0


From 6b3e81376024edc92535978654055dd2c19782b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:07 +0000
Subject: [PATCH 32/37] hook: expose the language server's diagnosis under
 cfg(hddl_verif)

---
 src/language_server/mod.rs | 25 ++++++++++++++++++++++++-
 src/lib.rs                 |  2 ++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/language_server/mod.rs b/src/language_server/mod.rs
index 9ca855e..44b882a 100644
--- a/src/language_server/mod.rs
+++ b/src/language_server/mod.rs
@@ -5,4 +5,27 @@ pub use request_handler::RequestHandler;
 
 use super::*;
 
-use crate::language_server::diagnostic_utils::*;
\ No newline at end of file
+use crate::language_server::diagnostic_utils::*;
+
+// Diagnosis entry points for verification harnesses (RUSTFLAGS="--cfg hddl_verif")
+#[cfg(hddl_verif)]
+pub mod verif {
+    use tower_lsp::lsp_types::DocumentDiagnosticReportResult;
+
+    pub fn diagnose_domain(domain: &Vec<u8>) -> DocumentDiagnosticReportResult {
+        super::diagnose_domain(domain)
+    }
+
+    pub fn diagnose_problem(domain: Option<&Vec<u8>>, problem: &Vec<u8>) -> DocumentDiagnosticReportResult {
+        super::diagnose_problem(domain, problem)
+    }
+
+    // 0: domain, 1: problem, 2: neither
+    pub fn classify(content: &Vec<u8>) -> u8 {
+        match super::classify_file(content) {
+            super::FileVariant::Domain => 0,
+            super::FileVariant::Problem => 1,
+            super::FileVariant::MaybeNotHDDL => 2,
+        }
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 7326c09..506b535 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,6 +5,8 @@ mod syntactic_analyzer;
 
 mod language_server;
 pub use language_server::RequestHandler;
+#[cfg(hddl_verif)]
+pub use language_server::verif;
 
 use std::collections::{BTreeMap, HashMap};
 
-- 
2.43.0


From 4c7a77f4f7a2aeed2b49578b5b08f79d174720b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:51 +0000
Subject: [PATCH 33/37] fix: the message of a task arity error states its line

---
 src/output/errors/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/errors/semantic.rs b/src/output/errors/semantic.rs
index 348ee90..fcec700 100644
--- a/src/output/errors/semantic.rs
+++ b/src/output/errors/semantic.rs
@@ -87,8 +87,8 @@ impl fmt::Display for SemanticErrorType {
             SemanticErrorType::InconsistentTaskArity(ar_error) => {
                 write!(
                     f,
-                    "Task {} takes {} parameters, but {} are given.",
-                    ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
+                    "line {}: Task {} takes {} parameters, but {} are given.",
+                    ar_error.position.line, ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
                 )
             }
             SemanticErrorType::InconsistentPredicateArgType(type_error) => {
-- 
2.43.0


From ea7a56a98ca816dda42faef18ec49db21184a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:42 +0000
Subject: [PATCH 34/37] fix: a real number needs digits after its '.'

---
 src/lexical_analyzer/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 727f8fa..9936af8 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -254,8 +254,8 @@ impl<'a> LexicalAnalyzer<'a> {
         let lexeme = from_utf8(&self.program[init_cur_pos..cursor_pos]).unwrap();
         if seen_dot {
             match lexeme.parse::<f64>() {
-                Ok(value) => Ok((NumberType::Real(value), cursor_pos)),
-                Err(_) => Err(LexicalError {
+                Ok(value) if !lexeme.ends_with('.') => Ok((NumberType::Real(value), cursor_pos)),
+                _ => Err(LexicalError {
                     error_type: LexicalErrorType::InvalidRealNumber,
                     lexeme: lexeme.to_string(),
                     position: self.last_token_pos.get(),
-- 
2.43.0


From 5dd4c04c6bb310cbe9cb033a1d261ef500e2466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:42 +0000
Subject: [PATCH 35/37] fix: a '?' without a name is not a variable

---
 src/lexical_analyzer/tokenizer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 9936af8..18ec125 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -58,6 +58,14 @@ impl<'a> LexicalAnalyzer<'a> {
                         init_cur_pos += 1;
                     }
                     let (var_name, new_cur_pos) = self.peek_lexeme(init_cur_pos)?;
+                    // '?' must be followed by a name
+                    if var_name.is_empty() {
+                        return Err(LexicalError {
+                            error_type: LexicalErrorType::InvalidIdentifier,
+                            lexeme: "?".to_string(),
+                            position: self.last_token_pos.get(),
+                        });
+                    }
                     if !peek {
                         self.cursor.set(new_cur_pos);
                     }
-- 
2.43.0


From e949d05de6c554c56544f4c9893b0a3576c48002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:16 +0000
Subject: [PATCH 36/37] fix: any number of consecutive comment lines is skipped
 without recursion

---
 src/lexical_analyzer/tokenizer.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 18ec125..11b5226 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -37,6 +37,16 @@ impl<'a> LexicalAnalyzer<'a> {
 
     fn parse(&self, peek: bool) -> Result<Token, LexicalError> {
         self.skip_whitespaces();
+        // Comments extend to the end of the line
+        while self.peek_next_char() == Some(';') {
+            while let Some(current) = self.peek_next_char() {
+                if current == '\n' {
+                    break;
+                }
+                self.cursor.set(self.cursor.get() + 1);
+            }
+            self.skip_whitespaces();
+        }
         if self.cursor.get() == self.program.len() {
             return Ok(Token::EOF);
         }
@@ -127,16 +137,6 @@ impl<'a> LexicalAnalyzer<'a> {
                         }),
                     }
                 }
-                // Comment
-                ';' => {
-                    while let Some(current) = self.peek_next_char() {
-                        if current == '\n' {
-                            break;
-                        }
-                        self.cursor.set(self.cursor.get() + 1);
-                    }
-                    return self.parse(peek);
-                }
                 // Other
                 _ => {
                     let mut init_cur_pos = self.cursor.get() - 1;
-- 
2.43.0


From 16a8ee6bc7b93efb86005ac98daa8aa96092e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:05 +0000
Subject: [PATCH 37/37] fix: syntax errors quote the operator 'imply' as it is
 written

---
 src/lexical_analyzer/token_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexical_analyzer/token_types.rs b/src/lexical_analyzer/token_types.rs
index 9088092..96ae118 100644
--- a/src/lexical_analyzer/token_types.rs
+++ b/src/lexical_analyzer/token_types.rs
@@ -74,7 +74,7 @@ impl fmt::Display for OperationType {
             OperationType::Xor => write!(fmt, "oneof"),
             OperationType::ForAll => write!(fmt, "forall"),
             OperationType::Exists => write!(fmt, "exists"),
-            OperationType::Implication => write!(fmt, "when"),
+            OperationType::Implication => write!(fmt, "imply"),
             OperationType::Probabilistic => write!(fmt, "probabilistic"),
             OperationType::Equal => write!(fmt, "="),
             OperationType::LessThan => write!(fmt, "<"),
-- 
2.43.0

