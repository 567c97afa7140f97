From 04272391d34bd0214c7c01224b13d144ed99fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 1/6] fix: fail instead of panicking when the input ends before
 a non terminal symbol

---
 src/parser/recursive_descent_parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 91c49f5..4a1877f 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -440,10 +440,12 @@ impl<
         token_position: usize,
         is_single_path: bool,
     ) -> ParseSymbolResult<TLex, TSyntax> {
-        let current_token_symbol = tokens.get(token_position).unwrap();
-
-        let token_productions =
-            self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type);
+        let token_productions = match tokens.get(token_position) {
+            Some(current_token_symbol) => {
+                self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type)
+            }
+            None => vec![],
+        };
 
         let token_productions_iter = token_productions.into_iter();
 
-- 
2.43.0


From 1fa3d318b6adf686eea4ad02bbf6f58f88a7570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 2/6] fix: add FIRST of a repeated adjacent non terminal to its
 FOLLOW set

---
 src/grammar/first_follow_symbols.rs | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/grammar/first_follow_symbols.rs b/src/grammar/first_follow_symbols.rs
index f744611..a4dff6c 100644
--- a/src/grammar/first_follow_symbols.rs
+++ b/src/grammar/first_follow_symbols.rs
@@ -395,26 +395,24 @@ impl<T: Clone + Eq + Hash> FirstFollowSymbols<T> {
         let next_symbol_index: usize = production_output_index + 1;
         let next_symbol = production.output.get(next_symbol_index).unwrap();
 
-        if current_symbol.ne(next_symbol) {
-            let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
+        let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
 
-            if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-                first_indexes.clear();
-            }
+        if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+            first_indexes.clear();
+        }
 
-            first_indexes.push(next_symbol_index);
+        first_indexes.push(next_symbol_index);
 
-            let mut current_symbol_follow_symbols =
-                follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
+        let mut current_symbol_follow_symbols =
+            follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
 
-            follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
-                grammar,
-                first_symbols_map,
-                production,
-                first_indexes,
-                &mut current_symbol_follow_symbols,
-            );
-        }
+        follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
+            grammar,
+            first_symbols_map,
+            production,
+            first_indexes,
+            &mut current_symbol_follow_symbols,
+        );
 
         follow_symbols_updated
     }
-- 
2.43.0


From eb69a6b11ab69947609b12c4fb132105aa94b676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 3/6] fix: keep parsed non terminal symbols in failed
 productions

---
 src/parser/recursive_descent_parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 4a1877f..840a5ba 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -564,7 +564,14 @@ impl<
                                 states.push(State::Parsing(state));
                                 states_pop_success = true;
                             }
-                            _ => {}
+                            _ => {
+                                reversed_failed_symbols.push(State::Parsing(ParsingState::new(
+                                    parsing_state.initial_token_position,
+                                    parsing_state.final_token_position,
+                                    None,
+                                    parsing_state.node,
+                                )));
+                            }
                         }
                     } else {
                         reversed_failed_symbols.push(State::Parsing(parsing_state));
-- 
2.43.0


From b5e07629a875b9274470b1f7277b65d3faa0281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 4/6] fix: do not ask the solver for fixes while backtracking

---
 src/parser/recursive_descent_parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 840a5ba..f0337bb 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -343,7 +343,7 @@ impl<
                     states.push(State::Parsing(parsing_state));
                 }
                 ParseSymbolResult::Err(failed_symbol) => {
-                    match self.inner_parse_pop_states(&mut states, tokens, is_single_path) {
+                    match self.inner_parse_pop_states(&mut states, tokens) {
                         Some(production_parsing_states) => {
                             return Self::inner_parse_from_tokens_production_build_failed_symbol(
                                 failed_symbol,
@@ -533,7 +533,6 @@ impl<
         &self,
         states: &mut Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>,
         tokens: &Vec<Token<TLex, TSyntax>>,
-        is_single_path: bool,
     ) -> Option<Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>> {
         let mut reversed_failed_symbols: Vec<
             State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>,
@@ -556,7 +555,7 @@ impl<
                             tokens,
                             parsing_state.initial_token_position,
                             productions_iterator,
-                            is_single_path,
+                            false,
                         );
 
                         match state_option {
-- 
2.43.0


From 10ba07a24b59a841722cf4e3e5d3894dbc5c13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 5/6] fix: parse without fixes before asking the solver for
 them

---
 src/parser/recursive_descent_parser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index f0337bb..6f882a4 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -191,6 +191,21 @@ impl<
         production_outputs: std::vec::IntoIter<&'a Vec<TSyntax>>,
         is_single_path: bool,
     ) -> ParseSymbolResult<'a, TLex, TSyntax> {
+        if self.syntax_error_solver.is_some() && is_single_path {
+            // A fix attempt is the last resource: parse without fixes first.
+            let unfixed_result = self.inner_parse_from_tokens_try_parse_productions(
+                symbol_to_derive,
+                tokens,
+                tokens_position,
+                production_outputs.clone(),
+                false,
+            );
+
+            if let Ok(parse_symbol_result) = unfixed_result {
+                return parse_symbol_result;
+            }
+        }
+
         let child_is_single_path = Self::is_child_single_path(is_single_path, &production_outputs);
         let parse_productions_result = self.inner_parse_from_tokens_try_parse_productions(
             symbol_to_derive,
-- 
2.43.0


From c5e7ee7ef131a6697d777181634a4799cab1a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 6/6] fix: predict productions from FIRST of the whole
 production output

---
 .../recursive_descent_parser_transitions.rs   | 53 +++++++------------
 1 file changed, 18 insertions(+), 35 deletions(-)

diff --git a/src/parser/recursive_descent_parser_transitions.rs b/src/parser/recursive_descent_parser_transitions.rs
index 5da0a98..cb004a3 100644
--- a/src/parser/recursive_descent_parser_transitions.rs
+++ b/src/parser/recursive_descent_parser_transitions.rs
@@ -74,23 +74,8 @@ impl<T: Clone + Eq + Hash> RecursiveDescentParserTransitions<T> {
      *
      * -----------------------------------------------------------------------------
      *
-     * Unfortunately we don't compute FIRST(α). Fortunately, $ is handled as an
-     * additional terminal symbol in the grammar. Keeping this in mind, there's a
-     * way to determine all the terminal symbols a in which M[A; a] = A → α
-     *
-     * -----------------------------------------------------------------------------
-     *
-     * Alternative algorithm:
-     *
-     * INPUT: Grammar G.
-     * OUTPUT: Parsing table M.
-     * METHOD: For each production A → Bα of the grammar, do the following:
-     *
-     *     1. For each terminal a in FIRST(B), add A → α to M[A; a].
-     *     2.1. If B is terminal and B is ε, then for each terminal b in FOLLOW(A),
-     *          add A → α to M[A; b]
-     *     2.2. If B is non terminal and ε is in FIRST(B), then for each terminal b
-     *          in FOLLOW(B), add A → α to M[A; b].
+     * FIRST(α) is computed from the FIRST sets of the symbols of α, $ is handled
+     * as an additional terminal symbol in the grammar.
      */
     fn inner_from_get_production_first_symbols(
         grammar: &ContextFreeGrammar<T>,
@@ -109,8 +94,6 @@ impl<T: Clone + Eq + Hash> RecursiveDescentParserTransitions<T> {
                     grammar,
                     production,
                     first_follow_symbols,
-                    symbol,
-                    symbol_first_symbols,
                 );
         } else {
             production_first_symbols =
@@ -126,29 +109,29 @@ impl<T: Clone + Eq + Hash> RecursiveDescentParserTransitions<T> {
         grammar: &ContextFreeGrammar<T>,
         production: &ContextFreeGrammarProduction<T>,
         first_follow_symbols: &FirstFollowSymbols<T>,
-        symbol: &T,
-        symbol_first_symbols: &HashSet<T>,
     ) -> HashSet<T> {
         let mut production_first_symbols = HashSet::new();
 
-        symbol_first_symbols
-            .iter()
-            .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
-            .for_each(|symbol| {
-                production_first_symbols.insert(symbol.clone());
-            });
+        for symbol in &production.output {
+            let symbol_first_symbols = first_follow_symbols.get_first_symbols(symbol).unwrap();
 
-        let symbol_follow_symbols: &HashSet<T>;
+            symbol_first_symbols
+                .iter()
+                .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
+                .for_each(|symbol| {
+                    production_first_symbols.insert(symbol.clone());
+                });
 
-        if grammar.get_epsilon_symbol().eq(symbol) {
-            symbol_follow_symbols = first_follow_symbols
-                .get_follow_symbols(&production.input)
-                .unwrap();
-        } else {
-            symbol_follow_symbols = first_follow_symbols.get_follow_symbols(&symbol).unwrap();
+            if !symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+                return production_first_symbols;
+            }
         }
 
-        symbol_follow_symbols.iter().for_each(|symbol| {
+        let input_follow_symbols: &HashSet<T> = first_follow_symbols
+            .get_follow_symbols(&production.input)
+            .unwrap();
+
+        input_follow_symbols.iter().for_each(|symbol| {
             production_first_symbols.insert(symbol.clone());
         });
 
-- 
2.43.0

