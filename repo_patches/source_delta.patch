From 014a7e0e44c6eded54f8178f640c6e2bf2ab3e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:30 +0000
Subject: [PATCH 1/8] fix: repeat sub-patterns that start or end with a loop
 correctly

---
 tokenizer/src/nfa.rs | 80 ++++++++++++++++++++++++++++++++------------
 1 file changed, 58 insertions(+), 22 deletions(-)

diff --git a/tokenizer/src/nfa.rs b/tokenizer/src/nfa.rs
index 8890d84..6f4f493 100644
--- a/tokenizer/src/nfa.rs
+++ b/tokenizer/src/nfa.rs
@@ -224,6 +224,58 @@ impl Clone for NFA {
     }
 }
 
+impl NFA {
+    fn begin_has_incoming_edge(&self) -> bool {
+        let begin = Edge(Arc::downgrade(&self.begin));
+        self.node.iter().any(|node| {
+            let node = node.read().unwrap();
+            node.epsilon.contains(&begin) || node.next.values().any(|edges| edges.contains(&begin))
+        })
+    }
+
+    fn end_has_outgoing_edge(&self) -> bool {
+        let end = self.end.read().unwrap();
+        !end.epsilon.is_empty() || !end.next.is_empty()
+    }
+
+    /// Zero or one times. An edge from begin to end would be wrong if begin can be entered again or end can be left.
+    fn zero_or_one(mut self) -> NFA {
+        if Arc::ptr_eq(&self.begin, &self.end) {
+            return self;
+        }
+        if self.begin_has_incoming_edge() {
+            let begin: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&self.begin)));
+            self.node.push(Arc::clone(&begin));
+            self.begin = begin;
+        }
+        if self.end_has_outgoing_edge() {
+            let end: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            self.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&end)));
+            self.node.push(Arc::clone(&end));
+            self.end = end;
+        }
+        self.begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&self.end)));
+        self
+    }
+
+    /// Zero or more times. Accepting in begin would be wrong if begin can be entered again from inside.
+    fn zero_or_more(mut self) -> NFA {
+        if Arc::ptr_eq(&self.begin, &self.end) {
+            return self;
+        }
+        if self.begin_has_incoming_edge() {
+            let begin: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&self.begin)));
+            self.node.push(Arc::clone(&begin));
+            self.begin = begin;
+        }
+        self.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&self.begin)));
+        self.end = Arc::clone(&self.begin);
+        self
+    }
+}
+
 impl TryFrom<Hir> for NFA {
     type Error = <NFA as TryFrom<HirKind>>::Error;
 
@@ -283,15 +335,8 @@ impl TryFrom<HirKind> for NFA {
             HirKind::Repetition(repetition) => {
                 let mut inner = NFA::try_from(repetition.hir.into_kind())?;
                 match repetition.kind {
-                    RepetitionKind::ZeroOrOne => {
-                        inner.begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.end)));
-                        Ok(inner)
-                    }
-                    RepetitionKind::ZeroOrMore => {
-                        inner.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.begin)));
-                        inner.end = Arc::clone(&inner.begin);
-                        Ok(inner)
-                    }
+                    RepetitionKind::ZeroOrOne => Ok(inner.zero_or_one()),
+                    RepetitionKind::ZeroOrMore => Ok(inner.zero_or_more()),
                     RepetitionKind::OneOrMore => {
                         inner.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.begin)));
                         Ok(inner)
@@ -318,11 +363,7 @@ impl TryFrom<HirKind> for NFA {
                             }
                         },
                         RepetitionRange::AtLeast(n) => match n {
-                            0 => {
-                                inner.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.begin)));
-                                inner.end = Arc::clone(&inner.begin);
-                                Ok(inner)
-                            }
+                            0 => Ok(inner.zero_or_more()),
                             n => {
                                 let NFA { mut node, begin, mut end } = inner.clone();
                                 for _ in 0..n - 1 {
@@ -331,9 +372,8 @@ impl TryFrom<HirKind> for NFA {
                                     end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&nfa.begin)));
                                     end = nfa.end;
                                 }
+                                let mut inner = inner.zero_or_more();
                                 end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.begin)));
-                                inner.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.begin)));
-                                inner.end = Arc::clone(&inner.begin);
                                 node.append(&mut inner.node);
                                 end = inner.end;
                                 Ok(NFA { node, begin, end })
@@ -344,10 +384,7 @@ impl TryFrom<HirKind> for NFA {
                                 let node = Arc::new(Default::default());
                                 Ok(NFA { node: vec![Arc::clone(&node)], begin: Arc::clone(&node), end: node })
                             }
-                            (0, 1) => {
-                                inner.begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.end)));
-                                Ok(inner)
-                            }
+                            (0, 1) => Ok(inner.zero_or_one()),
                             (0, n) => {
                                 let NFA { mut node, begin, mut end } = inner.clone();
                                 for _ in 0..n - 2 {
@@ -365,8 +402,7 @@ impl TryFrom<HirKind> for NFA {
                                 guard.epsilon.insert(Edge(Arc::downgrade(&inner.end)));
                                 drop(guard);
                                 end = inner.end;
-                                begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&end)));
-                                Ok(NFA { node, begin, end })
+                                Ok(NFA { node, begin, end }.zero_or_one())
                             }
                             (1, 1) => Ok(inner),
                             (n, m) if n == m => {
-- 
2.43.0


From 57b8b8943e0082ec3ff418f7cbbdd914741fed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:06 +0000
Subject: [PATCH 2/8] fix: never emit an empty token when a pattern matches the
 empty text

---
 tokenizer/src/tokenizer/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer/src/tokenizer/iter.rs b/tokenizer/src/tokenizer/iter.rs
index f56756c..1998dbd 100644
--- a/tokenizer/src/tokenizer/iter.rs
+++ b/tokenizer/src/tokenizer/iter.rs
@@ -47,7 +47,7 @@ impl<I: Iterator, F: FnMut(&I::Item) -> char, T: Tokenizer<Input = I::Item>> Ite
     fn next(&mut self) -> Option<Self::Item> {
         let TokenizeIterator { iter, queue, map, tokenizer } = self;
         let mut current_node = tokenizer.begin();
-        let mut last_matched_pattern = tokenizer.accept_index(current_node);
+        let mut last_matched_pattern = None;
         let mut last_matched_length = 0;
         let mut i = 0;
         let mut items = Vec::new();
-- 
2.43.0


From 8f38693a117280815b44e21b3005c70715451a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:07 +0000
Subject: [PATCH 3/8] fix: report a conflict between accepting and reducing at
 the end of input

---
 parser/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index dd8008f..5c0f90a 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -249,7 +249,9 @@ fn calc_table<N, T, E>(state_list: HashMap<StateInterop, GotoListInterop>, start
         for item in state {
             if item.position == rules[item.rule].symbols.len() {
                 if item.rule == start_rule {
-                    action.insert(TerminalSymbol::EOI, Action::Accept);
+                    if let Some(Action::Reduce(reduce)) = action.insert(TerminalSymbol::EOI, Action::Accept) {
+                        warnings.push(CalcTableWarning::ReduceReduce { state: current_state.clone(), actions: [reduce, item.rule] });
+                    }
                 } else {
                     match action.get(&item.lookahead_symbol) {
                         None => {
-- 
2.43.0


From 8f18dd595161fb45ab9f82f95c61fe16c55ed183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:36 +0000
Subject: [PATCH 4/8] fix: give ERROR an empty slice, not the first token, when
 the end of input does not fit

---
 parser/src/iter.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index c5f7454..c8566b7 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -1,7 +1,7 @@
 use std::collections::{HashSet, VecDeque};
 use std::error::Error;
 use std::fmt::{Display, Formatter};
-use std::ops::RangeInclusive;
+use std::ops::Range;
 
 use enum_index::EnumIndex;
 
@@ -54,7 +54,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     buffer.push_back((TerminalSymbol::Symbol(symbol.enum_index()), symbols.len()));
                     symbols.push(symbol);
                 } else {
-                    buffer.push_back((TerminalSymbol::EOI, 0));
+                    buffer.push_back((TerminalSymbol::EOI, symbols.len()));
                 }
             }
             let (symbol, symbol_index) = buffer.front().unwrap();
@@ -74,7 +74,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let (state, mut rule_symbols): (Vec<_>, Vec<_>) = stack.drain(stack.len() - parser.rules[*rule].symbols.len()..).unzip();
                     let first_index: usize = rule_symbols
                         .iter()
-                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, RangeInclusive<usize>>, _)>| match symbol {
+                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, Range<usize>>, _)>| match symbol {
                             SymbolInternal::NonTerminal((_, i)) => Some(*i),
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
@@ -122,6 +122,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let is_eoi = matches!(symbol, TerminalSymbol::EOI);
                     let mut backtracked = false;
                     let tail = *symbol_index;
+                    let error_tail = if is_eoi { tail } else { tail + 1 };
                     let mut head = tail;
                     let mut error_head = head;
                     loop {
@@ -145,7 +146,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                                     head = i;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => {
-                                    error_head = *range.start();
+                                    error_head = range.start;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::EOI, _)) => {}
                             }
@@ -160,7 +161,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         buffer.pop_front();
                     }
                     if let Some(Action::Shift(s)) = parser.action_table.get(&current_state).unwrap().get(&TerminalSymbol::Error(())) {
-                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..=tail), 0))));
+                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..error_tail), 0))));
                         current_state = *s;
                     } else {
                         unreachable!()
-- 
2.43.0


From 36e771e32f827ff77960cb9c4000d30775d7102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:37 +0000
Subject: [PATCH 5/8] fix: an empty non-terminal begins at the next token to be
 parsed

---
 parser/src/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index c8566b7..69ffb5a 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -79,7 +79,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
                         })
-                        .unwrap_or(symbols.len());
+                        .unwrap_or(*symbol_index);
                     let mut rule_symbols = {
                         let mut rule_symbols_ = Vec::new();
                         let all_symbols = &symbols;
-- 
2.43.0


From 664623dd852490be6ebd2f701343638fcf465d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:55 +0000
Subject: [PATCH 6/8] fix: adjacent or recursive ERROR symbols no longer loop
 forever on one token

---
 parser/src/iter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 69ffb5a..eb7f536 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -125,8 +125,13 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let error_tail = if is_eoi { tail } else { tail + 1 };
                     let mut head = tail;
                     let mut error_head = head;
+                    // An ERROR that already covers this token must take it, not be followed by another one.
+                    let mut covered = match stack.last() {
+                        Some((_, SymbolInternal::Terminal((TerminalSymbol::Error(range), _)))) => range.end == error_tail && range.is_empty() == is_eoi,
+                        _ => false,
+                    };
                     loop {
-                        if !is_eoi || !backtracked {
+                        if !std::mem::take(&mut covered) && (!is_eoi || !backtracked) {
                             if let Some(error_rules) = parser.error_rules.get(&current_state) {
                                 if error_recovery_state.is_empty() {
                                     error_recovery_state = error_rules.clone();
-- 
2.43.0


From 0fda4c517b86d9830c5448c6ca0d34342ad1a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:07 +0000
Subject: [PATCH 7/8] fix: keep automaton states apart that differ only in
 where a character range ends

---
 tokenizer/src/dfa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/dfa.rs b/tokenizer/src/dfa.rs
index d6d87a2..df5104b 100644
--- a/tokenizer/src/dfa.rs
+++ b/tokenizer/src/dfa.rs
@@ -149,7 +149,8 @@ impl<'a> TokenizerDFA<'a> {
                 let mut split_group = HashMap::new();
                 for node in set {
                     let node_next = &(*node).next;
-                    let compressed_next = Self::compress_next(&group_map, node_next);
+                    // CharRange's Eq ignores the end of the range, so compare whole ranges
+                    let compressed_next = Self::compress_next(&group_map, node_next).into_iter().map(|(range, group)| (range.range, group)).collect::<Vec<_>>();
                     split_group.entry(compressed_next).or_insert_with(HashSet::new).insert(node.reference());
                 }
                 updated |= split_group.len() > 1;
-- 
2.43.0


From 647e02160b14b716852fd28ce04857d16966856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:47 +0000
Subject: [PATCH 8/8] fix: treat parser macro keys of the same variant as one
 symbol

---
 parser_generator/src/lib.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/parser_generator/src/lib.rs b/parser_generator/src/lib.rs
index 88ab46e..86db91d 100644
--- a/parser_generator/src/lib.rs
+++ b/parser_generator/src/lib.rs
@@ -1,12 +1,13 @@
 use proc_macro::TokenStream;
 use std::collections::HashMap;
+use std::hash::Hash;
 use std::time::Instant;
 
 use proc_macro2::{Delimiter, Group};
 use quote::{quote, ToTokens};
 use syn::parse::{Parse, ParseStream};
 use syn::punctuated::Punctuated;
-use syn::{braced, bracketed, parenthesized, parse_macro_input, token, Expr, ExprTuple, FieldValue, Ident, LitStr, Pat, Path, Token, Type, Visibility};
+use syn::{braced, bracketed, parenthesized, parse_macro_input, token, Expr, ExprCall, ExprTuple, FieldValue, Ident, LitStr, Pat, Path, Token, Type, Visibility};
 
 use parser::enum_index::EnumIndex;
 use parser::{Action, LR1Parser, Rule, Symbol, Syntax, TerminalSymbol};
@@ -307,13 +308,28 @@ impl EnumIndex for AnonymousSymbol {
     }
 }
 
+/// The enum variant an example value is of. The value of a function, whose name is in lower case, can be of any variant.
+fn variant_of(value: &Expr) -> String {
+    match value {
+        Expr::Call(ExprCall { func, .. }) if matches!(func.as_ref(), Expr::Path(path) if !path.path.segments.iter().any(|s| s.ident.to_string().starts_with(char::is_lowercase))) => func.to_token_stream().to_string(),
+        Expr::Struct(value) => value.path.to_token_stream().to_string(),
+        value => value.to_token_stream().to_string(),
+    }
+}
+
+/// Maps keys to indices of items. Keys whose values are of the same variant are names of the same symbol.
+fn key_index_map<'a, K: Eq + Hash>(items: impl Iterator<Item = (K, &'a Expr)>) -> HashMap<K, usize> {
+    let mut variant_index = HashMap::new();
+    items.enumerate().map(|(i, (key, value))| (key, *variant_index.entry(variant_of(value)).or_insert(i))).collect()
+}
+
 #[proc_macro]
 pub fn parser(input: TokenStream) -> TokenStream {
     let ParserGeneratorInput { visibility, function_name, tokens, symbols, error, start, rules, .. } = parse_macro_input!(input as ParserGeneratorInput);
     let token_type_name = tokens.name;
-    let token_name_map = tokens.items.iter().enumerate().map(|(i, TokenItem { key, .. })| (key.clone(), i)).collect::<HashMap<_, _>>();
+    let token_name_map = key_index_map(tokens.items.iter().map(|TokenItem { key, value, .. }| (key.clone(), value)));
     let symbol_type_name = symbols.name;
-    let symbol_name_map = symbols.items.iter().enumerate().map(|(i, SymbolItem { key, .. })| (key.clone(), i)).collect::<HashMap<_, _>>();
+    let symbol_name_map = key_index_map(symbols.items.iter().map(|SymbolItem { key, value, .. }| (key.clone(), value)));
     let mut syntax = Syntax::<AnonymousSymbol, AnonymousSymbol>::builder();
     let mut above_rule_key = None;
     let mut keys = Vec::with_capacity(rules.len());
-- 
2.43.0

