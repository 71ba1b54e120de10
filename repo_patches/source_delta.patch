From 767f75e764b90851bc4ee7b5f6f2dc2cfcf5f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 01/11] fix: UniqueHeap::from(Vec) keeps each item once

---
 unique-heap/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/unique-heap/src/lib.rs b/unique-heap/src/lib.rs
index 427af98..5bdd4f9 100644
--- a/unique-heap/src/lib.rs
+++ b/unique-heap/src/lib.rs
@@ -134,11 +134,9 @@ where
     B: BuildHasher + Default,
 {
     fn from(vec: Vec<(W, I)>) -> Self {
-        let current_items = vec.iter().map(|(_, i)| i).cloned().collect();
-        UniqueHeap {
-            heap: vec.into(),
-            current_items,
-        }
+        vec.into_iter()
+            .map(|(weight, item)| (item, weight))
+            .collect()
     }
 }
 
-- 
2.43.0


From ebb00e58c14a2c8a38bc3680e0e591f775a38c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 02/11] fix: unique::Search::next skips nodes that were already
 handed out

---
 search/src/search.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/search/src/search.rs b/search/src/search.rs
index 726b78f..0ce4b5c 100644
--- a/search/src/search.rs
+++ b/search/src/search.rs
@@ -139,20 +139,17 @@ pub mod unique {
                 ref mut elements,
             } = self;
 
-            if let Some(item) = search.agenda.pop() {
+            while let Some(item) = search.agenda.pop() {
                 if elements.insert(item.clone()) {
                     search.agenda.extend(
                         (search.successors)(&item)
                             .into_iter()
                             .filter(|i| !elements.contains(i)),
                     );
-                    Some(item)
-                } else {
-                    None
+                    return Some(item);
                 }
-            } else {
-                None
             }
+            None
         }
     }
 }
-- 
2.43.0


From 5955f9a6cbb328ed32ba5e47c31016f0b3a13dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 03/11] fix: Lcfrs::new rejects right-hand-side nonterminals
 without rules instead of panicking

---
 src/grammars/lcfrs/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index c0eeadd..46d963b 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -40,6 +40,14 @@ where
                 return None;
             }
 
+            // check that each right-hand-side nonterminal has a rule
+            if rules
+                .iter()
+                .any(|rule| rule.tail.iter().any(|nt| !fanouts.contains_key(nt)))
+            {
+                return None;
+            }
+
             // check variables
             if !rules.iter().all(check_fanouts) {
                 return None;
-- 
2.43.0


From eecc57a975eb19ae09b6867a914487f372baf439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 04/11] fix: check_composition handles successors without
 components and variables of successors that do not exist

---
 src/grammars/lcfrs/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index 46d963b..04838b4 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -129,8 +129,13 @@ fn check_composition<T>(composition: &[Vec<VarT<T>>], fanouts: &[usize]) -> bool
             _ => None,
         })
     {
+        if i >= fanouts.len() {
+            return false;
+        }
         VecMultiMapAdapter(&mut variable_occurances)[i].push(j);
     }
+    // successors that do not occur at all
+    variable_occurances.resize(fanouts.len(), Vec::new());
 
     variable_occurances.len() == fanouts.len()
         && variable_occurances
-- 
2.43.0


From c89f5288bc0fd031fdda49350f8e13cbe7c86ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 05/11] fix: converting an Mcfg to an Lcfrs skips rules with
 nonterminals that have no rules instead of panicking

---
 src/grammars/lcfrs/conversion.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/conversion.rs b/src/grammars/lcfrs/conversion.rs
index ef428e9..4c5ac97 100644
--- a/src/grammars/lcfrs/conversion.rs
+++ b/src/grammars/lcfrs/conversion.rs
@@ -70,7 +70,10 @@ where
         .uniques()
         {
             for rule in rulemap.get(a).unwrap_or(&Vec::new()) {
-                rules.push(to_lcfrs_rule((*rule).clone(), deletions.clone(), &fanouts));
+                // a rule with a nonterminal that has no rules is not used in any derivation
+                if rule.tail.iter().all(|nt| fanouts.contains_key(&nt)) {
+                    rules.push(to_lcfrs_rule((*rule).clone(), deletions.clone(), &fanouts));
+                }
             }
         }
 
-- 
2.43.0


From 7cbed7c41915374ce929797ac6ba5445e535caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 06/11] fix: separate_terminal_rules takes rules with one
 terminal and further variables apart

---
 src/grammars/pmcfg/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/grammars/pmcfg/mod.rs b/src/grammars/pmcfg/mod.rs
index cfcb779..66ef688 100644
--- a/src/grammars/pmcfg/mod.rs
+++ b/src/grammars/pmcfg/mod.rs
@@ -478,6 +478,7 @@ where
             for variable in component {
                 match variable {
                     &VarT::Var(num_nonter, num_compon) => {
+                        contains_only_one_terminal = false;
                         new_component.push(VarT::Var(num_nonter, num_compon));
                     }
                     &VarT::T(ref terminal) => {
-- 
2.43.0


From 997887c510ceefcbf1cf7cda14dc5d342d54eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 07/11] fix: coarse-to-fine recognition goes on after the first
 parse of the approximation

next_input left Some(None) behind, which stands for the end of the sublevel's parses.
---
 src/recognisable/coarse_to_fine.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/recognisable/coarse_to_fine.rs b/src/recognisable/coarse_to_fine.rs
index 5f24832..4d2520f 100644
--- a/src/recognisable/coarse_to_fine.rs
+++ b/src/recognisable/coarse_to_fine.rs
@@ -70,9 +70,13 @@ where
         if self.input_buffer.is_none() {
             self.input_buffer = Some(self.sublevel_parses.next());
         }
-        match self.input_buffer {
-            Some(ref mut x) => x.take(),
-            _ => unreachable!(),
+        match self.input_buffer.take() {
+            Some(Some(item)) => Some(item),
+            _ => {
+                // remember that there are no further parses
+                self.input_buffer = Some(None);
+                None
+            }
         }
     }
 }
-- 
2.43.0


From 48d1b20180b258c620eab002b18f1070eb5584d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 08/11] fix: un-approximation finds transitions that the
 approximation has merged

PushDownAutomaton::new adds up the weights of transitions that only differ in weight,
so the weights of the approximated transitions are no longer those they were stored with.
---
 src/approximation/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/approximation/mod.rs b/src/approximation/mod.rs
index 7087d92..01b2d56 100644
--- a/src/approximation/mod.rs
+++ b/src/approximation/mod.rs
@@ -95,17 +95,29 @@ where
             weight: t1.weight.clone(),
         };
         self.reverse_transition_map
-            .entry(t2.clone())
+            .entry(Self::without_weight(&t2))
             .or_insert(Vec::new())
             .push(t1);
         t2
     }
 
+    /// The key of a `Transition` in the `reverse_transition_map`. Its weight is left out since an
+    /// automaton may merge transitions that only differ in their weights.
+    fn without_weight(
+        t2: &Transition<Strategy::I2, T, W>,
+    ) -> Transition<Strategy::I2, T, W> {
+        Transition {
+            word: t2.word.clone(),
+            instruction: t2.instruction.clone(),
+            weight: W::one(),
+        }
+    }
+
     pub fn unapproximate_transition(
         &self,
         t2: &Transition<Strategy::I2, T, W>,
     ) -> Vec<Transition<Strategy::I1, T, W>> {
-        match self.reverse_transition_map.get(t2) {
+        match self.reverse_transition_map.get(&Self::without_weight(t2)) {
             None => Vec::new(),
             Some(v) => v.clone(),
         }
-- 
2.43.0


From d15868a5847cc8fa883a52a72c9c3ba02f1ede46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:58 +0000
Subject: [PATCH 09/11] fix: discodop files with components of more than 64
 variables, or lines that cannot be read, are refused instead of overflowing
 or being cut short

---
 src/grammars/lcfrs/from_discodop.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 96a76ef..a64eabc 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -32,7 +32,11 @@ fn is_binary_digit(c: char) -> bool {
 }
 
 /// Interprets a string over { '0', '1' } in reverse as an integer in binary format.
+/// There is no such integer if the string has more than 64 digits.
 fn from_binary(s: &str) -> Option<u64> {
+    if s.len() > 64 {
+        return None;
+    }
     s.chars()
         .enumerate()
         .map(|(i, c)| match c {
@@ -322,6 +326,14 @@ impl<N, W> DiscoDopGrammar<N, (), W> {
     }
 }
 
+/// The result of parsing a whole file. It is an error if there is a line that was not read.
+fn read_all<O>(result: IResult<&str, O>) -> Result<O, nom::Err<u32>> {
+    match result {
+        IResult::Done(rest, _) if !rest.trim().is_empty() => Err(ErrorKind::Eof),
+        _ => result.to_result(),
+    }
+}
+
 impl<N, W> FromStr for DiscoDopGrammar<N, (), W>
 where
     N: FromStr,
@@ -332,7 +344,7 @@ where
     type Err = nom::Err<u32>;
     fn from_str(constituent_str: &str) -> Result<Self, Self::Err> {
         Ok(DiscoDopGrammar {
-            constituents: parse_discodop_constituents(constituent_str).to_result()?,
+            constituents: read_all(parse_discodop_constituents(constituent_str))?,
             lexer: None,
         })
     }
@@ -349,7 +361,7 @@ where
 {
     type Err = nom::Err<u32>;
     fn from_str(lexer_str: &str) -> Result<Self, Self::Err> {
-        parse_discodop_lexer(lexer_str).to_result()
+        read_all(parse_discodop_lexer(lexer_str))
     }
 }
 
-- 
2.43.0


From a5df4bfcddf0b7c30c161e05b3981c7e92902d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:58 +0000
Subject: [PATCH 10/11] fix: keep all letters at the end of a component when
 making a tree stack automaton of a PMCFG

Only the last of several trailing letters of a component was read, and an
empty component read the letters that ended the component before it.
---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 005b2e9..8033afe 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -77,8 +77,8 @@ impl<
             let mut down_buffer: Vec<T> = Vec::new();
             for component in &r.composition.composition {
                 i = 0;
+                down_buffer.clear();
                 for ntt in component {
-                    down_buffer.clear();
                     match *ntt {
                         VarT::Var(_, _) => {
                             i += 1;
-- 
2.43.0


From 013f85ca364761d033324126363493a7f7d7e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:58 +0000
Subject: [PATCH 11/11] fix: make tree stack automata of PMCFGs with
 nonterminals without rules

A successor without rules made the conversion panic.
---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 8033afe..02feda7 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -125,7 +125,10 @@ impl<
         for r in g.rules {
             agenda.push((
                 r.clone(),
-                r.tail.iter().map(|n| rule_map[n].clone()).collect(),
+                r.tail
+                    .iter()
+                    .map(|n| rule_map.get(n).cloned().unwrap_or_default())
+                    .collect(),
             ));
         }
 
-- 
2.43.0

