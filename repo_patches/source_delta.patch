From 07b9477ea0dc5fb9c2fd006c532c2bdf6a832fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 1/9] fix: loop over the empty language contains epsilon when
 the lower bound is 0

---
 src/regular_expressions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 02a5b4f..4092a31 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1355,7 +1355,9 @@ impl ReManager {
             e
         } else {
             match &e.expr {
-                // empty ^ [i, j] --> empty
+                // empty ^ [0, j] --> epsilon
+                BaseRegLan::Empty if range.start() == 0 => self.epsilon,
+                // empty ^ [i, j] --> empty if i > 0
                 BaseRegLan::Empty => self.empty,
                 // epsilon ^ [i, j] --> epsilon
                 BaseRegLan::Epsilon => self.epsilon,
-- 
2.43.0


From dbe0e1ebb6b1a74a7079854d694a086a5ead8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 2/9] fix: interval_cover must compare with the start of the
 next interval

---
 src/character_sets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/character_sets.rs b/src/character_sets.rs
index d7093f0..67801b1 100644
--- a/src/character_sets.rs
+++ b/src/character_sets.rs
@@ -935,7 +935,7 @@ impl CharPartition {
             }
         } else {
             // note: we know i < p.len() <= MAX_CHAR so i+1 can't overflow here
-            let next_ai = self.end(i + 1);
+            let next_ai = self.start(i + 1);
             if b < next_ai {
                 // a_i <= b_i < a <= b < a_{i+1}
                 CoverResult::DisjointFromAll
-- 
2.43.0


From f77ccf94c46d7afbf413e1657425b18418d034ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 3/9] fix: str_indexof finds the empty string at the end of s1

---
 src/smt_strings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 988370b..0afa77d 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -760,9 +760,9 @@ pub fn str_contains(s1: &SmtString, s2: &SmtString) -> bool {
 ///
 /// Index of the first occurrence of s2 in s1, starting from index i
 ///
-/// - If 0 <= i < s1.len and s2 occurs in s1[i ..] then return the index j >= i
+/// - If 0 <= i <= s1.len and s2 occurs in s1[i ..] then return the index j >= i
 ///   of the first occurrence of s2 in s1[i ..].
-/// - Return -1 if i < 0 or i >= s1.len or s2 does not occur in s1[i ..]
+/// - Return -1 if i < 0 or i > s1.len or s2 does not occur in s1[i ..]
 ///
 /// # Examples
 /// ```
@@ -779,7 +779,7 @@ pub fn str_contains(s1: &SmtString, s2: &SmtString) -> bool {
 /// ```
 ///
 pub fn str_indexof(s1: &SmtString, s2: &SmtString, i: i32) -> i32 {
-    if i < 0 || i >= s1.len() as i32 {
+    if i < 0 || i > s1.len() as i32 {
         -1
     } else {
         match find_sub_vector(&s2.s, &s1.s, i as usize) {
-- 
2.43.0


From e3241393026a6d5e5b98907a3140f7154d26819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 4/9] fix: Display for SmtString escapes the backslash so that
 it round-trips

---
 src/smt_strings.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 0afa77d..1203de1 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -393,6 +393,9 @@ impl fmt::Display for SmtString {
         for &x in self.s.iter() {
             if x == '"' as u32 {
                 write!(f, "\"\"")?;
+            } else if x == '\\' as u32 {
+                // a backslash printed as is could start an escape sequence
+                write!(f, "\\u{{5c}}")?;
             } else if x >= 32 && x < 127 {
                 write!(f, "{}", char::from_u32(x).unwrap())?;
             } else if x < 32 || x == 127 {
-- 
2.43.0


From b8e7f91706d33763a2eb774584432b9cc062818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 5/9] fix: str_to_int detects overflow in every build profile

---
 src/smt_strings.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 1203de1..c6c48d3 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -943,21 +943,16 @@ pub fn str_from_code(x: i32) -> SmtString {
 /// assert_eq!(str_to_int(&SmtString::from("101aaabb")), -1);
 /// ```
 pub fn str_to_int(s: &SmtString) -> i32 {
-    if s.is_empty() {
+    if s.is_empty() || s.s.iter().any(|&d| !char_is_digit(d)) {
         return -1;
     }
 
     let mut x: i32 = 0;
     for &d in &s.s {
-        if char_is_digit(d) {
-            let y = 10 * x + (d as i32 - '0' as i32);
-            if y < x {
-                panic!("Arithmetic overflow in str_to_int");
-            }
-            x = y;
-        } else {
-            return -1;
-        }
+        x = x
+            .checked_mul(10)
+            .and_then(|y| y.checked_add(d as i32 - '0' as i32))
+            .expect("Arithmetic overflow in str_to_int");
     }
     x
 }
-- 
2.43.0


From c600532080f40963eff5f3f597facc1336021db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 6/9] fix: strings built from Rust text contain only SMT-LIB
 characters

---
 src/smt_strings.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index c6c48d3..d8e2346 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -43,6 +43,16 @@ pub struct SmtString {
 /// The empty string
 pub const EMPTY: SmtString = SmtString { s: vec![] };
 
+// Code point of x if that's a valid SMT character, REPLACEMENT_CHAR otherwise
+fn char_code(x: char) -> u32 {
+    let x = x as u32;
+    if x <= MAX_CHAR {
+        x
+    } else {
+        REPLACEMENT_CHAR
+    }
+}
+
 impl SmtString {
     // internal construct
     fn make(a: Vec<u32>) -> SmtString {
@@ -64,7 +74,7 @@ impl SmtString {
     /// Check whether this is a good string
     pub fn is_good(&self) -> bool {
         let n = self.s.len();
-        n < MAX_LENGTH as usize && good_string(&self.s)
+        n <= MAX_LENGTH as usize && good_string(&self.s)
     }
 
     /// Check whether all SMT chars are valid unicode
@@ -109,6 +119,8 @@ impl AsRef<[u32]> for SmtString {
 ///
 /// Construct an SmtString from a UTF8 string x
 ///
+/// Any character of x not in the range [0, 0x2ffff] is replaced by 0xfffd.
+///
 /// # Example
 /// ```
 /// use aws_smt_strings::smt_strings::*;
@@ -118,7 +130,7 @@ impl AsRef<[u32]> for SmtString {
 /// ```
 impl From<&str> for SmtString {
     fn from(x: &str) -> Self {
-        SmtString::make(x.chars().map(|c| c as u32).collect())
+        SmtString::make(x.chars().map(char_code).collect())
     }
 }
 
@@ -182,7 +194,7 @@ impl From<u32> for SmtString {
 ///
 impl From<char> for SmtString {
     fn from(x: char) -> SmtString {
-        SmtString::make(vec![x as u32])
+        SmtString::make(vec![char_code(x)])
     }
 }
 
@@ -222,14 +234,14 @@ fn new_automaton() -> ParsingAutomaton {
 impl ParsingAutomaton {
     // add char x to the string so far
     fn push(&mut self, x: char) {
-        self.string_so_far.push(x as u32);
+        self.string_so_far.push(char_code(x));
     }
 
     // add char x to the pending array
     fn pending(&mut self, x: char) {
         let i = self.pending_idx;
         assert!(i < 9);
-        self.pending[i] = x as u32;
+        self.pending[i] = char_code(x);
         self.pending_idx += 1;
     }
 
-- 
2.43.0


From 9390f54cb440bb3d9ae769cf93f6df9a30a03440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 7/9] fix: start_char is exact for intersections and
 concatenations

---
 src/regular_expressions.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 4092a31..9abc21b 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1870,13 +1870,13 @@ impl ReManager {
             BaseRegLan::Epsilon => false,
             BaseRegLan::Range(set) => set.contains(c),
             BaseRegLan::Concat(e1, e2) => {
-                self.start_char(e1, c) || e1.nullable && self.start_char(e2, c)
+                self.start_char(e1, c) && !self.is_empty_re(e2)
+                    || e1.nullable && self.start_char(e2, c)
             }
             BaseRegLan::Loop(e, _) => self.start_char(e, c),
-            BaseRegLan::Inter(args) => args.iter().all(|x| self.start_char(x, c)),
             BaseRegLan::Union(args) => args.iter().any(|x| self.start_char(x, c)),
-            BaseRegLan::Complement(_) => {
-                // expensive case
+            BaseRegLan::Inter(_) | BaseRegLan::Complement(_) => {
+                // expensive cases
                 let d = self.deriv(e, c);
                 !self.is_empty_re(d)
             }
-- 
2.43.0


From 0c04efd56fe788e9321f40d43a88ca75340b371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 8/9] fix: right_mul_is_exact does not overflow

---
 src/loop_ranges.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/loop_ranges.rs b/src/loop_ranges.rs
index 697ab1e..fb4bc7d 100644
--- a/src/loop_ranges.rs
+++ b/src/loop_ranges.rs
@@ -354,7 +354,9 @@ impl LoopRange {
                 // c = other.start()
                 // b = self.end()
                 // a = self.start()
-                mul32(other.start(), self.end() - self.start()) >= self.start().saturating_sub(1)
+                // the test is true if the product overflows
+                other.start().saturating_mul(self.end() - self.start())
+                    >= self.start().saturating_sub(1)
             }
     }
 
-- 
2.43.0


From 0d0d43b267e6378f1b0f9071a2c7537758f603ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 9/9] fix: AutomatonBuilder::build checks the transitions as
 given by the caller

---
 src/automata.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/automata.rs b/src/automata.rs
index b22341d..c1646a8 100644
--- a/src/automata.rs
+++ b/src/automata.rs
@@ -539,7 +539,7 @@ impl<'a> Iterator for FinalStateIterator<'a> {
     }
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 struct StateInConstruction {
     is_final: bool,
     default_successor: Option<usize>,
@@ -610,6 +610,32 @@ impl StateInConstruction {
         }
     }
 
+    // Check the transitions as given by the caller, before any cleanup
+    // - fails if two overlapping labels have distinct successors
+    // - fails if there's no default successor and the labels don't cover the alphabet
+    // - merges the overlapping labels that have the same successor
+    fn check_transitions(&mut self) -> Result<(), Error> {
+        self.transitions.sort_by_key(|x| x.0.pick());
+        let mut merged: Vec<(CharSet, usize)> = Vec::with_capacity(self.transitions.len());
+        for &(set, next) in &self.transitions {
+            match merged.last_mut() {
+                Some(last) if last.0.inter(&set).is_some() => {
+                    if last.1 != next {
+                        return Err(Error::NonDisjointCharSets);
+                    }
+                    // the union is an interval since the two sets overlap
+                    last.0 = last.0.union(&set).unwrap();
+                }
+                _ => merged.push((set, next)),
+            }
+        }
+        self.transitions = merged;
+        if self.default_successor.is_none() && !self.make_partition()?.empty_complement() {
+            return Err(Error::MissingDefaultSuccessor);
+        }
+        Ok(())
+    }
+
     fn cleanup(&mut self) {
         self.choose_default_successor();
         self.remove_transitions_to_default();
@@ -706,7 +732,8 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
     ///
     /// Construct an automaton
     /// - fails if a state `s` has non-deterministic transitions,
-    ///   i.e., if two distinct transitions from s have non-disjoint labels (i.e., character sets).
+    ///   i.e., if two transitions from s to distinct successors have non-disjoint labels
+    ///   (i.e., character sets).
     /// - fails if a state `s` has a default successor but its transitions
     ///   already cover the full alphabet.
     /// - fails if a state `s` doesn't have a default successor but its
@@ -716,7 +743,10 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
         let n = self.size;
         let mut num_final_states = 0;
         let mut state_array = Vec::with_capacity(n);
-        for (i, s) in self.states.iter_mut().enumerate() {
+        for (i, s) in self.states.iter().enumerate() {
+            // work on a copy: cleanup must not change the caller's specification
+            let mut s = s.clone();
+            s.check_transitions()?;
             s.cleanup();
             let p = s.make_partition()?;
             if s.default_successor.is_some() && p.empty_complement() {
-- 
2.43.0

