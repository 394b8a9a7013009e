From 3f2ebb3fa1251cd3b3cc6ffc9979dcb92a9b5112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 1/6] fix: choose between equally long rules by table order

Class transitions of the rule trie were visited in the order of a randomly
seeded hash map, so which of several equally long rules with a word boundary
or a before/after class applied changed from one process to the next.
---
 src/translator/trie.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index d626d5e..d75a4e5 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -79,9 +79,21 @@ pub enum ClassConstraint {
 struct TrieNode {
     translation: Option<ResolvedTranslation>,
     transitions: HashMap<ResolvedTransition, TrieNode>,
+    /// The class transitions in `transitions`, in the order in which the rules introduced them.
+    /// Several of them can match at the same position, so they must not be visited in the
+    /// (random) order of the map, or equally long rules would win at random.
+    class_transitions: Vec<ResolvedTransition>,
 }
 
 impl TrieNode {
+    /// Follow (and create if needed) a class transition
+    fn insert_class_transition(&mut self, transition: ResolvedTransition) -> &mut TrieNode {
+        if !self.transitions.contains_key(&transition) {
+            self.class_transitions.push(transition.clone());
+        }
+        self.transitions.entry(transition).or_default()
+    }
+
     fn char_transition(&self, c: char) -> Option<&TrieNode> {
         // FIXME: we ignore characters that do not map to a single
         // character lowercase character
@@ -191,16 +203,14 @@ impl Trie {
             if let ClassConstraint::Start(class) = constraint {
                 length += 1;
                 let resolved = ResolvedClasses::resolve(&self.ctx, &[class.clone()]);
-                current_node = current_node
-                    .transitions
-                    .entry(ResolvedTransition::Start(resolved))
-                    .or_default();
+                current_node =
+                    current_node.insert_class_transition(ResolvedTransition::Start(resolved));
             }
         }
 
         if let Some(t) = before {
             length += 1;
-            current_node = current_node.transitions.entry(t).or_default();
+            current_node = current_node.insert_class_transition(t);
         }
 
         for c in from.chars() {
@@ -212,7 +222,7 @@ impl Trie {
 
         if let Some(t) = after {
             length += 1;
-            current_node = current_node.transitions.entry(t).or_default();
+            current_node = current_node.insert_class_transition(t);
         }
 
         // EndClass constraints are lookahead checks on the next char — inserted after char transitions
@@ -220,10 +230,8 @@ impl Trie {
             if let ClassConstraint::End(class) = constraint {
                 length += 1;
                 let resolved = ResolvedClasses::resolve(&self.ctx, &[class.clone()]);
-                current_node = current_node
-                    .transitions
-                    .entry(ResolvedTransition::End(resolved))
-                    .or_default();
+                current_node =
+                    current_node.insert_class_transition(ResolvedTransition::End(resolved));
             }
         }
 
@@ -297,8 +305,10 @@ impl Trie {
         // Class-based non-consuming checks. Iterate only transitions that are class variants to
         // avoid scanning all transitions on every node visit. The character sets themselves are
         // already resolved at insert time (see `ResolvedClasses::resolve`), so this is a plain
-        // binary search, not a `CharacterClasses` lookup.
-        for (transition, child_node) in &node.transitions {
+        // binary search, not a `CharacterClasses` lookup. Of equally long candidates the last one
+        // wins, so go backwards to let the rule that was defined first win.
+        for transition in node.class_transitions.iter().rev() {
+            let child_node = &node.transitions[transition];
             match transition {
                 ResolvedTransition::Start(resolved) => {
                     if resolved.matches(prev) {
-- 
2.43.0


From da8724c5e81071fb253e5ff9faeeaa6a71b2ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 2/6] fix: print query results in a stable order

---
 src/metadata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index 37d1928..b04d009 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeSet, HashMap, HashSet},
     fs,
     path::PathBuf,
 };
@@ -16,11 +16,11 @@ type Query = Vec<(String, String)>;
 
 type Index = HashMap<(String, String), HashSet<PathBuf>>;
 
-pub fn find(index: &Index, query: Query) -> HashSet<&PathBuf> {
+pub fn find(index: &Index, query: Query) -> BTreeSet<&PathBuf> {
     let candidates: Vec<_> = query.into_iter().map(|(k, v)| index.get(&(k, v))).collect();
     // if any of the queries was not found in the index then the whole query is empty
     if candidates.iter().any(|c| c.is_none()) {
-        HashSet::new()
+        BTreeSet::new()
     } else {
         let candidates: Vec<_> = candidates.iter().flatten().collect();
         // get the intersection of all sets
-- 
2.43.0


From 68d8a3bd1a0ee853e5726752644fadb3f9bfaa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 3/6] fix: print the sets of match and multipass rules in a
 stable order

---
 src/parser/match_rule.rs     | 27 ++++++++++-----------------
 src/parser/multipass/test.rs |  8 ++++----
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/parser/match_rule.rs b/src/parser/match_rule.rs
index 8e48c46..5f11642 100644
--- a/src/parser/match_rule.rs
+++ b/src/parser/match_rule.rs
@@ -77,6 +77,13 @@ impl std::fmt::Display for Patterns {
     }
 }
 
+/// The members of an (unordered) set in the order in which to print them.
+fn sorted<T: ToString>(members: &HashSet<T>) -> Vec<String> {
+    let mut members: Vec<_> = members.iter().map(|m| m.to_string()).collect();
+    members.sort_unstable();
+    members
+}
+
 impl std::fmt::Display for Pattern {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
@@ -87,24 +94,10 @@ impl std::fmt::Display for Pattern {
             Pattern::Boundary(Side::Pre) => write!(f, "^"),
             Pattern::Boundary(Side::Post) => write!(f, "$"),
             Pattern::Any => write!(f, "."),
-            Pattern::Set(chars) => {
-                write!(f, "[")?;
-                for c in chars {
-                    write!(f, "{}", c)?;
-                }
-                write!(f, "]")?;
-                Ok(())
-            }
-            Pattern::Attributes(attributes) => {
-                for attr in attributes {
-                    write!(f, "{}", attr)?;
-                }
-                Ok(())
-            }
+            Pattern::Set(chars) => write!(f, "[{}]", sorted(chars).concat()),
+            Pattern::Attributes(attributes) => write!(f, "{}", sorted(attributes).concat()),
             Pattern::AttributesOrBoundary(attributes, side) => {
-                for attr in attributes {
-                    write!(f, "{}", attr)?;
-                }
+                write!(f, "{}", sorted(attributes).concat())?;
                 write!(f, "{}", Pattern::Boundary(*side))
             }
             Pattern::Group(patterns) => write!(f, "({})", patterns),
diff --git a/src/parser/multipass/test.rs b/src/parser/multipass/test.rs
index 0d05eee..e8b1e59 100644
--- a/src/parser/multipass/test.rs
+++ b/src/parser/multipass/test.rs
@@ -554,10 +554,10 @@ mod display {
                     write!(f, "@{}", dots)
                 }
                 TestInstruction::Attributes { attrs, quantifier } => {
-                    write!(f, "$")?;
-                    for attr in attrs {
-                        write!(f, "{}", attr)?;
-                    }
+                    // the attributes are unordered, print them in a stable order
+                    let mut attrs: Vec<_> = attrs.iter().map(|a| a.to_string()).collect();
+                    attrs.sort_unstable();
+                    write!(f, "${}", attrs.concat())?;
                     if let Some(q) = quantifier {
                         write!(f, "{}", q)?;
                     }
-- 
2.43.0


From 2652f964694701c8832346a692554958a1f891cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 4/6] fix: debug the sets of match and multipass rules in a
 stable order

---
 src/parser/match_rule.rs     | 41 +++++++++++++++++++++++++++++++++++-
 src/parser/multipass/test.rs | 34 +++++++++++++++++++++++++++++-
 2 files changed, 73 insertions(+), 2 deletions(-)

diff --git a/src/parser/match_rule.rs b/src/parser/match_rule.rs
index 5f11642..0bca1d5 100644
--- a/src/parser/match_rule.rs
+++ b/src/parser/match_rule.rs
@@ -30,7 +30,7 @@ pub enum Side {
     Post,
 }
 
-#[derive(Debug, PartialEq, Clone)]
+#[derive(PartialEq, Clone)]
 pub enum Pattern {
     Empty,
     Characters(String),
@@ -84,6 +84,45 @@ fn sorted<T: ToString>(members: &HashSet<T>) -> Vec<String> {
     members
 }
 
+/// The members of an (unordered) set, to be debugged in a stable order.
+pub struct StableSet<'a, T>(pub &'a HashSet<T>);
+
+impl<T: std::fmt::Debug> std::fmt::Debug for StableSet<'_, T> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        let mut members: Vec<_> = self.0.iter().collect();
+        members.sort_by_cached_key(|m| format!("{:?}", m));
+        f.debug_set().entries(members).finish()
+    }
+}
+
+// not derived, so that the members of the sets always print in the same order
+impl std::fmt::Debug for Pattern {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Pattern::Empty => write!(f, "Empty"),
+            Pattern::Characters(s) => f.debug_tuple("Characters").field(s).finish(),
+            Pattern::Boundary(side) => f.debug_tuple("Boundary").field(side).finish(),
+            Pattern::Any => write!(f, "Any"),
+            Pattern::Set(chars) => f.debug_tuple("Set").field(&StableSet(chars)).finish(),
+            Pattern::Attributes(attributes) => f
+                .debug_tuple("Attributes")
+                .field(&StableSet(attributes))
+                .finish(),
+            Pattern::AttributesOrBoundary(attributes, side) => f
+                .debug_tuple("AttributesOrBoundary")
+                .field(&StableSet(attributes))
+                .field(side)
+                .finish(),
+            Pattern::Group(patterns) => f.debug_tuple("Group").field(patterns).finish(),
+            Pattern::Negate(pattern) => f.debug_tuple("Negate").field(pattern).finish(),
+            Pattern::Optional(pattern) => f.debug_tuple("Optional").field(pattern).finish(),
+            Pattern::ZeroOrMore(pattern) => f.debug_tuple("ZeroOrMore").field(pattern).finish(),
+            Pattern::OneOrMore(pattern) => f.debug_tuple("OneOrMore").field(pattern).finish(),
+            Pattern::Either(p1, p2) => f.debug_tuple("Either").field(p1).field(p2).finish(),
+        }
+    }
+}
+
 impl std::fmt::Display for Pattern {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
diff --git a/src/parser/multipass/test.rs b/src/parser/multipass/test.rs
index e8b1e59..2ca3626 100644
--- a/src/parser/multipass/test.rs
+++ b/src/parser/multipass/test.rs
@@ -1,4 +1,5 @@
 //! A Parser for the test operand of context and multipass opcodes
+use crate::parser::match_rule::StableSet;
 use crate::parser::{Attribute, CharacterClass};
 use std::{collections::HashSet, iter::Peekable, str::Chars};
 
@@ -76,7 +77,7 @@ pub enum Quantifier {
     OneOrMore,
 }
 
-#[derive(Debug, PartialEq, Eq, Clone)]
+#[derive(PartialEq, Eq, Clone)]
 pub enum TestInstruction {
     Lookback {
         len: u8,
@@ -114,6 +115,37 @@ pub enum TestInstruction {
     AtEnd,
 }
 
+// not derived, so that the members of the sets always print in the same order
+impl std::fmt::Debug for TestInstruction {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::Lookback { len } => f.debug_struct("Lookback").field("len", len).finish(),
+            Self::Variable { var, op, operand } => f
+                .debug_struct("Variable")
+                .field("var", var)
+                .field("op", op)
+                .field("operand", operand)
+                .finish(),
+            Self::String { s } => f.debug_struct("String").field("s", s).finish(),
+            Self::Dots { dots } => f.debug_struct("Dots").field("dots", dots).finish(),
+            Self::Attributes { attrs, quantifier } => f
+                .debug_struct("Attributes")
+                .field("attrs", &StableSet(attrs))
+                .field("quantifier", quantifier)
+                .finish(),
+            Self::Class { name, quantifier } => f
+                .debug_struct("Class")
+                .field("name", name)
+                .field("quantifier", quantifier)
+                .finish(),
+            Self::Negate { test } => f.debug_struct("Negate").field("test", test).finish(),
+            Self::Replace { tests } => f.debug_struct("Replace").field("tests", tests).finish(),
+            Self::AtBeginning => write!(f, "AtBeginning"),
+            Self::AtEnd => write!(f, "AtEnd"),
+        }
+    }
+}
+
 impl IsLiteral for TestInstruction {
     fn is_literal(&self) -> bool {
         matches!(
-- 
2.43.0


From ca3bcf4cc6fa2b089db7d7cca9c1f69bb14f78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 5/6] fix: print every kind of rule

Displaying a rule panicked with "not yet implemented" for about half of the
opcodes, which made louis trace crash as soon as such a rule took part in a
translation.
---
 src/parser.rs | 114 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 113 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6dc7110..725bc20 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -905,11 +905,114 @@ impl std::fmt::Display for Rule {
                 dots,
                 ..
             } => write!(f, "match {} {} {} {}", pre, chars, post, dots),
-            _ => todo!(),
+            Rule::Include { file } => write!(f, "include {}", file),
+            Rule::IncludeHyphenation { path } => write!(f, "include {}", path.display()),
+            Rule::Display {
+                character, dots, ..
+            } => write!(f, "display {} {}", character, dots),
+            Rule::Multind { dots, names, .. } => {
+                write!(f, "multind {} {}", dots, names.join(" "))
+            }
+            Rule::Grouping {
+                name,
+                chars,
+                left,
+                right,
+            } => write!(f, "grouping {} {} {},{}", name, chars, left, right),
+            Rule::Modeletter { name, dots, .. } => write!(f, "modeletter {} {}", name, dots),
+            Rule::Begmodeword { name, dots, .. } => write!(f, "begmodeword {} {}", name, dots),
+            Rule::Begmodephrase { name, dots } => write!(f, "begmodephrase {} {}", name, dots),
+            Rule::Endmodephrase {
+                name,
+                dots,
+                position,
+            } => write!(f, "endmodephrase {} {} {}", name, position, dots),
+            Rule::Lenmodephrase { name, number } => {
+                write!(f, "lenmodephrase {} {}", name, number)
+            }
+            Rule::Capsmodechars { chars } => write!(f, "capsmodechars {}", chars),
+            Rule::Begcapsphrase { dots } => write!(f, "begcapsphrase {}", dots),
+            Rule::Endcapsphrase { dots, position } => {
+                write!(f, "endcapsphrase {} {}", position, dots)
+            }
+            Rule::Lencapsphrase { number } => write!(f, "lencapsphrase {}", number),
+            Rule::Capsnocont {} => write!(f, "capsnocont"),
+            Rule::Noletsignbefore { chars } => write!(f, "noletsignbefore {}", chars),
+            Rule::Noletsignafter { chars } => write!(f, "noletsignafter {}", chars),
+            Rule::Numericnocontchars { chars } => write!(f, "numericnocontchars {}", chars),
+            Rule::Numericmodechars { chars } => write!(f, "numericmodechars {}", chars),
+            Rule::Midendnumericmodechars { chars } => {
+                write!(f, "midendnumericmodechars {}", chars)
+            }
+            Rule::Seqdelimiter { chars } => write!(f, "seqdelimiter {}", chars),
+            Rule::Seqbeforechars { chars } => write!(f, "seqbeforechars {}", chars),
+            Rule::Seqafterchars { chars } => write!(f, "seqafterchars {}", chars),
+            Rule::Seqafterpattern { chars } => write!(f, "seqafterpattern {}", chars),
+            Rule::Seqafterexpression { chars } => write!(f, "seqafterexpression {}", chars),
+            Rule::Class { name, chars } => write!(f, "class {} {}", name, chars),
+            Rule::Emphclass { name } => write!(f, "emphclass {}", name),
+            Rule::Begemph { name, dots, .. } => write!(f, "begemph {} {}", name, dots),
+            Rule::Endemph { name, dots, .. } => write!(f, "endemph {} {}", name, dots),
+            Rule::Noemphchars { name, chars } => write!(f, "noemphchars {} {}", name, chars),
+            Rule::Emphletter { name, dots } => write!(f, "emphletter {} {}", name, dots),
+            Rule::Begemphword { name, dots } => write!(f, "begemphword {} {}", name, dots),
+            Rule::Endemphword { name, dots } => write!(f, "endemphword {} {}", name, dots),
+            Rule::Emphmodechars { name, chars } => write!(f, "emphmodechars {} {}", name, chars),
+            Rule::Begemphphrase { name, dots } => write!(f, "begemphphrase {} {}", name, dots),
+            Rule::Endemphphrase {
+                name,
+                dots,
+                position,
+            } => write!(f, "endemphphrase {} {} {}", name, position, dots),
+            Rule::Lenemphphrase { name, number } => {
+                write!(f, "lenemphphrase {} {}", name, number)
+            }
+            Rule::Begcomp { dots, .. } => write!(f, "begcomp {}", dots),
+            Rule::Endcomp { dots, .. } => write!(f, "endcomp {}", dots),
+            Rule::Nocont { chars } => write!(f, "nocont {}", chars),
+            Rule::Replace { chars, replacement } => match replacement {
+                Some(replacement) => write!(f, "replace {} {}", chars, replacement),
+                None => write!(f, "replace {}", chars),
+            },
+            Rule::Repeated { chars, dots, .. } => write!(f, "repeated {} {}", chars, dots),
+            Rule::Repword { chars, dots } => write!(f, "repword {} {}", chars, dots),
+            Rule::Rependword { chars, dots, other } => {
+                write!(f, "rependword {} {},{}", chars, dots, other)
+            }
+            Rule::Syllable { chars, dots } => write!(f, "syllable {} {}", chars, dots),
+            Rule::Joinword { chars, dots } => write!(f, "joinword {} {}", chars, dots),
+            Rule::Lowword { chars, dots, .. } => write!(f, "lowword {} {}", chars, dots),
+            Rule::Exactdots { chars } => write!(f, "exactdots {}", chars),
+            Rule::Joinnum { chars, dots, .. } => write!(f, "joinnum {} {}", chars, dots),
+            Rule::Swapcd { name, chars, dots } => {
+                write!(f, "swapcd {} {} {}", name, chars, comma_separated(dots))
+            }
+            Rule::Swapdd {
+                name,
+                dots,
+                replacement,
+            } => write!(
+                f,
+                "swapdd {} {} {}",
+                name,
+                dots,
+                comma_separated(replacement)
+            ),
+            Rule::Swapcc {
+                name,
+                chars,
+                replacement,
+            } => write!(f, "swapcc {} {} {}", name, chars, replacement),
         }
     }
 }
 
+/// The cells of a swap rule the way they are written in a table
+fn comma_separated(dots: &[BrailleChars]) -> String {
+    let dots: Vec<_> = dots.iter().map(|d| d.to_string()).collect();
+    dots.join(",")
+}
+
 /// A trait to query the direction of a [`Rule`].
 pub trait HasDirection {
     /// Returns the set of directions associated with this Rule.
@@ -1091,6 +1194,15 @@ pub enum Position {
     After,
 }
 
+impl std::fmt::Display for Position {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Position::Before => write!(f, "before"),
+            Position::After => write!(f, "after"),
+        }
+    }
+}
+
 #[derive(PartialEq, Debug)]
 pub enum EscapingContext {
     Default,
-- 
2.43.0


From c942ba531322daa4f8ea6f5a699d8d825944e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:21 +0000
Subject: [PATCH 6/6] fix: a search path that is not valid unicode is not
 ignored

---
 src/metadata.rs |  4 +---
 src/parser.rs   | 15 ++++++++++++++-
 src/test.rs     |  6 ++----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index b04d009..c8da45f 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -10,8 +10,6 @@ pub enum MetaDataError {
     IoError(#[from] std::io::Error),
 }
 
-use search_path::SearchPath;
-
 type Query = Vec<(String, String)>;
 
 type Index = HashMap<(String, String), HashSet<PathBuf>>;
@@ -32,7 +30,7 @@ pub fn find(index: &Index, query: Query) -> BTreeSet<&PathBuf> {
 }
 
 pub fn index() -> Result<Index, MetaDataError> {
-    let search_path = &SearchPath::new_or("LOUIS_TABLE_PATH", ".");
+    let search_path = &crate::parser::table_search_path();
 
     let mut index: Index = HashMap::new();
 
diff --git a/src/parser.rs b/src/parser.rs
index 725bc20..7c1647c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2516,6 +2516,19 @@ pub enum TableError {
 /// (but acyclic) chain of includes -- cyclic ones are caught earlier, by [`TableError::CircularInclude`].
 const MAX_INCLUDE_DEPTH: usize = 64;
 
+/// The directories of `LOUIS_TABLE_PATH`, or the working directory if it is not set.
+///
+/// In contrast to [`SearchPath::new_or`] the value does not have to be valid unicode.
+pub fn table_search_path() -> SearchPath {
+    match std::env::var_os("LOUIS_TABLE_PATH") {
+        Some(dirs) => std::env::split_paths(&dirs)
+            .filter(|dir| !dir.to_string_lossy().trim().is_empty())
+            .collect::<Vec<_>>()
+            .into(),
+        None => ".".into(),
+    }
+}
+
 /// A [`Rule`] combined with information about which table file it originated from.
 #[derive(PartialEq, Debug, Clone)]
 pub struct AnchoredRule {
@@ -2604,7 +2617,7 @@ pub fn table_file(path: &Path) -> Result<Vec<AnchoredRule>, Vec<TableError>> {
 }
 
 pub fn table_expanded(file: &Path) -> Result<Vec<AnchoredRule>, Vec<TableError>> {
-    let search_path = SearchPath::new_or("LOUIS_TABLE_PATH", ".");
+    let search_path = table_search_path();
     table_expanded_with(file, &search_path, &[])
 }
 
diff --git a/src/test.rs b/src/test.rs
index 0a24bd5..d49bb72 100644
--- a/src/test.rs
+++ b/src/test.rs
@@ -5,8 +5,6 @@ use std::{collections::HashMap, path::PathBuf};
 use enumset::EnumSet;
 use rayon::prelude::*;
 
-use search_path::SearchPath;
-
 use crate::{
     emphasis::EmphasisSpan,
     parser::{self, Direction, TableError},
@@ -104,7 +102,7 @@ impl<'a> TestMatrix<'a> {
     }
 
     fn display_table(&self, direction: Direction) -> Result<DisplayTable, TestError> {
-        let search_path = SearchPath::new_or("LOUIS_TABLE_PATH", ".");
+        let search_path = parser::table_search_path();
         let display_rules = match self.display {
             Some(Display::Simple(path)) => parser::table_expanded(path.as_path())?,
             Some(Display::Inline(text)) => {
@@ -128,7 +126,7 @@ impl<'a> TestMatrix<'a> {
         table: &Table,
         direction: Direction,
     ) -> Result<TranslationPipeline, TestError> {
-        let search_path = SearchPath::new_or("LOUIS_TABLE_PATH", ".");
+        let search_path = parser::table_search_path();
         let rules = match table {
             Table::Simple(path) => parser::table_expanded(path.as_path())?,
             Table::List(paths) => {
-- 
2.43.0

