From 7976973a311a0214318c08a8e564e330bb33989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:49 +0000
Subject: [PATCH 1/9] fix: stepping a DFA evaluator over no symbols reports no
 state once an unknown symbol was read

---
 dandy/src/dfa/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy/src/dfa/eval.rs b/dandy/src/dfa/eval.rs
index cda16c6..8738e0e 100644
--- a/dandy/src/dfa/eval.rs
+++ b/dandy/src/dfa/eval.rs
@@ -61,7 +61,7 @@ impl<'a> DfaEvaluator<'a> {
                 self.unknown_elem_seen = true;
                 None
             }
-            Some(_) => Some(&self.dfa.states[self.current_state]),
+            Some(_) => self.current_state(),
         }
     }
 }
-- 
2.43.0


From 7f785e2e9d7d594ccb5e0c1083cae3fce0f2f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 2/9] fix: escape every printed regex symbol that starts with a
 reserved character

Symbols such as an escaped epsilon, an escaped empty set or a reserved character
with a combining mark are longer than one byte and were printed unescaped, so that
the printed expression read back as another one.
---
 dandy/src/regex/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 9f282bb..5440247 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -194,10 +194,7 @@ impl Regex {
                     acc.push('∅');
                 }
                 RegexChar::Grapheme(g) => {
-                    if g.len() == 1
-                        && ['(', ')', '∅', 'ε', '|', '*', '+', '\\']
-                            .contains(&g.chars().next().unwrap())
-                    {
+                    if g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\']) {
                         acc.push('\\');
                         acc.push_str(g);
                     } else {
-- 
2.43.0


From 628e1c024d29e42f83ebb775fb604018cf97f611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 3/9] fix: keep whitespace symbols at either end of a printed
 regex

The parser ignores initial and trailing whitespace, so an expression that starts or
ends with an escaped or grouped blank lost it when its printed form was read back.
---
 dandy/src/regex/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 5440247..77ff820 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -158,7 +158,12 @@ impl Regex {
     pub fn to_string(&self) -> String {
         let mut acc = String::new();
         Self::build_string(&self.tree, &mut acc);
-        acc
+        if acc.trim() == acc {
+            acc
+        } else {
+            // initial and trailing whitespace is not part of an expression
+            format!("({acc})")
+        }
     }
 
     fn build_string(tree: &RegexTree, acc: &mut String) {
-- 
2.43.0


From 0998079fe4cb97e88f899f46693182e470a239e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 4/9] fix: keep printed regex symbols apart that would form one
 grapheme cluster

Two symbols made adjacent by printing, say two regional indicators of which the
second was escaped or grouped, read back as a single symbol.
---
 dandy/src/regex/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 77ff820..099c771 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -55,6 +55,7 @@ use crate::nfa::{Nfa, NfaState};
 use std::collections::HashMap;
 use std::iter;
 use std::rc::Rc;
+use unicode_segmentation::UnicodeSegmentation;
 
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Regex {
@@ -199,11 +200,19 @@ impl Regex {
                     acc.push('∅');
                 }
                 RegexChar::Grapheme(g) => {
+                    let last = acc.graphemes(true).next_back().unwrap_or_default();
                     if g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\']) {
                         acc.push('\\');
                         acc.push_str(g);
+                    } else if last.is_empty()
+                        || format!("{last}{g}").graphemes(true).next() == Some(last)
+                    {
+                        acc.push_str(g);
                     } else {
+                        // written next to each other, the two would be one grapheme cluster
+                        acc.push('(');
                         acc.push_str(g);
+                        acc.push(')');
                     }
                 }
             },
-- 
2.43.0


From 55dc36c52a4b6df034b9b1d125731eb85169e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:38 +0000
Subject: [PATCH 5/9] fix: end every result written to the output file with a
 line break

The sink printed results line by line to the terminal but wrote them to the file
given with --out without anything between them.
---
 dandy-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index 275fdd8..afd9299 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -298,7 +298,7 @@ fn main() {
     let mut sink = |s: &str| {
         println!("{s}");
         if let Some(f) = out_file.as_mut() {
-            f.write_all(s.as_bytes()).unwrap();
+            writeln!(f, "{s}").unwrap();
         };
     };
 
-- 
2.43.0


From b70f7d27c9af9b34d7ad1c283455fb7309fe9bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:39 +0000
Subject: [PATCH 6/9] fix: print absolute paths with at most the requested
 number of components

Collecting the components in reverse put the root directory last, which replaced the
rest of the path, so that such a file was listed as '/'.
---
 dandy-cli/src/main.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index afd9299..c6029e3 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -349,10 +349,9 @@ pub fn last_n_components(path: &Path, n: Option<usize>) -> Option<String> {
         return Some(path.display().to_string());
     };
     (n != 0).then(|| {
-        let new_path = path.components().rev().take(n).collect::<PathBuf>();
-        new_path
-            .components()
-            .rev()
+        let components = path.components().collect::<Vec<_>>();
+        components[components.len().saturating_sub(n)..]
+            .iter()
             .collect::<PathBuf>()
             .display()
             .to_string()
-- 
2.43.0


From 12dc200918f3783a75f1486c2f97997e9813026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 7/9] fix: draw the entry arrow from the left only if the first
 state is initial

It was drawn in any case, so that an automaton whose initial state is not its first
one was shown with two initial states.
---
 dandy-draw/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 7726f2a..49aacdf 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -186,8 +186,7 @@ fn draw<'a>(
 
     drawer.start_drawing();
     // draw arrow
-    // FIXME: This assumes first is initial, which isn't always the case
-    {
+    if states.first().is_some_and(|state| state.initial) {
         drawer.set_color(opts.line_color);
         let arrow_base = pos2(opts.init_arrow_length, circle_center);
         drawer.draw_line(pos2(0.0, circle_center), arrow_base, opts.init_arrow_width);
-- 
2.43.0


From 39bbb8c94521599db0b930895a91bd11988248f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 8/9] fix: text drawings no longer fail on long or non-ASCII
 arrow labels

Labels were placed by byte ranges counted in characters, past the end of the line if
need be. They are now cut to the room between the two ends of their arrow.
---
 dandy-draw/src/lib.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 49aacdf..c1b1541 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -416,17 +416,20 @@ fn ascii_art<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>) -> String {
             .for_each(|arrow| {
                 // copy label
                 if arrow.arrow.left != arrow.arrow.right {
-                    // Note that label can be non-ascii (as for ε), so make sure we replace correct amnt of spaces
+                    // Note that label can be non-ascii (as for ε), so make sure we replace chars rather than bytes, and
+                    // no more of them than fit between the two ends of the arrow
+                    let start = right_x_idx(arrow.arrow.left) + 1;
+                    let room = left_x_idx(arrow.arrow.right) - start;
                     let label = arrow.arrow.label();
-                    let range = {
-                        // We need to replace the nth *char* which is not necessarily same as the nth byte (we could
-                        // have inserted labels to the left)
-                        let start = right_x_idx(arrow.arrow.left);
-                        let start = bot_line.char_indices().nth(start).unwrap().0;
-                        // We need to replace equally many spaces as the label has (visible) chars
-                        start + 1..start + label.chars().count() + 1
-                    };
-                    bot_line.replace_range(range, &label);
+                    let label = label.chars().take(room).collect::<Vec<_>>();
+                    bot_line = bot_line
+                        .chars()
+                        .enumerate()
+                        .map(|(x, c)| match x.checked_sub(start) {
+                            Some(i) if i < label.len() => label[i],
+                            _ => c,
+                        })
+                        .collect();
                 } else {
                     // Space is tight, so don't print this
                     // let label = arrow.arrow.label();
-- 
2.43.0


From fd33968a4dfac46cb61f4f6025cb7e7d9a2591bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 9/9] fix: draw a symbol once when a successor is listed twice

---
 dandy-draw/src/lib.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index c1b1541..1ffa9b9 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -473,19 +473,25 @@ fn nfa_to_arrows(nfa: &Nfa) -> Vec<Arrow> {
                 .iter()
                 .enumerate()
                 .flat_map(move |(idx, tos)| {
-                    tos.iter()
-                        .map(move |to| Arrow::new(from, *to, &nfa.alphabet()[idx]))
+                    distinct(tos).map(move |to| Arrow::new(from, to, &nfa.alphabet()[idx]))
                 })
                 .chain(
-                    state
-                        .epsilon_transitions()
-                        .iter()
-                        .map(move |to| Arrow::new(from, *to, "ε")),
+                    distinct(state.epsilon_transitions())
+                        .map(move |to| Arrow::new(from, to, "ε")),
                 )
         })
         .collect()
 }
 
+/// The targets in order, without those that are listed again
+fn distinct(targets: &[usize]) -> impl Iterator<Item = usize> + '_ {
+    targets
+        .iter()
+        .enumerate()
+        .filter(|(idx, to)| !targets[..*idx].contains(to))
+        .map(|(_, to)| *to)
+}
+
 fn place_arrows<'a, T: ArrowLike<'a>>(arrows: Vec<T>) -> (Vec<PlacedArrow<'a, T>>, usize) {
     let mut unplaced = arrows;
     unplaced.sort_by_key(|arrow| usize::MAX - arrow.right()); // sort in reverse order
-- 
2.43.0

