From 4bb92358919869410715092ac4fde7466d2d4ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 1/3] fix: show positions at the end of the u32 range without
 overflow

---
 crates/text-pos/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index e70186a..897d5bb 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -161,7 +161,7 @@ pub struct PositionUtf16 {
 
 impl fmt::Display for PositionUtf16 {
   fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-    write!(f, "{}:{}", self.line + 1, self.col + 1)
+    write!(f, "{}:{}", u64::from(self.line) + 1, u64::from(self.col) + 1)
   }
 }
 
@@ -187,7 +187,7 @@ impl RangeUtf16 {
 impl fmt::Display for RangeUtf16 {
   fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
     if self.start.line == self.end.line {
-      write!(f, "{}-{}", self.start, self.end.col + 1)
+      write!(f, "{}-{}", self.start, u64::from(self.end.col) + 1)
     } else {
       write!(f, "{}-{}", self.start, self.end)
     }
-- 
2.43.0


From 1649d03baad587c490eab8db692f6b3d57ee5a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:39 +0000
Subject: [PATCH 2/3] fix: refuse columns past the end of the line or inside a
 character

`LineIndex::offset` only adds the start of the line and the column, so a
position past the end of its line, past the end of the text or inside a
surrogate pair was given an offset (or overflowed), and `apply-changes`
then replaced the wrong text or panicked.
---
 crates/text-pos/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index 897d5bb..fefa79c 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -66,8 +66,9 @@ impl PositionDb {
   }
 
   fn text_size_utf8(&self, pos: PositionUtf8) -> Option<TextSize> {
-    let lc = line_index::LineCol { line: pos.line, col: pos.col };
-    self.inner.offset(lc)
+    let text_size = self.inner.line(pos.line)?.start().checked_add(pos.col.into())?;
+    // the column may be past the end of the line, or inside of a character.
+    if self.position_utf8(text_size)? == pos { Some(text_size) } else { None }
   }
 
   fn range_utf8(&self, text_range: TextRange) -> Option<RangeUtf8> {
-- 
2.43.0


From a48058c317a92218433ff8ef6e50b0888ce99c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 3/3] fix: decide whether a node is empty by the tokens
 consumed in it

---
 crates/event-parse/src/lib.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 5a5d6bf..9f7ab93 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -31,13 +31,16 @@ use token::{Token, Triviable};
 pub struct Parser<'a, K, E> {
   tokens: &'a [Token<'a, K>],
   tok_idx: usize,
+  /// The number of tokens consumed. Unlike `tok_idx`, this does not count trivia, which we may have merely
+  /// looked past.
+  bumped: usize,
   events: Vec<Option<Event<K, E>>>,
 }
 
 impl<'a, K, E> Parser<'a, K, E> {
   /// Returns a new parser for the given tokens.
   pub fn new(tokens: &'a [Token<'a, K>]) -> Self {
-    Self { tokens, tok_idx: 0, events: Vec::new() }
+    Self { tokens, tok_idx: 0, bumped: 0, events: Vec::new() }
   }
 
   /// Starts parsing a syntax construct.
@@ -62,7 +65,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn enter(&mut self) -> Entered {
     let ev_idx = self.events.len();
     self.events.push(None);
-    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, tok_idx: self.tok_idx }
+    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, bumped: self.bumped }
   }
 
   /// Abandons parsing a syntax construct.
@@ -89,7 +92,7 @@ impl<'a, K, E> Parser<'a, K, E> {
     assert!(ev.is_none());
     *ev = Some(Event::Enter(kind, None));
     self.events.push(Some(Event::Exit));
-    Exited { ev_idx: en.ev_idx, is_empty: self.tok_idx == en.tok_idx }
+    Exited { ev_idx: en.ev_idx, bumped: en.bumped, is_empty: self.bumped == en.bumped }
   }
 
   /// Starts parsing a syntax construct and makes it the parent of the given
@@ -104,7 +107,9 @@ impl<'a, K, E> Parser<'a, K, E> {
   ///
   /// On internal error.
   pub fn precede(&mut self, ex: Exited) -> Entered {
-    let ret = self.enter();
+    let mut ret = self.enter();
+    // the new node also contains everything in the preceded node.
+    ret.bumped = ex.bumped;
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
@@ -142,7 +147,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// }
   /// ```
   pub fn save(&self) -> Save {
-    Save { tok_idx: self.tok_idx, events_len: self.events.len() }
+    Save { tok_idx: self.tok_idx, bumped: self.bumped, events_len: self.events.len() }
   }
 
   /// Returns whether there were _no_ errors since the save, i.e. whether we did
@@ -153,6 +158,7 @@ impl<'a, K, E> Parser<'a, K, E> {
       self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
     if error_since {
       self.tok_idx = save.tok_idx;
+      self.bumped = save.bumped;
       self.events.truncate(save.events_len);
     }
     !error_since
@@ -210,6 +216,7 @@ where
     let ret = self.peek().expect("bump with no tokens");
     self.events.push(Some(Event::Token));
     self.tok_idx += 1;
+    self.bumped += 1;
     ret
   }
 
@@ -336,7 +343,7 @@ where
 pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
-  tok_idx: usize,
+  bumped: usize,
 }
 
 /// A marker for a syntax construct that has been fully parsed.
@@ -358,6 +365,7 @@ pub struct Entered {
 #[derive(Debug, Clone, Copy)]
 pub struct Exited {
   ev_idx: usize,
+  bumped: usize,
   is_empty: bool,
 }
 
@@ -374,6 +382,7 @@ impl Exited {
 #[must_use]
 pub struct Save {
   tok_idx: usize,
+  bumped: usize,
   events_len: usize,
 }
 
-- 
2.43.0

