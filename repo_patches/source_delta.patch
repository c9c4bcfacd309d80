From 881c0dfa7c6e95bdf2a992adb58ef692fba97f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 1/3] fix: do not count a peeked chunk in the lower bound of
 Decomposer::size_hint

A chunk peeked by next_no_decomposition can be empty or only commas, in
which case next() skips it, so it must not be counted as an item.
---
 src/decompose/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index e127d8c..71d43be 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -140,12 +140,8 @@ impl<'input> Iterator for Decomposer<'input> {
 	}
 
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let lower = self
-			.current_chunk
-			.as_slice()
-			.len()
-			.saturating_add(self.chunks.size_hint().0);
-		(lower, None)
+		// a remaining chunk, even one that has already been peeked, might be empty or only commas and thus yield no words.
+		(self.current_chunk.as_slice().len(), None)
 	}
 }
 
-- 
2.43.0


From 5b461b21c266e4116263f137885ff530d66ae25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 2/3] fix: restore the rule nesting level when a rule is left
 by unwinding

A panic out of the logger (or a failed allocation that unwinds) inside a
rule left PARSER_LEVEL incremented, so every later trace record on that
thread was indented too deep.
---
 src/rules.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 3a16a55..124f0c1 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -9,13 +9,25 @@ std::thread_local! {
 	pub static PARSER_LEVEL: Cell<usize> = Cell::new(0);
 }
 
+/// Restores the level of the surrounding rule when dropped, so that it is also restored when a rule is left by unwinding (e.g., out of a logger).
+struct LevelGuard(usize);
+
+impl LevelGuard {
+	fn enter() -> Self {
+		PARSER_LEVEL.with(|level| Self(level.replace(level.get() + 1)))
+	}
+}
+
+impl Drop for LevelGuard {
+	fn drop(&mut self) {
+		PARSER_LEVEL.with(|level| level.set(self.0));
+	}
+}
+
 macro_rules! debug_rule_start {
 	($name:expr) => {
-		PARSER_LEVEL.with(|stack| {
-			let name = $name;
-			let level = stack.replace(stack.get() + 1);
-			log::trace!("{:width$ }entering {name:?} rule", "", width = level * 2);
-		})
+		let guard = LevelGuard::enter();
+		log::trace!("{:width$ }entering {:?} rule", "", $name, width = guard.0 * 2);
 	};
 }
 
-- 
2.43.0


From 1624d157be33eec80ee1e9541a7c8b06f8303c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 3/3] fix: only accept quote tokens as the parts of a ZOI quote

The parts of a ZOI sumti accepted any token, so after an empty quote
("zoi gy gy") the closing delimiter was taken as the text and whatever
word came next as the closing delimiter, dropping its class and its
experimental mark from the tree. Require delimiters and text, and let the
text be absent.
---
 src/parse/cst/rules/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index 21db66e..a9621b9 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -6,7 +6,6 @@ use bumpalo::Bump as Arena;
 use macros::{Parse, TreeNode};
 
 use crate::lex::{Selmaho, Token};
-use crate::span::Span;
 
 pub mod connectives;
 mod helpers;
@@ -870,13 +869,14 @@ pub struct ZoSumti {
 pub struct ZoiSumti {
 	pub zoi: Zoi,
 	pub starting_delimiter: ZoiDelimiter,
-	pub text: ZoiText,
+	pub text: Option<ZoiText>,
 	pub ending_delimiter: ZoiDelimiter,
 }
 
 #[derive(Debug, Parse)]
 #[repr(transparent)]
-pub struct ZoiDelimiter(Span);
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::ZoiDelimiter")]
+pub struct ZoiDelimiter(Token);
 
 impl TreeNode for ZoiDelimiter {
 	fn name(&self) -> &'static str {
@@ -888,18 +888,19 @@ impl TreeNode for ZoiDelimiter {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
 }
 
 #[derive(Debug, Parse)]
-pub struct ZoiText(Span);
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::AnyText")]
+pub struct ZoiText(Token);
 
 impl TreeNode for ZoiText {
 	fn name(&self) -> &'static str {
@@ -911,11 +912,11 @@ impl TreeNode for ZoiText {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
-- 
2.43.0

