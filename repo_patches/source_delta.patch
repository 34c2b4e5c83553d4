From 3f6449524e4ceb5b5ed171bd8059a3231b69aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 1/4] fix: good_levels checks the level convention the builders
 keep (left < node, right <= node)

---
 src/level_tree.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/level_tree.rs b/src/level_tree.rs
index f4547f5..0c25d54 100644
--- a/src/level_tree.rs
+++ b/src/level_tree.rs
@@ -212,21 +212,21 @@ Tree<E> {
 /// ```
 ///
 /// checks that the levels of the tree follow the convention
-/// of non-increasing to the left branch and decreasing to the
+/// of decreasing to the left branch and non-increasing to the
 /// right branch
 ///
 /// also prints the levels of the failing trees and branches
 pub fn good_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool {
 	let mut good = true;
 	if let Some(ref t) = force(&tree.link).l_branch {
-		if t.level > tree.level {
+		if t.level >= tree.level {
 			println!("Tree with level {:?} has left branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
 		if !good_levels(t) { good = false }
 	}
 	if let Some(ref t) = force(&tree.link).r_branch {
-		if t.level >= tree.level {
+		if t.level > tree.level {
 			println!("Tree with level {:?} has right branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
-- 
2.43.0


From afb14cfc4716521269827f09900a2312a97bcef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 2/4] fix: peek_left/peek_right do not rebuild (and overwrite
 named) tree nodes

---
 src/raz.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raz.rs b/src/raz.rs
index 5fc57d3..116591c 100644
--- a/src/raz.rs
+++ b/src/raz.rs
@@ -571,7 +571,7 @@ Raz<E,M> {
 	pub fn peek_left(&self) -> Option<E> {
 		if self.l_stack.is_empty() {
 			let mut peek_forest = self.l_forest.clone();
-			if peek_forest.up() == tree::UpResult::Fail { return None } else {
+			if peek_forest.up_discard() == tree::UpResult::Fail { return None } else {
 				peek_forest.down_left();
 				while peek_forest.down_right() {}
 				match peek_forest.peek() {
@@ -585,7 +585,7 @@ Raz<E,M> {
 	pub fn peek_right(&self) -> Option<E> {
 		if self.r_stack.is_empty() {
 			let mut peek_forest = self.r_forest.clone();
-			if peek_forest.up() == tree::UpResult::Fail { return None } else {
+			if peek_forest.up_discard() == tree::UpResult::Fail { return None } else {
 				peek_forest.down_right();
 				while peek_forest.down_left() {}
 				match peek_forest.peek() {
-- 
2.43.0


From 9281a74fdade397e12e1751f519c00cee32e40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 3/4] fix: memo_from of an archive stack with an empty active
 section builds no empty leaf

---
 src/raz.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raz.rs b/src/raz.rs
index 116591c..bc2e45a 100644
--- a/src/raz.rs
+++ b/src/raz.rs
@@ -761,6 +761,8 @@ for RazTree<E,M> {
 			}
 		}
 		let mut tailstack = tailstack.0.clone();
+		// an empty active section has no leaf, only archived data does
+		if tailstack.active_len() == 0 { tailstack.next_archive(); }
 		let name = tailstack.name();
 		let (level, first_tree) = match tailstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
@@ -837,6 +839,8 @@ for RazTree<E,M> {
 			}
 		}
 		let mut headstack = headstack.0.clone();
+		// an empty active section has no leaf, only archived data does
+		if headstack.active_len() == 0 { headstack.next_archive(); }
 		let name = headstack.name();
 		let (level, first_tree) = match headstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
-- 
2.43.0


From a8d5a5634c5596a6768d3f2272d990ebdb37a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:54 +0000
Subject: [PATCH 4/4] fix: memo_from names tree nodes apart from the archive
 cells they come from

---
 src/raz.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/raz.rs b/src/raz.rs
index bc2e45a..56f0ee6 100644
--- a/src/raz.rs
+++ b/src/raz.rs
@@ -749,7 +749,9 @@ for RazTree<E,M> {
 					(stack,Some(lev),next_name,leaf_tree)
 				},
 			};
-			let new_tree = bin(small_tree, first_level, first_name, accum_tree);
+			// the name itself is taken by the archive, so name the tree as `unfocus` does
+			let tree_name = first_name.map(|n|name_pair(n,name_of_string(String::from("tree"))));
+			let new_tree = bin(small_tree, first_level, tree_name, accum_tree);
 			match final_level {
 				None =>
 					(stack::AStack::new(), None, None, new_tree),
@@ -827,7 +829,9 @@ for RazTree<E,M> {
 					(stack,Some(lev),next_name,leaf_tree)
 				},
 			};
-			let new_tree = bin(accum_tree, first_level, first_name, small_tree);
+			// the name itself is taken by the archive, so name the tree as `unfocus` does
+			let tree_name = first_name.map(|n|name_pair(n,name_of_string(String::from("tree"))));
+			let new_tree = bin(accum_tree, first_level, tree_name, small_tree);
 			match final_level {
 				None =>
 					(stack::AStack::new(), None, None, new_tree),
-- 
2.43.0

