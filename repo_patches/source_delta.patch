From ead6bdafb530ad7ce033b46c7bfdb091733a541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 01/23] fix: report the marks of text nodes

MarkdownNode::marks always returned None, so AddMarkStep discarded every
other mark of the text it touched, RemoveMarkStep cleared all marks, and
marks inside code blocks passed the content check.
---
 src/markdown/mod.rs    | 2 +-
 src/markdown/schema.rs | 4 ++--
 src/model/marks.rs     | 5 +++++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/markdown/mod.rs b/src/markdown/mod.rs
index 55d5e8e..684ef91 100644
--- a/src/markdown/mod.rs
+++ b/src/markdown/mod.rs
@@ -138,7 +138,7 @@ impl Node<MD> for MarkdownNode {
     }
 
     fn marks(&self) -> Option<&MarkSet<MD>> {
-        None
+        self.text_node().map(|node| &node.marks)
     }
 
     fn mark(&self, set: MarkSet<MD>) -> Self {
diff --git a/src/markdown/schema.rs b/src/markdown/schema.rs
index d224ea8..93867c8 100644
--- a/src/markdown/schema.rs
+++ b/src/markdown/schema.rs
@@ -61,8 +61,8 @@ impl MarkdownNodeType {
 }
 
 impl NodeType<MD> for MarkdownNodeType {
-    fn allow_marks(self, _marks: &MarkSet<MD>) -> bool {
-        self._allow_marks()
+    fn allow_marks(self, marks: &MarkSet<MD>) -> bool {
+        marks.is_empty() || self._allow_marks()
     }
 
     fn allows_mark_type(self, _mark_type: MarkdownMarkType) -> bool {
diff --git a/src/model/marks.rs b/src/model/marks.rs
index 54f128b..ce5f1e4 100644
--- a/src/model/marks.rs
+++ b/src/model/marks.rs
@@ -19,6 +19,11 @@ pub struct MarkSet<S: Schema> {
 }
 
 impl<S: Schema> MarkSet<S> {
+    /// Check whether the set contains no marks
+    pub fn is_empty(&self) -> bool {
+        self.content.is_empty()
+    }
+
     /// Check whether the set contains this exact mark
     pub fn contains(&self, mark: &S::Mark) -> bool {
         self.content.contains(mark)
-- 
2.43.0


From c6e3e1bee8116befa5bde1b5852dc4ec425974b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 02/23] fix: only remove the very mark that was asked for

remove_from_set and MarkSet::remove dropped any mark of the same type, so
removing one link removed links to other targets.
---
 src/model/marks.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/model/marks.rs b/src/model/marks.rs
index ce5f1e4..fb9067c 100644
--- a/src/model/marks.rs
+++ b/src/model/marks.rs
@@ -53,7 +53,9 @@ impl<S: Schema> MarkSet<S> {
             .binary_search_by_key(&mark.r#type(), Mark::r#type)
         {
             Ok(index) => {
-                self.content.remove(index);
+                if &self.content[index] == mark {
+                    self.content.remove(index);
+                }
             }
             Err(_index) => {}
         }
@@ -142,12 +144,12 @@ pub trait Mark<S: Schema<Mark = Self>>:
             .content
             .binary_search_by_key(&self.r#type(), Mark::r#type)
         {
-            Ok(index) => {
+            Ok(index) if &set.content[index] == self => {
                 let mut owned_set = set.into_owned();
                 owned_set.content.remove(index);
                 Cow::Owned(owned_set)
             }
-            Err(_index) => set,
+            _ => set,
         }
     }
 
-- 
2.43.0


From 199501b00aeb75d02a9c7d8a4cdb1c454d55833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 03/23] fix: refuse reversed ranges instead of panicking

A step whose end lies before its start hit an assertion or an integer
underflow and took the whole process down.
---
 src/model/node.rs             | 7 ++++++-
 src/transform/replace_step.rs | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index 80869ac..6a27383 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -126,6 +126,9 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         if from == to {
             return Ok(Slice::default());
         }
+        if to < from {
+            return Err(ResolveErr::RangeError { pos: to }.into());
+        }
 
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
@@ -163,7 +166,9 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         let to = util::to(&range, self.node_size());
         // FIXME: this max value is my guess, that needs to be tested out
 
-        assert!(to >= from, "replace: {} >= {}", to, from);
+        if to < from {
+            return Err(ResolveErr::RangeError { pos: to }.into());
+        }
 
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 09aa666..02f5391 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -78,7 +78,9 @@ impl<S: Schema> StepKind<S> for ReplaceAroundStep<S> {
 
 fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<bool, ResolveErr> {
     let rp_from = doc.resolve(from)?;
-    let mut dist = to - from;
+    let mut dist = to
+        .checked_sub(from)
+        .ok_or(ResolveErr::RangeError { pos: to })?;
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From 3c4830b1b34a8e696da8bb30c9978c1cbf819201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 04/23] fix: refuse slices that are open deeper than the end of
 the range

The subtraction underflowed when open_end exceeded the depth at the end.
---
 src/model/replace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 7986df4..4586316 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -140,7 +140,7 @@ pub(crate) fn replace<S: Schema>(
 ) -> Result<S::Node, ReplaceError<S>> {
     if slice.open_start > rp_from.depth {
         Err(ReplaceError::InsertTooDeep)
-    } else if rp_from.depth - slice.open_start != rp_to.depth - slice.open_end {
+    } else if rp_to.depth.checked_sub(slice.open_end) != Some(rp_from.depth - slice.open_start) {
         Err(ReplaceError::InconsistentOpenDepths {
             from_depth: rp_from.depth,
             open_start: slice.open_start,
-- 
2.43.0


From c7cd708f545fe8ea90077076ef917bf5f9e943f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 05/23] fix: refuse slices whose content is shallower than
 their open depths

Such a slice, e.g. a bare text opened one level deep, made the replace
index past the end of the resolved path and panic.
---
 src/model/replace.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 4586316..30cf3a5 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -125,6 +125,8 @@ pub enum ReplaceError<S: Schema> {
         /// How many nodes are "open" at the end
         open_end: usize,
     },
+    /// The content of the slice is not as deep as its open depths
+    InvalidOpenDepths,
     /// Could not resolve an index
     Resolve(#[from] ResolveErr),
     /// Cannot join {0:?} onto {1:?}
@@ -133,6 +135,22 @@ pub enum ReplaceError<S: Schema> {
     InvalidContent(S::NodeType),
 }
 
+/// Check whether there are at least `depth` nested non-leaf nodes along the child
+/// that `pick` picks at each level.
+fn has_depth<'a, S: Schema>(
+    mut content: &'a Fragment<S>,
+    depth: usize,
+    pick: fn(&'a Fragment<S>) -> Option<&'a S::Node>,
+) -> bool {
+    for _ in 0..depth {
+        match pick(content).and_then(|node| node.content()) {
+            Some(inner) => content = inner,
+            None => return false,
+        }
+    }
+    true
+}
+
 pub(crate) fn replace<S: Schema>(
     rp_from: &ResolvedPos<S>,
     rp_to: &ResolvedPos<S>,
@@ -147,6 +165,10 @@ pub(crate) fn replace<S: Schema>(
             to_depth: rp_to.depth,
             open_end: slice.open_end,
         })
+    } else if !has_depth(&slice.content, slice.open_start, Fragment::first_child)
+        || !has_depth(&slice.content, slice.open_end, Fragment::last_child)
+    {
+        Err(ReplaceError::InvalidOpenDepths)
     } else {
         replace_outer(rp_from, rp_to, slice, 0)
     }
-- 
2.43.0


From 12af8703881c92a29e0e0c226b91bb9ffbe1fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 06/23] fix: refuse positions inside a surrogate pair instead
 of panicking

Positions count utf-16 units, so a step from another party may point
between the two halves of a character; splitting the text there panicked.
---
 src/model/fragment.rs     |  2 ++
 src/model/replace.rs      |  7 ++++++-
 src/model/resolved_pos.rs | 12 ++++++++++--
 src/model/util.rs         | 14 ++++++++++++++
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/model/fragment.rs b/src/model/fragment.rs
index 55b9187..02643da 100644
--- a/src/model/fragment.rs
+++ b/src/model/fragment.rs
@@ -10,6 +10,8 @@ use thiserror::Error;
 pub enum IndexError {
     /// Index is out of bounds {0}
     OutOfBounds(usize),
+    /// Index is in the middle of a character {0}
+    SplitsCharacter(usize),
 }
 
 /// A fragment represents a node's collection of child nodes.
diff --git a/src/model/replace.rs b/src/model/replace.rs
index 30cf3a5..ecd8241 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Index};
+use super::{fragment::IndexError, util, Index};
 use crate::model::{ContentMatchError, Fragment, Node, NodeType, ResolveErr, ResolvedPos, Schema};
 use crate::util::EitherOrBoth;
 use derivative::Derivative;
@@ -72,6 +72,11 @@ fn insert_into<S: Schema>(
 ) -> Result<Option<Fragment<S>>, InsertError> {
     let Index { index, offset } = content.find_index(dist, false)?;
     let child = content.maybe_child(index);
+    if let Some(text_node) = child.and_then(|c| c.text_node()) {
+        if !util::is_utf16_boundary(text_node.text.as_str(), dist - offset) {
+            return Err(IndexError::SplitsCharacter(dist).into());
+        }
+    }
     if offset == dist || matches!(child, Some(c) if c.is_text()) {
         if let Some(p) = parent {
             if !p.can_replace(index, index, Some(&insert), ..)? {
diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 00d8fa2..a35b32c 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Fragment, Node, Schema};
+use super::{fragment::IndexError, util, Fragment, Node, Schema};
 use derivative::Derivative;
 use displaydoc::Display;
 use std::borrow::Cow;
@@ -13,6 +13,11 @@ pub enum ResolveErr {
         /// The position that was out of range
         pos: usize,
     },
+    /// Position {pos} is in the middle of a character
+    SplitsCharacter {
+        /// The position between the two halves of a surrogate pair
+        pos: usize,
+    },
     /// Index error
     Index(#[from] IndexError),
 }
@@ -223,7 +228,10 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
                 break;
             }
             node = node.child(index).unwrap();
-            if node.is_text() {
+            if let Some(text_node) = node.text_node() {
+                if !util::is_utf16_boundary(text_node.text.as_str(), rem) {
+                    return Err(ResolveErr::SplitsCharacter { pos });
+                }
                 break;
             }
             parent_offset = rem - 1;
diff --git a/src/model/util.rs b/src/model/util.rs
index 197cc86..3461d4f 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -16,6 +16,20 @@ pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     }
 }
 
+/// Check that the given utf-16 index does not fall within a character
+pub fn is_utf16_boundary(text: &str, mut index: usize) -> bool {
+    for c in text.chars() {
+        if index == 0 {
+            break;
+        }
+        match index.checked_sub(c.len_utf16()) {
+            Some(rest) => index = rest,
+            None => return false,
+        }
+    }
+    true
+}
+
 pub fn split_at_utf16(text: &str, mut index: usize) -> (&str, &str) {
     let mut iter = text.chars();
     while index > 0 {
-- 
2.43.0


From 2372dc9eead1d652b5475f20c3bb6acc07bb624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 07/23] fix: refuse insertion points that overflow when
 applying a replace-around step

---
 src/model/replace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index ecd8241..a97dc6a 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -50,7 +50,10 @@ impl<S: Schema> Slice<S> {
         pos: usize,
         fragment: Fragment<S>,
     ) -> Result<Option<Slice<S>>, InsertError> {
-        let content = insert_into(&self.content, pos + self.open_start, fragment, None)?;
+        let dist = pos
+            .checked_add(self.open_start)
+            .ok_or(IndexError::OutOfBounds(pos))?;
+        let content = insert_into(&self.content, dist, fragment, None)?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
 }
-- 
2.43.0


From 0ac8b85aad302be425f4671428964acaa8f8059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 08/23] fix: join text nodes that a mark step gave the same
 marks

Neighbouring text nodes whose marks became equal were left split, so the
same text had several representations that do not compare as equal.
---
 src/model/mod.rs           | 2 +-
 src/model/replace.rs       | 2 +-
 src/transform/mark_step.rs | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/model/mod.rs b/src/model/mod.rs
index 32f8140..381d3a4 100644
--- a/src/model/mod.rs
+++ b/src/model/mod.rs
@@ -19,7 +19,7 @@ pub use replace::{InsertError, ReplaceError, Slice};
 pub use resolved_pos::{ResolveErr, ResolvedNode, ResolvedPos};
 pub use schema::{AttrNode, Block, Leaf, MarkType, Schema, TextNode};
 
-pub(crate) use replace::replace;
+pub(crate) use replace::{add_node, replace};
 pub(crate) use resolved_pos::Index;
 
 #[cfg(test)]
diff --git a/src/model/replace.rs b/src/model/replace.rs
index a97dc6a..3f660b4 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -244,7 +244,7 @@ fn joinable<'a, S: Schema>(
     Ok(node)
 }
 
-fn add_node<S: Schema>(child: Cow<S::Node>, target: &mut Vec<S::Node>) {
+pub(crate) fn add_node<S: Schema>(child: Cow<S::Node>, target: &mut Vec<S::Node>) {
     if let Some(last) = target.last_mut() {
         if let Some(c_text) = child.text_node() {
             if let Some(l_text) = c_text.same_markup(last) {
diff --git a/src/transform/mark_step.rs b/src/transform/mark_step.rs
index 88ce8d0..86de118 100644
--- a/src/transform/mark_step.rs
+++ b/src/transform/mark_step.rs
@@ -1,5 +1,5 @@
 use super::{util::Span, StepKind};
-use crate::model::{Fragment, Mark, MarkSet, Node, NodeType, Schema, Slice};
+use crate::model::{add_node, Fragment, Mark, MarkSet, Node, NodeType, Schema, Slice};
 use derivative::Derivative;
 use serde::{Deserialize, Serialize};
 use std::borrow::Cow;
@@ -15,7 +15,7 @@ where
         if child.is_inline() {
             child = f(child, parent, i)
         }
-        mapped.push(child)
+        add_node::<S>(Cow::Owned(child), &mut mapped)
     }
     Fragment::from(mapped)
 }
@@ -31,7 +31,7 @@ where
         if child.is_inline() {
             child = f(child)
         }
-        mapped.push(child)
+        add_node::<S>(Cow::Owned(child), &mut mapped)
     }
     Fragment::from(mapped)
 }
-- 
2.43.0


From 35c6197d40e45b0b964db48693b6ed0293e247ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 09/23] fix: check that the gap of a replace-around step fits
 into the slice

The parent was never passed on, so any content was put into any closed
node of the slice and documents that violate the schema were accepted.
---
 src/model/replace.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 3f660b4..96b3810 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -1,6 +1,6 @@
 use super::{fragment::IndexError, util, Index};
 use crate::model::{ContentMatchError, Fragment, Node, NodeType, ResolveErr, ResolvedPos, Schema};
-use crate::util::EitherOrBoth;
+use crate::util::{then_some, EitherOrBoth};
 use derivative::Derivative;
 use displaydoc::Display;
 use serde::{Deserialize, Serialize};
@@ -53,7 +53,14 @@ impl<S: Schema> Slice<S> {
         let dist = pos
             .checked_add(self.open_start)
             .ok_or(IndexError::OutOfBounds(pos))?;
-        let content = insert_into(&self.content, dist, fragment, None)?;
+        let content = insert_into(
+            &self.content,
+            dist,
+            fragment,
+            None,
+            self.open_start,
+            self.open_end,
+        )?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
 }
@@ -72,6 +79,8 @@ fn insert_into<S: Schema>(
     dist: usize,
     insert: Fragment<S>,
     parent: Option<&S::Node>,
+    open_start: usize,
+    open_end: usize,
 ) -> Result<Option<Fragment<S>>, InsertError> {
     let Index { index, offset } = content.find_index(dist, false)?;
     let child = content.maybe_child(index);
@@ -95,11 +104,21 @@ fn insert_into<S: Schema>(
         ))
     } else {
         let child = child.unwrap(); // supposed to be safe, because of offset != diff
+        let open_start = if index == 0 { open_start } else { 0 };
+        let open_end = if index + 1 == content.child_count() {
+            open_end
+        } else {
+            0
+        };
+        // An open child is only a part of a node, its content is checked on replacing.
+        let closed = open_start == 0 && open_end == 0;
         let inner = insert_into(
             child.content().unwrap_or(Fragment::EMPTY_REF),
             dist - offset - 1,
             insert,
-            None,
+            then_some(closed, child),
+            open_start.saturating_sub(1),
+            open_end.saturating_sub(1),
         )?;
         if let Some(i) = inner {
             Ok(Some(
-- 
2.43.0


From 57e9436e8d70f7c498156a6bd1cd96f4f8a255ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 10/23] fix: keep walks between two positions within the range

nodes_between subtracted the start of a child from a smaller position,
which panicked (or, in release builds, lost all nested text), and went on
to visit the nodes after the end of the range.
---
 src/model/fragment.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/fragment.rs b/src/model/fragment.rs
index 02643da..826c5c5 100644
--- a/src/model/fragment.rs
+++ b/src/model/fragment.rs
@@ -147,12 +147,15 @@ impl<S: Schema> Fragment<S> {
     ) {
         let mut pos = 0;
         for child in &self.inner {
+            if pos >= to {
+                break;
+            }
             let end = pos + child.node_size();
             if end > from && f(child, node_start + pos) {
                 if let Some(content) = child.content() {
                     let start = pos + 1;
                     content.nodes_between(
-                        usize::max(0, from - start),
+                        from.saturating_sub(start),
                         usize::min(content.size(), to - start),
                         f,
                         node_start + start,
-- 
2.43.0


From b0068b0f03867b502709eb22f76487c8c5a1c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 11/23] fix: let open-ended ranges end with the content

slice and replace took the size of the node itself as the end of an
unbounded range, which is past its content and was always refused.
---
 src/model/node.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index 6a27383..fa7493b 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -121,7 +121,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         include_parents: bool,
     ) -> Result<Slice<S>, SliceError> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
+        let to = util::to(&range, self.content_size());
 
         if from == to {
             return Ok(Slice::default());
@@ -163,8 +163,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         slice: &Slice<S>,
     ) -> Result<Self, ReplaceError<S>> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
-        // FIXME: this max value is my guess, that needs to be tested out
+        let to = util::to(&range, self.content_size());
 
         if to < from {
             return Err(ResolveErr::RangeError { pos: to }.into());
-- 
2.43.0


From c3a752f4a5fe24345847079579b47610b6204651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 12/23] fix: see the rest of a text as content that a
 structural step would overwrite

From inside the last text of a node, content_between took the position for
the end of the node, so structural steps could delete text.
---
 src/transform/replace_step.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 02f5391..cc1954a 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -81,6 +81,9 @@ fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<b
     let mut dist = to
         .checked_sub(from)
         .ok_or(ResolveErr::RangeError { pos: to })?;
+    if dist > 0 && rp_from.text_offset() > 0 {
+        return Ok(true);
+    }
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From 6af4a9f481b490a417f91ed31cccb2ed98b58474 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 13/23] fix: import the description of an image as its
 alternative text

---
 src/markdown/from_markdown.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 45c9936..a19c07d 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -159,7 +159,7 @@ impl MarkdownDeserializer {
                     Tag::Image(_, src, title) => {
                         self.push_stack(Attrs::Image(ImageAttrs {
                             src: src.to_string(),
-                            alt: title.to_string(),
+                            alt: String::new(),
                             title: title.to_string(),
                         }));
                     }
@@ -277,9 +277,13 @@ impl MarkdownDeserializer {
                     }),
                     Tag::Image(_, _, _) => {
                         let (content, attrs) = self.pop_stack()?;
-                        if let Attrs::Image(attrs) = attrs {
-                            if content.len() > 0 {
-                                return Err(FromMarkdownError::NoChildrenAllowed("Image"));
+                        if let Attrs::Image(mut attrs) = attrs {
+                            for node in &content {
+                                match node {
+                                    MarkdownNode::Text(t) => attrs.alt.push_str(t.text.as_str()),
+                                    MarkdownNode::Image(i) => attrs.alt.push_str(&i.attrs.alt),
+                                    _ => return Err(FromMarkdownError::NoChildrenAllowed("Image")),
+                                }
                             }
                             let cb = MarkdownNode::Image(Leaf { attrs });
                             self.add_content(cb)?;
-- 
2.43.0


From 5eb7309ba694a4ecc81b5a65bd0bbe6fe42e2083 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 14/23] fix: do not import empty or divided text nodes

---
 src/markdown/from_markdown.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index a19c07d..4bbe315 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -80,6 +80,24 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    /// Add some text, joining it with text before it that has the same marks
+    fn add_text(&mut self, text: String, marks: MarkSet<MD>) -> Result<(), FromMarkdownError> {
+        if text.is_empty() {
+            return Ok(());
+        }
+        let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
+        let text = Text::from(text);
+        match last.0.last_mut() {
+            Some(MarkdownNode::Text(t)) if t.marks == marks => {
+                t.text = t.text.join(&text);
+            }
+            _ => {
+                last.0.push(MarkdownNode::Text(TextNode { text, marks }));
+            }
+        }
+        Ok(())
+    }
+
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
@@ -204,6 +222,9 @@ impl MarkdownDeserializer {
                         if let Attrs::CodeBlock(attrs) = attrs {
                             if let Some(MarkdownNode::Text(t)) = content.last_mut() {
                                 t.text.remove_last_newline();
+                                if t.text.as_str().is_empty() {
+                                    content.pop();
+                                }
                             }
                             let cb = MarkdownNode::CodeBlock(AttrNode {
                                 attrs,
@@ -293,18 +314,12 @@ impl MarkdownDeserializer {
                     }
                 },
                 Event::Text(text) => {
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks: self.mark_set.clone(),
-                    }))?;
+                    self.add_text(text.to_string(), self.mark_set.clone())?;
                 }
                 Event::Code(text) => {
                     let mut marks = self.mark_set.clone();
                     marks.add(&MarkdownMark::Code);
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks,
-                    }))?;
+                    self.add_text(text.to_string(), marks)?;
                 }
                 Event::Html(_) => {
                     return Err(FromMarkdownError::NotSupported("Html"));
-- 
2.43.0


From ce9019ad9b041fdb8ea90fc69e89158fb7c9f021 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 15/23] fix: import the text of tight list items as paragraphs

---
 src/markdown/from_markdown.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 4bbe315..86795ab 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -30,6 +30,7 @@ pub enum FromMarkdownError {
 pub enum Attrs {
     Doc,
     Paragraph,
+    TightParagraph,
     Heading(HeadingAttrs),
     Blockquote,
     CodeBlock(CodeBlockAttrs),
@@ -98,23 +99,44 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    /// The items of a tight list have no events for their paragraphs
+    fn open_tight_paragraph(&mut self) {
+        if let Some((_, Attrs::ListItem)) = self.stack.last() {
+            self.push_stack(Attrs::TightParagraph);
+        }
+    }
+
+    fn close_tight_paragraph(&mut self) -> Result<(), FromMarkdownError> {
+        if let Some((_, Attrs::TightParagraph)) = self.stack.last() {
+            let (content, _) = self.pop_stack()?;
+            self.add_content(MarkdownNode::Paragraph(Block {
+                content: Fragment::from(content),
+            }))?;
+        }
+        Ok(())
+    }
+
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
             match event {
                 Event::Start(tag) => match tag {
                     Tag::Paragraph => {
+                        self.close_tight_paragraph()?;
                         self.stack.push((Vec::new(), Attrs::Paragraph));
                     }
                     Tag::Heading(l) => {
+                        self.close_tight_paragraph()?;
                         let level = u8::try_from(l)?;
                         self.stack
                             .push((Vec::new(), Attrs::Heading(HeadingAttrs { level })));
                     }
                     Tag::BlockQuote => {
+                        self.close_tight_paragraph()?;
                         self.stack.push((Vec::new(), Attrs::Blockquote));
                     }
                     Tag::CodeBlock(kind) => {
+                        self.close_tight_paragraph()?;
                         let params = if let CodeBlockKind::Fenced(params) = kind {
                             params.to_string()
                         } else {
@@ -124,6 +146,7 @@ impl MarkdownDeserializer {
                             .push((Vec::new(), Attrs::CodeBlock(CodeBlockAttrs { params })));
                     }
                     Tag::List(ord) => {
+                        self.close_tight_paragraph()?;
                         if let Some(order) = ord {
                             self.stack.push((
                                 Vec::new(),
@@ -175,6 +198,7 @@ impl MarkdownDeserializer {
                         });
                     }
                     Tag::Image(_, src, title) => {
+                        self.open_tight_paragraph();
                         self.push_stack(Attrs::Image(ImageAttrs {
                             src: src.to_string(),
                             alt: String::new(),
@@ -258,6 +282,7 @@ impl MarkdownDeserializer {
                         }
                     }
                     Tag::Item => {
+                        self.close_tight_paragraph()?;
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::ListItem = attrs {
                             let cb = MarkdownNode::ListItem(Block {
@@ -314,9 +339,11 @@ impl MarkdownDeserializer {
                     }
                 },
                 Event::Text(text) => {
+                    self.open_tight_paragraph();
                     self.add_text(text.to_string(), self.mark_set.clone())?;
                 }
                 Event::Code(text) => {
+                    self.open_tight_paragraph();
                     let mut marks = self.mark_set.clone();
                     marks.add(&MarkdownMark::Code);
                     self.add_text(text.to_string(), marks)?;
@@ -331,9 +358,11 @@ impl MarkdownDeserializer {
                     return Err(FromMarkdownError::NotSupported("SoftBreak"));
                 }
                 Event::HardBreak => {
+                    self.open_tight_paragraph();
                     self.add_content(MarkdownNode::HardBreak)?;
                 }
                 Event::Rule => {
+                    self.close_tight_paragraph()?;
                     self.add_content(MarkdownNode::HorizontalRule)?;
                 }
                 Event::TaskListMarker(_) => {
-- 
2.43.0


From 699bed2f95d86a5130208902aeb8f5086a677e41 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 16/23] fix: give imported nodes the content that the schema
 requires

---
 src/markdown/from_markdown.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 86795ab..64e0f97 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -47,6 +47,10 @@ pub fn from_markdown(text: &str) -> Result<MarkdownNode, FromMarkdownError> {
     d.deserialize(parser)
 }
 
+fn empty_paragraph() -> MarkdownNode {
+    MarkdownNode::Paragraph(Block::default())
+}
+
 #[derive(Default)]
 pub struct MarkdownDeserializer {
     stack: Vec<(Vec<MarkdownNode>, Attrs)>,
@@ -231,8 +235,11 @@ impl MarkdownDeserializer {
                         }
                     }
                     Tag::BlockQuote => {
-                        let (content, attrs) = self.pop_stack()?;
+                        let (mut content, attrs) = self.pop_stack()?;
                         if let Attrs::Blockquote = attrs {
+                            if content.is_empty() {
+                                content.push(empty_paragraph());
+                            }
                             let b = MarkdownNode::Blockquote(Block {
                                 content: Fragment::from(content),
                             });
@@ -283,8 +290,11 @@ impl MarkdownDeserializer {
                     }
                     Tag::Item => {
                         self.close_tight_paragraph()?;
-                        let (content, attrs) = self.pop_stack()?;
+                        let (mut content, attrs) = self.pop_stack()?;
                         if let Attrs::ListItem = attrs {
+                            if !matches!(content.first(), Some(MarkdownNode::Paragraph(_))) {
+                                content.insert(0, empty_paragraph());
+                            }
                             let cb = MarkdownNode::ListItem(Block {
                                 content: Fragment::from(content),
                             });
@@ -370,8 +380,11 @@ impl MarkdownDeserializer {
                 }
             }
         }
-        let (content, attrs) = self.pop_stack()?;
+        let (mut content, attrs) = self.pop_stack()?;
         if let Attrs::Doc = attrs {
+            if content.is_empty() {
+                content.push(empty_paragraph());
+            }
             Ok(MarkdownNode::Doc(Block {
                 content: Fragment::from(content),
             }))
-- 
2.43.0


From 98d01db06c8c735df3c5b1042d9b404bf8a90c1c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 17/23] fix: refuse to import line breaks in headings

---
 src/markdown/from_markdown.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 64e0f97..d4133fb 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -369,6 +369,9 @@ impl MarkdownDeserializer {
                 }
                 Event::HardBreak => {
                     self.open_tight_paragraph();
+                    if let Some((_, Attrs::Heading(_))) = self.stack.last() {
+                        return Err(FromMarkdownError::NotSupported("HardBreak in a Heading"));
+                    }
                     self.add_content(MarkdownNode::HardBreak)?;
                 }
                 Event::Rule => {
-- 
2.43.0


From 0eae72a1691037743d895084b950d402e5f5c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 18/23] fix: end all marks that do not go on when exporting

---
 src/markdown/to_markdown.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index ae83493..aa2c2e6 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -137,10 +137,9 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     })
                 }
                 MarkdownNode::Text(text_node) => {
-                    if let Some(last) = self.marks.last().map(|n| *n) {
-                        if !text_node.marks.contains(last) {
+                    if self.marks.iter().any(|m| !text_node.marks.contains(m)) {
+                        if let Some(last) = self.marks.pop() {
                             self.inner.push((node, index));
-                            self.marks.pop();
                             return Some(Event::End(mark_tag(last)));
                         }
                     }
@@ -179,7 +178,10 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                 }
                 MarkdownNode::HorizontalRule => Some(Event::Rule),
                 MarkdownNode::HardBreak => {
-                    // todo: inline marks
+                    if let Some(mark) = self.marks.pop() {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
+                    }
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-- 
2.43.0


From 811250c21f7c038e60a4bd0ad30fc891636126be Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 19/23] fix: export the alternative text and the title of
 images

---
 src/markdown/to_markdown.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index aa2c2e6..c67326b 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -185,13 +185,21 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-                    self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {
-                        Tag::Image(
-                            LinkType::Inline,
-                            CowStr::Borrowed(attrs.src.as_str()),
-                            CowStr::Borrowed(attrs.src.as_str()),
-                        )
-                    })
+                    if let Some(mark) = self.marks.pop() {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
+                    }
+                    let tag = Tag::Image(
+                        LinkType::Inline,
+                        CowStr::Borrowed(attrs.src.as_str()),
+                        CowStr::Borrowed(attrs.title.as_str()),
+                    );
+                    self.stack.push(Event::End(tag.clone()));
+                    if !attrs.alt.is_empty() {
+                        self.stack
+                            .push(Event::Text(CowStr::Borrowed(attrs.alt.as_str())));
+                    }
+                    Some(Event::Start(tag))
                 }
             }
         } else {
-- 
2.43.0


From 5049ad2827c68a417714e8e270e80349f8282d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 20/23] fix: keep a mark that goes on when the same mark ends
 within it

---
 src/markdown/from_markdown.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index d4133fb..69f8492 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -55,6 +55,8 @@ fn empty_paragraph() -> MarkdownNode {
 pub struct MarkdownDeserializer {
     stack: Vec<(Vec<MarkdownNode>, Attrs)>,
     mark_set: MarkSet<MD>,
+    /// Marks that began within the same mark
+    nested_marks: Vec<MarkdownMark>,
 }
 
 impl MarkdownDeserializer {
@@ -103,6 +105,23 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    fn start_mark(&mut self, mark: MarkdownMark) {
+        if self.mark_set.contains(&mark) {
+            self.nested_marks.push(mark);
+        } else {
+            self.mark_set.add(&mark);
+        }
+    }
+
+    fn end_mark(&mut self, mark: MarkdownMark) {
+        match self.nested_marks.iter().rposition(|m| *m == mark) {
+            Some(index) => {
+                self.nested_marks.remove(index);
+            }
+            None => self.mark_set.remove(&mark),
+        }
+    }
+
     /// The items of a tight list have no events for their paragraphs
     fn open_tight_paragraph(&mut self) {
         if let Some((_, Attrs::ListItem)) = self.stack.last() {
@@ -185,10 +204,10 @@ impl MarkdownDeserializer {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
                     Tag::Emphasis => {
-                        self.mark_set.add(&MarkdownMark::Em);
+                        self.start_mark(MarkdownMark::Em);
                     }
                     Tag::Strong => {
-                        self.mark_set.add(&MarkdownMark::Strong);
+                        self.start_mark(MarkdownMark::Strong);
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
@@ -317,10 +336,10 @@ impl MarkdownDeserializer {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
                     Tag::Emphasis => {
-                        self.mark_set.remove(&MarkdownMark::Em);
+                        self.end_mark(MarkdownMark::Em);
                     }
                     Tag::Strong => {
-                        self.mark_set.remove(&MarkdownMark::Strong);
+                        self.end_mark(MarkdownMark::Strong);
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
-- 
2.43.0


From 1ee372f9d9270f8db85ed4efad78e10046979ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 21/23] fix: resolving in a node without content panicked

---
 src/model/resolved_pos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index a35b32c..3741c4d 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -205,7 +205,7 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
     }
 
     pub(crate) fn resolve(doc: &'a S::Node, pos: usize) -> Result<Self, ResolveErr> {
-        if pos > doc.content().unwrap().size() {
+        if pos > doc.content_size() {
             return Err(ResolveErr::RangeError { pos });
         }
         let mut path = vec![];
-- 
2.43.0


From dbd70e31b1f72935fd8206ff4896274b8de5a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 22/23] fix: text after a link within a link is still part of
 the outer link

---
 src/markdown/from_markdown.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 69f8492..95097b4 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -57,6 +57,8 @@ pub struct MarkdownDeserializer {
     mark_set: MarkSet<MD>,
     /// Marks that began within the same mark
     nested_marks: Vec<MarkdownMark>,
+    /// Links that the text is in, the innermost last
+    links: Vec<MarkdownMark>,
 }
 
 impl MarkdownDeserializer {
@@ -122,6 +124,20 @@ impl MarkdownDeserializer {
         }
     }
 
+    fn start_link(&mut self, link: MarkdownMark) {
+        self.mark_set.add(&link);
+        self.links.push(link);
+    }
+
+    /// Go back to the link around this one, if any
+    fn end_link(&mut self, link: MarkdownMark) {
+        self.links.pop();
+        self.mark_set.remove(&link);
+        if let Some(outer) = self.links.last() {
+            self.mark_set.add(outer);
+        }
+    }
+
     /// The items of a tight list have no events for their paragraphs
     fn open_tight_paragraph(&mut self) {
         if let Some((_, Attrs::ListItem)) = self.stack.last() {
@@ -213,7 +229,7 @@ impl MarkdownDeserializer {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
                     Tag::Link(_, href, title) => {
-                        self.mark_set.add(&MarkdownMark::Link {
+                        self.start_link(MarkdownMark::Link {
                             attrs: LinkAttrs {
                                 href: href.to_string(),
                                 title: title.to_string(),
@@ -344,7 +360,7 @@ impl MarkdownDeserializer {
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
-                    Tag::Link(_, href, title) => self.mark_set.remove(&MarkdownMark::Link {
+                    Tag::Link(_, href, title) => self.end_link(MarkdownMark::Link {
                         attrs: LinkAttrs {
                             href: href.to_string(),
                             title: title.to_string(),
-- 
2.43.0


From e3247ba1cf35e70578466babea0f8f5c410c45be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:53 +0000
Subject: [PATCH 23/23] fix: a range that ends with the largest number is
 beyond the end, not at the start

---
 src/model/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/util.rs b/src/model/util.rs
index 3461d4f..cf64259 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -4,14 +4,14 @@ pub fn from<R: RangeBounds<usize>>(range: &R) -> usize {
     match range.start_bound() {
         Bound::Unbounded => 0,
         Bound::Included(x) => *x,
-        Bound::Excluded(x) => x + 1,
+        Bound::Excluded(x) => x.saturating_add(1),
     }
 }
 
 pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     match range.end_bound() {
         Bound::Unbounded => max,
-        Bound::Included(x) => x + 1,
+        Bound::Included(x) => x.saturating_add(1),
         Bound::Excluded(x) => *x,
     }
 }
-- 
2.43.0

