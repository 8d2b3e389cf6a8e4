From 92b97511f6fce664af6e8cd07d79c16783ce1151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 01/18] fix: only return a leaf value from get when the whole
 key matches

A lookup that reached a leaf compared the leaf nibbles with the rest of the
key only up to the shorter of the two. A key that was a prefix of a stored
key, or an extension of one, returned the value of that other key.
---
 src/trie_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 7883e47..b8ee833 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -320,7 +320,7 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Leaf { nibbles, value } => {
                 trace!("Get traversed Leaf (nibbles: {:?})", nibbles);
-                match nibbles.nibbles_are_identical_up_to_smallest_count(curr_nibbles) {
+                match nibbles == curr_nibbles {
                     false => None,
                     true => Some(value),
                 }
-- 
2.43.0


From 18640bac5322e915239f114bf1a7483dc1b31d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 02/18] fix: return None from get when the key ends inside an
 extension

Popping more nibbles than the key still had underflowed and panicked.
---
 src/trie_ops.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index b8ee833..bdf7a3c 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -311,6 +311,10 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
+                if curr_nibbles.count < nibbles.count {
+                    return None;
+                }
+
                 let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
                 match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
-- 
2.43.0


From 41b63bd23bff308b621fbe8679779be8ddf4e98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 03/18] fix: split an extension when an inserted key ends
 inside of it

A key that was a proper prefix of the extension was treated as if it covered
the whole extension. The value was stored under a longer key than the one
that was inserted.
---
 src/trie_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index bdf7a3c..3925665 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -401,7 +401,7 @@ fn insert_into_trie_rec<N: PartialTrie>(
 
             let info = get_pre_and_postfixes_for_existing_and_new_nodes(nibbles, &new_node.nibbles);
 
-            if nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles) {
+            if info.existing_postfix.is_empty() {
                 new_node.truncate_n_nibbles(nibbles.count);
 
                 return insert_into_trie_rec(child, new_node)
-- 
2.43.0


From 32cbca726d9235b8ec3e527b24093108238509f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 04/18] fix: do not delete a longer key when the deleted key
 ends inside an extension

A key that was a proper prefix of the extension deleted the branch value that
is stored below the extension.
---
 src/trie_ops.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 3925665..d296352 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -511,6 +511,10 @@ fn delete_intern<N: PartialTrie>(
         } => {
             trace!("Delete traversed Extension (nibbles: {:?})", ext_nibbles);
 
+            if curr_k.count < ext_nibbles.count {
+                return None;
+            }
+
             ext_nibbles
                 .nibbles_are_identical_up_to_smallest_count(&curr_k)
                 .then(|| {
-- 
2.43.0


From 25ffaa867823a075990d04661b088e0e7456e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 05/18] fix: keep the value of a branch when deleting one of
 its last two children

The branch was replaced with an extension to the remaining child, which lost
the value of the branch. If the deleted child was the only one, the delete
panicked. A branch that still has a value now stays a branch, and becomes a
leaf if no children are left.
---
 src/trie_ops.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index d296352..de226fd 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -477,6 +477,7 @@ fn delete_intern<N: PartialTrie>(
                     // If the child we recursively called is deleted, then we may need to reduce
                     // this branch to an extension/leaf.
                     let updated_node = match node_is_empty(&updated_child)
+                        && value.is_empty()
                         && get_num_non_empty_children(children) <= 2
                     {
                         false => {
@@ -484,7 +485,12 @@ fn delete_intern<N: PartialTrie>(
                             let mut updated_children = children.clone();
                             updated_children[nibble as usize] =
                                 try_collapse_if_extension(updated_child);
-                            branch(updated_children, value.clone())
+
+                            match get_num_non_empty_children(&updated_children) {
+                                // Only the value is left, which is now just a leaf.
+                                0 => leaf(Nibbles::default(), value.clone()),
+                                _ => branch(updated_children, value.clone()),
+                            }
                         }
                         true => {
                             let (child_nibble, non_empty_node) =
-- 
2.43.0


From 58ec2ff01780f4c75dbb4bc6d7591685f650afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 06/18] fix: collapse a branch when deleting its value leaves a
 single child

Deleting the value of a branch left a branch with a single child behind. The
root hash of such a trie does not match the Ethereum root of the remaining
entries, and later deletes below the branch panicked. A delete for a branch
without a value also reported an empty value as deleted instead of None.
---
 src/partial_trie.rs |  9 ++++-----
 src/trie_ops.rs     | 18 +++++++++++++++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index dca6df6..1fb7bc3 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -76,12 +76,11 @@ pub trait PartialTrie:
 
     /// Deletes a `Leaf` node or `Branch` value field if it exists.
     ///
-    /// To agree with Ethereum specs, deleting nodes does not result in the trie
-    /// removing nodes that are redundant after deletion. For example, a
-    /// `Branch` node that is completely empty after all of its children are
-    /// deleted is not pruned. Also note:
+    /// To agree with Ethereum specs, nodes that are redundant after deletion
+    /// are collapsed. Also note:
     /// - Deleted leaves are replaced with `Empty` nodes.
-    /// - Deleted branch values are replaced with empty `Vec`s.
+    /// - Deleted branch values are replaced with empty `Vec`s. If the branch
+    ///   only has a single child left, it is replaced by this child.
     ///
     /// # Panics
     /// If a `Hash` node is traversed, a panic will occur. Since `Hash` nodes
diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index de226fd..caec511 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -466,7 +466,8 @@ fn delete_intern<N: PartialTrie>(
         } // TODO: Find a nice way to get the full key path...
         Node::Branch { children, value } => {
             if curr_k.is_empty() {
-                return Some((branch(children.clone(), Vec::new()), value.clone()));
+                return (!value.is_empty())
+                    .then(|| (branch_without_value(children.clone()), value.clone()));
             }
 
             let nibble = curr_k.pop_next_nibble_front();
@@ -726,6 +727,21 @@ pub(crate) fn branch<N: PartialTrie>(
     Node::Branch { children, value }.into()
 }
 
+/// Creates a branch that has no value. If there is only one child, then an
+/// extension to this child is created instead (may be collapsed one level
+/// above).
+fn branch_without_value<N: PartialTrie>(children: [WrappedNode<N>; 16]) -> WrappedNode<N> {
+    let mut non_empty_children = children
+        .iter()
+        .enumerate()
+        .filter(|(_, c)| !node_is_empty(c));
+
+    match (non_empty_children.next(), non_empty_children.next()) {
+        (Some((nib, child)), None) => extension(Nibbles::from_nibble(nib as Nibble), child.clone()),
+        _ => branch(children, Vec::new()),
+    }
+}
+
 fn branch_from_insert_val<N: PartialTrie>(
     children: [WrappedNode<N>; 16],
     value: ValOrHash,
-- 
2.43.0


From 1276de02a8def34993a339594bcc157bc30e4648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 07/18] fix: do not share a cached hash between a modified trie
 and its clones

Clones of a HashedPartialTrie shared the cell that holds the cached hash. After
one of them was modified, hashing it stored the new hash for every clone, and
these then returned a hash that did not match their content. A modified trie
now gets its own cell.
---
 src/partial_trie.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index 1fb7bc3..90c9f63 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -305,6 +305,12 @@ impl HashedPartialTrie {
     pub(crate) fn set_hash(&self, v: Option<H256>) {
         *self.hash.write() = v;
     }
+
+    /// Discard the cached hash. Since clones share the same cached hash, this
+    /// must not write to the existing one.
+    fn reset_hash(&mut self) {
+        self.hash = Arc::new(RwLock::new(None));
+    }
 }
 
 impl PartialTrie for HashedPartialTrie {
@@ -321,7 +327,7 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
     {
         self.node.trie_insert(k, v);
-        self.set_hash(None);
+        self.reset_hash();
     }
 
     fn extend<K, V, I>(&mut self, nodes: I)
@@ -331,7 +337,7 @@ impl PartialTrie for HashedPartialTrie {
         I: IntoIterator<Item = (K, V)>,
     {
         self.node.trie_extend(nodes);
-        self.set_hash(None);
+        self.reset_hash();
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -346,7 +352,7 @@ impl PartialTrie for HashedPartialTrie {
         K: Into<crate::nibbles::Nibbles>,
     {
         let res = self.node.trie_delete(k);
-        self.set_hash(None);
+        self.reset_hash();
 
         res
     }
-- 
2.43.0


From 1947013594ec08b243e503dfe53e3661dd1b333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 08/18] fix: discard the cached hash before extending a trie

If the iterator or an insert panicked, the entries that were already added
stayed in the trie while the cached hash was still the old one.
---
 src/partial_trie.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index 90c9f63..b5f5fa8 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -336,8 +336,8 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
-        self.node.trie_extend(nodes);
         self.reset_hash();
+        self.node.trie_extend(nodes);
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
-- 
2.43.0


From 1b5003f3a6beab1b2f2a39b499c66c257fdb0243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 09/18] fix: discard the cached hash when a node is accessed
 mutably

Nodes changed through DerefMut kept the hash of their previous content.
---
 src/partial_trie.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index b5f5fa8..28d1960 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -401,6 +401,7 @@ impl Deref for HashedPartialTrie {
 
 impl DerefMut for HashedPartialTrie {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        self.reset_hash();
         &mut self.node
     }
 }
-- 
2.43.0


From d0830a5114264e19b2d61b8134f403e400f9e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 10/18] fix: do not trust cached hashes when deserializing a
 trie

A serialized trie carries cached hashes next to the nodes. Altered bytes could
give a trie whose reported hash does not match its content. The format does
not change, but the hashes are now ignored when reading.
---
 src/partial_trie.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index 28d1960..fcd210d 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -8,7 +8,7 @@ use std::{
 
 use ethereum_types::H256;
 use parking_lot::RwLock;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 use crate::{
     nibbles::Nibbles,
@@ -286,9 +286,22 @@ where
 #[derive(Clone, Debug, Default, Deserialize, Serialize)]
 pub struct HashedPartialTrie {
     pub(crate) node: Node<HashedPartialTrie>,
+    #[serde(deserialize_with = "deserialize_and_discard_hash")]
     pub(crate) hash: Arc<RwLock<Option<H256>>>,
 }
 
+/// A cached hash that comes from outside can not be trusted to match the node,
+/// so it is always calculated again.
+fn deserialize_and_discard_hash<'de, D>(
+    deserializer: D,
+) -> Result<Arc<RwLock<Option<H256>>>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Option::<H256>::deserialize(deserializer)?;
+    Ok(Arc::default())
+}
+
 impl_from_for_trie_type!(HashedPartialTrie);
 
 impl HashedPartialTrie {
-- 
2.43.0


From ea1c607b3cb265d43bb4371add9997ce227d72d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 11/18] fix: reset all tracked nodes between the subsets of a
 batch

Only the direct children of the root were reset. The nodes that were needed
for an earlier subset of create_trie_subsets also ended up in the later ones.
---
 src/trie_subsets.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index aa5f805..7ce0d24 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -330,14 +330,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
         TrackedNodeIntern::Branch(ref mut children) => {
-            children.iter_mut().for_each(|c| c.info.reset())
-        }
-        TrackedNodeIntern::Extension(ref mut child) => child.info.reset(),
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => (),
     }
 }
 
-- 
2.43.0


From 9602530b3643164f1da5b68ce888e6af88dd5f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 12/18] fix: allow subset keys that end inside an extension

Popping more nibbles than the key still had underflowed and panicked. Keys that
do not exist in the trie are documented to not be an error.
---
 src/trie_subsets.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index 7ce0d24..37c41e7 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -284,6 +284,10 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
         }
         TrackedNodeIntern::Extension(child) => {
             let nibbles = trie.info.get_nibbles_expected();
+            if curr_nibbles.count < nibbles.count {
+                return Ok(());
+            }
+
             let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
             match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
-- 
2.43.0


From 08ebe9aa7177fa127106e476f857fc76a149d628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:01 +0000
Subject: [PATCH 13/18] fix: find the diff between tries with different node
 structures

The comparison of the node types was inverted. Tries with the same root node
type were always reported as different at the root, and the rest panicked.
The check that decides if a branch itself is different was inverted as well.
---
 src/debug_tools/diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index b043d72..4337732 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -297,7 +297,7 @@ fn find_latest_diff_point_between_tries_rec(
 
     // Note that differences in a node's `value` will be picked up by a hash
     // mismatch.
-    if (a_type, a_key_piece) == (b_type, b_key_piece) {
+    if (a_type, a_key_piece) != (b_type, b_key_piece) {
         depth_state.try_update_longest_divergence_key_node(state);
         DiffDetectionState::NodeTypesDiffer
     } else {
@@ -336,7 +336,7 @@ fn find_latest_diff_point_between_tries_rec(
                         most_significant_diff_found.pick_most_significant_state(&res);
                 }
 
-                if matches!(
+                if !matches!(
                     most_significant_diff_found,
                     DiffDetectionState::NoDiffDetected
                 ) {
-- 
2.43.0


From db66ffa2357dc288d6321f85e35c5ebb9583c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:27:42 +0000
Subject: [PATCH 14/18] fix: store U128 and U512 values as bytes of their own
 size

The conversion always used a buffer of 32 bytes, so a U512 value panicked and
a U128 value was followed by 16 zero bytes.
---
 src/trie_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index caec511..fdb9ecc 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -56,10 +56,7 @@ macro_rules! impl_eth_type_from_for_val_variant {
     ($type:ty) => {
         impl From<$type> for ValOrHash {
             fn from(v: $type) -> Self {
-                let size = size_of::<Self>();
-
-                let mut buf = Vec::with_capacity(size);
-                buf.resize(32, 0);
+                let mut buf = vec![0; size_of::<$type>()];
                 v.to_big_endian(&mut buf);
                 ValOrHash::Val(buf)
             }
-- 
2.43.0


From 83bbf780d4d17e0036798b9e6fa3f4f4395a3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:32 +0000
Subject: [PATCH 15/18] fix: follow the lookup path in path queries

An extension's nibbles were not consumed, so the path went on with the wrong
part of the key. A key that ends at a branch panicked. A key that ends at an
empty slot or inside a leaf was reported as found.
---
 src/debug_tools/common.rs | 14 ++++++++++----
 src/debug_tools/query.rs  | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/debug_tools/common.rs b/src/debug_tools/common.rs
index b63bba9..827eef6 100644
--- a/src/debug_tools/common.rs
+++ b/src/debug_tools/common.rs
@@ -11,6 +11,8 @@ pub(super) enum PathSegment {
     Empty,
     Hash,
     Branch(Nibble),
+    /// A branch at which the key ends.
+    BranchEnd,
     Extension(Nibbles),
     Leaf(Nibbles),
 }
@@ -21,6 +23,7 @@ impl Display for PathSegment {
             PathSegment::Empty => write!(f, "Empty"),
             PathSegment::Hash => write!(f, "Hash"),
             PathSegment::Branch(nib) => write!(f, "Branch({})", nib),
+            PathSegment::BranchEnd => write!(f, "Branch"),
             PathSegment::Extension(nibs) => write!(f, "Extension({})", nibs),
             PathSegment::Leaf(nibs) => write!(f, "Leaf({})", nibs),
         }
@@ -32,7 +35,7 @@ impl PathSegment {
         match self {
             PathSegment::Empty => TrieNodeType::Empty,
             PathSegment::Hash => TrieNodeType::Hash,
-            PathSegment::Branch(_) => TrieNodeType::Branch,
+            PathSegment::Branch(_) | PathSegment::BranchEnd => TrieNodeType::Branch,
             PathSegment::Extension(_) => TrieNodeType::Extension,
             PathSegment::Leaf(_) => TrieNodeType::Leaf,
         }
@@ -40,7 +43,7 @@ impl PathSegment {
 
     pub(super) fn get_key_piece_from_seg_if_present(&self) -> Option<Nibbles> {
         match self {
-            PathSegment::Empty | PathSegment::Hash => None,
+            PathSegment::Empty | PathSegment::Hash | PathSegment::BranchEnd => None,
             PathSegment::Branch(nib) => Some(Nibbles::from_nibble(*nib)),
             PathSegment::Extension(nibs) | PathSegment::Leaf(nibs) => Some(*nibs),
         }
@@ -54,7 +57,10 @@ pub(super) fn get_segment_from_node_and_key_piece<T: PartialTrie>(
     match TrieNodeType::from(n) {
         TrieNodeType::Empty => PathSegment::Empty,
         TrieNodeType::Hash => PathSegment::Hash,
-        TrieNodeType::Branch => PathSegment::Branch(k_piece.get_nibble(0)),
+        TrieNodeType::Branch => match k_piece.is_empty() {
+            false => PathSegment::Branch(k_piece.get_nibble(0)),
+            true => PathSegment::BranchEnd,
+        },
         TrieNodeType::Extension => PathSegment::Extension(*k_piece),
         TrieNodeType::Leaf => PathSegment::Leaf(*k_piece),
     }
@@ -73,7 +79,7 @@ pub(super) fn get_key_piece_from_node_pulling_from_key_for_branches<T: PartialTr
 ) -> Nibbles {
     match n {
         Node::Empty | Node::Hash(_) => Nibbles::default(),
-        Node::Branch { .. } => curr_key.get_next_nibbles(1),
+        Node::Branch { .. } => curr_key.get_next_nibbles(curr_key.count.min(1)),
         Node::Extension { nibbles, child: _ } | Node::Leaf { nibbles, value: _ } => *nibbles,
     }
 }
diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index e75c2ed..07738ef 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -276,28 +276,28 @@ fn get_path_from_query_rec<T: PartialTrie>(
         .push(ExtraNodeSegmentInfo::from_node(node));
 
     match node {
-        Node::Empty | Node::Hash(_) => (),
-        Node::Branch { children, value: _ } => {
+        Node::Empty => (),
+        Node::Hash(_) => query_out.node_found = curr_key.is_empty(),
+        Node::Branch { children, value } => {
+            if curr_key.is_empty() {
+                query_out.node_found = !value.is_empty();
+                return;
+            }
+
             let nib = curr_key.pop_next_nibble_front();
 
             get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
         }
         Node::Extension { nibbles, child } => {
-            get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
-            get_path_from_query_rec(child, curr_key, query_out);
-        }
-        Node::Leaf { nibbles, value: _ } => {
             let curr_key_next_nibs =
                 get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
 
             if *nibbles == curr_key_next_nibs {
                 curr_key.pop_nibbles_front(curr_key_next_nibs.count);
+                get_path_from_query_rec(child, curr_key, query_out);
             }
         }
-    }
-
-    if curr_key.is_empty() {
-        query_out.node_found = true;
+        Node::Leaf { nibbles, value: _ } => query_out.node_found = *nibbles == *curr_key,
     }
 }
 
-- 
2.43.0


From 7d05f247c222c6a5df265546145eb855e544c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:44 +0000
Subject: [PATCH 16/18] fix: report the depth of a difference between tries

The depth of a diff point was always 0. A difference between two hash nodes also
listed the node itself in its path, unlike all other differences.
---
 src/debug_tools/diff.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index 4337732..fde6151 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -90,12 +90,13 @@ impl DiffPoint {
         child_b: &HashedPartialTrie,
         parent_k: Nibbles,
         path: NodePath,
+        depth: usize,
     ) -> Self {
         let a_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_a));
         let b_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_b));
 
         DiffPoint {
-            depth: 0,
+            depth,
             path,
             key: parent_k,
             a_info: NodeInfo::new(child_a, a_key, get_value_from_node(child_a).cloned()),
@@ -196,6 +197,7 @@ impl DepthNodeDiffState {
             state.a,
             state.b,
             state.curr_path.clone(),
+            state.curr_depth,
         );
     }
 
@@ -206,6 +208,7 @@ impl DepthNodeDiffState {
             state.a,
             state.b,
             state.curr_path.clone(),
+            state.curr_depth,
         );
     }
 
@@ -215,12 +218,13 @@ impl DepthNodeDiffState {
         child_a: &HashedPartialTrie,
         child_b: &HashedPartialTrie,
         path: NodePath,
+        depth: usize,
     ) {
         if field
             .as_ref()
             .map_or(true, |d_point| d_point.key.count < parent_k.count)
         {
-            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, path));
+            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, path, depth));
         }
     }
 }
@@ -304,12 +308,7 @@ fn find_latest_diff_point_between_tries_rec(
         match (&state.a.node, &state.b.node) {
             (Node::Empty, Node::Empty) => DiffDetectionState::NoDiffDetected,
             (Node::Hash(a_hash), Node::Hash(b_hash)) => {
-                create_diff_detection_state_based_from_hashes(
-                    a_hash,
-                    b_hash,
-                    &state.new_from_parent(state.a, state.b, &Nibbles::default()),
-                    depth_state,
-                )
+                create_diff_detection_state_based_from_hashes(a_hash, b_hash, state, depth_state)
             }
             (
                 Node::Branch {
-- 
2.43.0


From d05d1cb231684c1ed4301b4e260b1b050a7cad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:56 +0000
Subject: [PATCH 17/18] fix: reject an empty hex prefix encoding instead of
 panicking

---
 src/nibbles.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 730d924..21c3cc2 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -56,6 +56,9 @@ pub enum BytesToNibblesError {
 
 #[derive(Debug, Error)]
 pub enum FromHexPrefixError {
+    #[error("Tried to convert an empty hex prefix byte string into `Nibbles`")]
+    ZeroSizedKey,
+
     #[error("Tried to convert a hex prefix byte string into `Nibbles` with invalid flags at the start: {0:#04b}")]
     InvalidFlags(Nibble),
 
@@ -649,6 +652,10 @@ impl Nibbles {
 
     /// Converts a hex prefix byte string ("AKA "compact") into `Nibbles`.
     pub fn from_hex_prefix_encoding(hex_prefix_bytes: &[u8]) -> Result<Self, FromHexPrefixError> {
+        if hex_prefix_bytes.is_empty() {
+            return Err(FromHexPrefixError::ZeroSizedKey);
+        }
+
         if hex_prefix_bytes.len() > 33 {
             return Err(FromHexPrefixError::TooLong(
                 hex::encode(hex_prefix_bytes),
-- 
2.43.0


From 0eeacca8ccd0594cec6821e46c9ea37cc164d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:47:24 +0000
Subject: [PATCH 18/18] fix: refuse out-of-range nibble requests also without
 overflow checks

The methods that document a panic for an index or count outside of the
nibbles relied on integer overflow checks for it. Without these checks,
which is the default in release builds, they returned wrong nibbles.
---
 src/nibbles.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 21c3cc2..eed37db 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -263,6 +263,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `idx` is out of range.
     pub fn get_nibble(&self, idx: usize) -> Nibble {
+        assert!(idx < self.count);
+
         let nib_idx = self.count - idx - 1;
         let byte = self.packed.byte(nib_idx / 2);
 
@@ -288,6 +290,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `Nibbles` is empty.
     pub fn pop_next_nibble_back(&mut self) -> Nibble {
+        assert!(!self.is_empty());
+
         let n = self.get_nibble(self.count - 1);
         self.truncate_n_nibbles_back_mut(1);
 
@@ -317,6 +321,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `n` is larger than the number of nibbles contained.
     pub fn pop_nibbles_back(&mut self, n: usize) -> Nibbles {
+        assert!(n <= self.count);
+
         let r = self
             .get_nibble_range((self.count - n)..self.count)
             .reverse();
@@ -371,6 +377,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `range.end` is outside of the current `Nibbles`.
     pub fn get_nibble_range(&self, range: Range<usize>) -> Nibbles {
+        assert!(range.start <= range.end && range.end <= self.count);
+
         let range_count = range.end - range.start;
 
         let shift_amt = (self.count - range.end) * 4;
@@ -459,6 +467,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx(&self, idx: usize) -> (Nibbles, Nibbles) {
+        assert!(idx <= self.count);
+
         let post_count = self.count - idx;
         let post_mask = create_mask_of_1s(post_count * 4);
 
@@ -482,6 +492,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_prefix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let shift_amt = (self.count - idx) * 4;
         let pre_mask = create_mask_of_1s(idx * 4) << shift_amt;
 
@@ -496,6 +508,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_postfix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let postfix_count = self.count - idx;
         let mask = create_mask_of_1s(postfix_count * 4);
 
-- 
2.43.0

