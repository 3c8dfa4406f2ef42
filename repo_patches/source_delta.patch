From 9f0cf009027250984e4f7bd4d2b8071ad3c06290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 01/12] fix: reject update and range proofs with impossible
 sibling counts instead of panicking

An update proof whose leaf does not share the path of its siblings with the inserted key made the
split arithmetic underflow, and update or range proofs with more than 256 siblings underflowed when
skipping bits. Both are attacker-controlled; return errors.
---
 src/types/proof/definition.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index c29d2b1..e3bb207 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -308,6 +308,13 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
         new_element_key: KeyHash,
         new_element_value: Option<V>,
     ) -> Result<RootHash> {
+        ensure!(
+            self.siblings.len() <= 256,
+            "Sparse Merkle Tree proof has more than {} ({}) siblings.",
+            256,
+            self.siblings.len(),
+        );
+
         if let Some(new_element_value) = new_element_value {
             // A value have been supplied, we need to prove that we inserted a given value at the new key
 
@@ -331,6 +338,17 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                         // Step 3: we compute the new Merkle root
                         Ok(new_merkle_path.root_hash())
                     } else {
+                        // The new key must end up in the subtree which the leaf occupies
+                        ensure!(
+                            new_element_key
+                                .0
+                                .common_prefix_bits_len(&leaf_node.key_hash.0)
+                                >= self.siblings.len(),
+                            "Key {:?} does not belong in the subtree of the leaf key {:?}",
+                            new_element_key,
+                            leaf_node.key_hash
+                        );
+
                         let new_merkle_path = self.compute_new_merkle_path_on_split(
                             leaf_node,
                             new_element_key,
@@ -654,6 +672,12 @@ impl<H: SimpleHasher> SparseMerkleRangeProof<H> {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle Tree proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From f6e0439f9aea0d067721b261c0fd80933a0fb2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 02/12] fix: update proofs must show that a deleted key which
 is not removed is absent

verify_update accepted a proof without a leaf for any deletion and returned the old root, so a
deletion of a present key could be passed off as a no-op. The verifier now requires a
non-existence proof in that case, and the prover supplies it.
---
 src/tree.rs                   | 25 +++++++------------------
 src/types/proof/definition.rs | 17 ++++++++---------
 2 files changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 5662c3a..324adab 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -744,15 +744,8 @@ where
                         merkle_proof,
                     )
                 } else {
-                    // If there was no changes, don't generate a proof
-                    (
-                        PutResult::NotChanged,
-                        if with_proof {
-                            Some(SparseMerkleProof::new(None, vec![]))
-                        } else {
-                            None
-                        },
-                    )
+                    // If there was no changes, the proof shows that the key is absent
+                    (PutResult::NotChanged, merkle_proof)
                 }
             }
         };
@@ -761,14 +754,7 @@ where
         let mut children: Children = internal_node.into();
         match put_result {
             PutResult::NotChanged => {
-                return Ok((
-                    PutResult::NotChanged,
-                    if with_proof {
-                        Some(SparseMerkleProof::new(None, vec![]))
-                    } else {
-                        None
-                    },
-                ));
+                return Ok((PutResult::NotChanged, merkle_proof));
             }
             PutResult::Updated((_, new_node)) => {
                 // update child
@@ -970,7 +956,10 @@ where
             Ok((
                 PutResult::NotChanged,
                 if with_proof {
-                    Some(SparseMerkleProof::new(None, vec![]))
+                    Some(SparseMerkleProof::new(
+                        Some(existing_leaf_node.into()),
+                        vec![],
+                    ))
                 } else {
                     None
                 },
diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index e3bb207..bcb7444 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -382,14 +382,12 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
             }
         } else {
             // No value supplied, we need to prove that the previous value was deleted
-            if let Some(leaf_node) = self.leaf {
+            if self
+                .leaf
+                .as_ref()
+                .is_some_and(|leaf_node| leaf_node.key_hash == new_element_key)
+            {
                 ensure!(self.root_hash() == old_root_hash);
-                ensure!(
-                    new_element_key == leaf_node.key_hash,
-                    "Key {:?} to remove doesn't match the leaf key {:?} supplied with the proof",
-                    new_element_key,
-                    leaf_node.key_hash
-                );
 
                 // Step 2: we compute the new Merkle tree path.
                 // In case of deletion, we need to rewind the nibble until we reach the first non-default hash
@@ -493,8 +491,9 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
 
                 Ok(new_merkle_hash)
             } else {
-                // We just return the old root hash if we try to remove the empty node
-                // because there isn't any changes to the merkle tree
+                // Removing an absent key does not change the merkle tree, but the proof must show
+                // that the key is absent
+                self.verify_nonexistence(old_root_hash, new_element_key)?;
                 Ok(old_root_hash)
             }
         }
-- 
2.43.0


From 3ab09aceaff20751de47dd13ce7c463e3e2e2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 03/12] fix: store the empty root of a first version above 0 at
 that version

When the first committed version of an empty store was above 0 and its changes left the tree
empty, the null root was written one version too low and the committed version was missing.
---
 src/tree_cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index f2ec12b..2c19664 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -297,6 +297,8 @@ where
             // that node hash as the root hash of this version. This will happen if you delete as
             // the first operation on an empty tree, but also if you manage to delete every single
             // key-value mapping in the tree.
+            root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key.clone(), Node::new_null())?;
             Node::Null
         };
-- 
2.43.0


From 61364c1fcae76978c37810e4039f180e9ebeb081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 04/12] fix: report superseded root nodes of unchanged and
 empty versions as stale

Committing a version without effect copies the root node, and inserting into an emptied tree
replaces its null root, but the superseded root was never reported as stale (or the copy was
not, within one multi-version update), so that pruning left it behind forever.
---
 src/tree.rs       | 8 +++-----
 src/tree_cache.rs | 4 ++++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 324adab..02c8a22 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -209,9 +209,7 @@ where
                     );
                 }
 
-                if node_key.version() == version {
-                    tree_cache.delete_node(&node_key, false /* is_leaf */);
-                }
+                tree_cache.delete_node(&node_key, false /* is_leaf */);
                 self.batch_create_subtree(
                     NodeKey::new_empty_path(version),
                     version,
@@ -623,8 +621,8 @@ where
                         root_node_key
                     );
                 }
-                // Delete the old null node if the at the same version
-                if root_node_key.version() == version && node_already_exists {
+                // Delete the old null node if the at the same version, or if it gets replaced
+                if (root_node_key.version() == version || value.is_some()) && node_already_exists {
                     tree_cache.delete_node(&root_node_key, false /* is_leaf */);
                 }
                 if let Some(value) = value {
diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 2c19664..02b4aa6 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -315,12 +315,16 @@ where
         // which failed to have an effect on the tree would mean that the *next* set of changes
         // would be faced with a non-existent root node at the version it is expecting, since it's
         // internally expected that the version increments every time the tree cache is frozen.
+        // The previous root node is superseded by its copy.
         if self.next_version > 0
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
+            && root_node_key.version() != self.next_version
         {
             let root_node = self.get_node(&self.root_node_key)?;
+            self.delete_node(&root_node_key, root_node.is_leaf());
             root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key, root_node)?;
         }
 
-- 
2.43.0


From f8958d75dd6caed2a244e85200ba4cfd43ddae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 05/12] fix: report an error instead of panicking when
 restoring an already complete tree

---
 src/restore.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/restore.rs b/src/restore.rs
index 9b57d67..60680ed 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -229,6 +229,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // not exist. This node and all its ancestors will be the partial nodes.
         let mut node_key = rightmost_leaf_node_key.gen_parent_node_key();
         while store.get_node_option(&node_key)?.is_some() {
+            ensure!(
+                !node_key.nibble_path().is_empty(),
+                "The tree has already been restored completely.",
+            );
             node_key = node_key.gen_parent_node_key();
         }
 
-- 
2.43.0


From 25ab06e64561e408787b93902e932973bfb5fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 06/12] fix: check the root hash when a restore finishes

---
 src/restore.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/restore.rs b/src/restore.rs
index 60680ed..354ee95 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -668,6 +668,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
 
             if num_children == 1 {
                 if let Some(node) = leaf {
+                    self.ensure_expected_root(node.hash::<H>())?;
                     let node_key = NodeKey::new_empty_path(self.version);
                     assert!(self.frozen_nodes.is_empty());
                     self.frozen_nodes.insert_node(node_key, node.into());
@@ -677,9 +678,35 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             }
         }
 
+        if self.partial_nodes[0].children.iter().all(|c| c.is_none()) {
+            // No account was received: this can only be an empty tree.
+            self.ensure_expected_root(SPARSE_MERKLE_PLACEHOLDER_HASH)?;
+            let node_key = NodeKey::new_empty_path(self.version);
+            self.frozen_nodes.insert_node(node_key, Node::new_null());
+            return self.store.write_node_batch(&self.frozen_nodes);
+        }
+
         self.freeze(0);
+        let root_hash = self
+            .frozen_nodes
+            .get_node(&NodeKey::new_empty_path(self.version))
+            .expect("The root node has just been frozen.")
+            .hash::<H>();
+        self.ensure_expected_root(root_hash)?;
         self.store.write_node_batch(&self.frozen_nodes)
     }
+
+    /// Checks the root hash before the root node is written: the accounts received may be
+    /// incomplete, or a chunk may have been rejected after it was added.
+    fn ensure_expected_root(&self, root_hash: [u8; 32]) -> Result<()> {
+        ensure!(
+            root_hash == self.expected_root_hash.0,
+            "Root hashes do not match. Actual root hash: {:?}. Expected root hash: {:?}.",
+            root_hash,
+            self.expected_root_hash,
+        );
+        Ok(())
+    }
 }
 
 /// The interface used with [`JellyfishMerkleRestore`], taken from the Diem `storage-interface` crate.
-- 
2.43.0


From 28939965a1f86936614f31dd78cb2f058dd26183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 07/12] expose the exclusion proof type to verification builds
 (cfg jmt_verif)

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 553bc91..29d4f7d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,6 +97,8 @@ use bytes32ext::Bytes32Ext;
 pub use iterator::JellyfishMerkleIterator;
 #[cfg(feature = "ics23")]
 pub use tree::ics23_impl::ics23_spec;
+#[cfg(jmt_verif)]
+pub use tree::ExclusionProof;
 pub use tree::JellyfishMerkleTree;
 #[cfg(any(test, feature = "sha2"))]
 pub use tree::Sha256Jmt;
-- 
2.43.0


From e37aa058284056ac56d46416c6a6ba0d3a03559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:28 +0000
Subject: [PATCH 08/12] fix: do not report nodes overwritten in place by an
 append as stale

---
 src/tree_cache.rs | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 02b4aa6..6e519fd 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -68,9 +68,9 @@
 
 use alloc::{collections::BTreeSet, vec::Vec};
 #[cfg(not(feature = "std"))]
-use hashbrown::{hash_map::Entry, HashMap, HashSet};
+use hashbrown::{hash_map::Entry, HashMap};
 #[cfg(feature = "std")]
-use std::collections::{hash_map::Entry, HashMap, HashSet};
+use std::collections::{hash_map::Entry, HashMap};
 
 use anyhow::{bail, Result};
 
@@ -133,11 +133,8 @@ pub struct TreeCache<'a, R> {
     /// # of leaves in the `node_cache`,
     num_new_leaves: usize,
 
-    /// Partial stale log. `NodeKey` to identify the stale record.
-    stale_node_index_cache: HashSet<NodeKey>,
-
-    /// # of leaves in the `stale_node_index_cache`,
-    num_stale_leaves: usize,
+    /// Partial stale log. `NodeKey` to identify the stale record, and whether it is a leaf.
+    stale_node_index_cache: HashMap<NodeKey, bool>,
 
     /// The immutable part of this cache, which will be committed to the underlying storage.
     frozen_cache: FrozenTreeCache,
@@ -177,12 +174,11 @@ where
         };
         Ok(Self {
             node_cache,
-            stale_node_index_cache: HashSet::new(),
+            stale_node_index_cache: HashMap::new(),
             frozen_cache: FrozenTreeCache::new(),
             root_node_key,
             next_version,
             reader,
-            num_stale_leaves: 0,
             num_new_leaves: 0,
             value_cache: Default::default(),
         })
@@ -209,12 +205,11 @@ where
         let root_node_key = NodeKey::new_empty_path(current_version);
         Ok(Self {
             node_cache,
-            stale_node_index_cache: HashSet::new(),
+            stale_node_index_cache: HashMap::new(),
             frozen_cache: FrozenTreeCache::new(),
             root_node_key,
             next_version: current_version,
             reader,
-            num_stale_leaves: 0,
             num_new_leaves: 0,
             value_cache: Default::default(),
         })
@@ -276,11 +271,10 @@ where
         // If node cache doesn't have this node, it means the node is in the previous version of
         // the tree on the disk.
         if self.node_cache.remove(old_node_key).is_none() {
-            let is_new_entry = self.stale_node_index_cache.insert(old_node_key.clone());
-            assert!(is_new_entry, "Node gets stale twice unexpectedly.");
-            if is_leaf {
-                self.num_stale_leaves += 1;
-            }
+            let previous = self
+                .stale_node_index_cache
+                .insert(old_node_key.clone(), is_leaf);
+            assert!(previous.is_none(), "Node gets stale twice unexpectedly.");
         } else if is_leaf {
             self.num_new_leaves -= 1;
         }
@@ -328,13 +322,24 @@ where
             self.put_node(root_node_key, root_node)?;
         }
 
+        // When appending to an existing version, a node on disk may have been replaced by one with
+        // the same key. It is overwritten in place, so it must not be reported as stale: pruning
+        // would delete its replacement.
+        let node_cache = &self.node_cache;
+        self.stale_node_index_cache
+            .retain(|node_key, _| !node_cache.contains_key(node_key));
+
         // Transfer all the state from this version of the cache into the immutable version of the
         // cache, draining it and resetting it as we go:
         let node_stats = NodeStats {
             new_nodes: self.node_cache.len(),
             new_leaves: self.num_new_leaves,
             stale_nodes: self.stale_node_index_cache.len(),
-            stale_leaves: self.num_stale_leaves,
+            stale_leaves: self
+                .stale_node_index_cache
+                .values()
+                .filter(|is_leaf| **is_leaf)
+                .count(),
         };
         self.frozen_cache.node_stats.push(node_stats);
         self.frozen_cache
@@ -346,14 +351,13 @@ where
             .extend(
                 self.stale_node_index_cache
                     .drain()
-                    .map(|node_key| StaleNodeIndex {
+                    .map(|(node_key, _)| StaleNodeIndex {
                         stale_since_version,
                         node_key,
                     }),
             );
 
         // Clean up
-        self.num_stale_leaves = 0;
         self.num_new_leaves = 0;
 
         // Prepare for the next version after freezing
-- 
2.43.0


From 23af83cde379ab26985f476e73630ba4c05fc33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 09/12] fix: do not read nodes deleted earlier in the same
 append from storage

---
 src/tree_cache.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 6e519fd..cfef930 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -221,6 +221,9 @@ where
             node.clone()
         } else if let Some(node) = self.frozen_cache.node_cache.nodes().get(node_key) {
             node.clone()
+        } else if self.stale_node_index_cache.contains_key(node_key) {
+            // Deleted since, although the underlying storage still has it.
+            bail!("Node with key {:?} has been deleted", node_key)
         } else {
             self.reader.get_node(node_key)?
         })
@@ -233,6 +236,9 @@ where
             Some(node.clone())
         } else if let Some(node) = self.frozen_cache.node_cache.nodes().get(node_key) {
             Some(node.clone())
+        } else if self.stale_node_index_cache.contains_key(node_key) {
+            // Deleted since, although the underlying storage still has it.
+            None
         } else {
             self.reader.get_node_option(node_key)?
         })
-- 
2.43.0


From 80618a7531b4b60f7fc11fd221aff47e03c65a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:12 +0000
Subject: [PATCH 10/12] fix: reject instead of panicking when an account is
 missing after a restore is resumed

---
 src/restore.rs | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index 354ee95..cccb63f 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -84,6 +84,15 @@ impl InternalInfo {
         self.children[index] = Some(child_info);
     }
 
+    /// Whether the only known child is a leaf.
+    fn has_single_leaf(&self) -> bool {
+        let mut children = self.children.iter().flatten();
+        matches!(
+            (children.next(), children.next()),
+            (Some(ChildInfo::Leaf { .. }), None)
+        )
+    }
+
     /// Converts `self` to an internal node, assuming all of its children are already known and
     /// fully initialized.
     fn into_internal_node<H: SimpleHasher>(mut self, version: Version) -> (NodeKey, InternalNode) {
@@ -307,9 +316,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 );
             }
             let value_hash = ValueHash::with::<H>(value.as_slice());
+            self.add_one(key, value_hash)?;
             self.frozen_nodes.insert_value(self.version, key, value);
-
-            self.add_one(key, value_hash);
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -325,7 +333,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
@@ -352,14 +360,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                             new_key,
                             value_hash,
                             nibbles,
-                        );
+                        )?;
                         break;
                     }
                 }
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -375,6 +383,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
@@ -387,7 +396,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         new_key: KeyHash,
         value_hash: ValueHash,
         mut remaining_nibbles: NibbleIterator,
-    ) {
+    ) -> Result<()> {
         let num_existing_partial_nodes = self.partial_nodes.len();
 
         // The node at this position becomes an internal node. Since we may insert more nodes at
@@ -440,7 +449,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze(self.partial_nodes.len())?;
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -457,12 +466,27 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     node: LeafNode::new(new_key, value_hash),
                 },
             );
+        Ok(())
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
+        // After an interruption, the leaf that made the lowest node an internal one may still be
+        // missing. It has to come before anything outside this node does.
+        if self.partial_nodes.len() > num_remaining_partial_nodes {
+            ensure!(
+                !self
+                    .partial_nodes
+                    .last()
+                    .expect("Must have at least one partial node.")
+                    .has_single_leaf(),
+                "The account following the last one stored is missing.",
+            );
+        }
+
         self.freeze_previous_leaf();
         self.freeze_internal_nodes(num_remaining_partial_nodes);
+        Ok(())
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -686,7 +710,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             return self.store.write_node_batch(&self.frozen_nodes);
         }
 
-        self.freeze(0);
+        self.freeze(0)?;
         let root_hash = self
             .frozen_nodes
             .get_node(&NodeKey::new_empty_path(self.version))
-- 
2.43.0


From e9f5cfe1a39ee0feea77eff82cece9dd42052a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:08 +0000
Subject: [PATCH 11/12] fix: store the root of a version 0 that leaves a
 pre-genesis tree unchanged

---
 src/tree_cache.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index cfef930..c7988d4 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -316,8 +316,7 @@ where
         // would be faced with a non-existent root node at the version it is expecting, since it's
         // internally expected that the version increments every time the tree cache is frozen.
         // The previous root node is superseded by its copy.
-        if self.next_version > 0
-            && self.node_cache.is_empty()
+        if self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
             && root_node_key.version() != self.next_version
         {
-- 
2.43.0


From ef737d54b826de08f6f73bd5c4ac987c7bd7cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 12/12] fix: a restore does not resume on a tree of another
 version

When the storage held a (pruned) tree or an interrupted restore of another
version, JellyfishMerkleRestore::new took that tree's nodes for its own
partial nodes: chunks were accepted and finish panicked.
---
 src/restore.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/restore.rs b/src/restore.rs
index cccb63f..64653f8 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -177,7 +177,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         let tree_reader = Arc::clone(&store);
         let (partial_nodes, previous_leaf) =
             if let Some((node_key, leaf_node)) = tree_reader.get_rightmost_leaf()? {
-                // TODO: confirm rightmost leaf is at the desired version
+                // Only an interrupted restoration of the same version can be resumed.
+                ensure!(
+                    node_key.version() == version,
+                    "The storage holds a tree at version {}, not a partial restoration of \
+                     version {}.",
+                    node_key.version(),
+                    version,
+                );
                 // If the system crashed in the middle of the previous restoration attempt, we need
                 // to recover the partial nodes to the state right before the crash.
                 (
-- 
2.43.0

