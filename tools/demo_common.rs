//! Shared by the demonstrations: a store, histories, and a reference computation of the root.
#![allow(dead_code, unused_imports)]
pub use jmt::mock::MockTreeStore;
pub use jmt::proof::*;
pub use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
pub use jmt::storage::*;
pub use jmt::*;
pub use sha2::Sha256;
pub use std::collections::BTreeMap;
pub use std::sync::Arc;

pub type Set = Vec<(KeyHash, Option<Vec<u8>>)>;

/// the key with the given nibbles first, then `fill` bytes
pub fn key(nibbles: &[u8], fill: u8) -> KeyHash {
    let mut k = [fill; 32];
    for (i, n) in nibbles.iter().enumerate() {
        set(&mut k, i, *n);
    }
    KeyHash(k)
}
pub fn set(k: &mut [u8; 32], i: usize, n: u8) {
    k[i / 2] = if i % 2 == 0 { n << 4 | k[i / 2] & 15 } else { k[i / 2] & 0xf0 | n };
}
pub fn put(k: KeyHash, v: &[u8]) -> (KeyHash, Option<Vec<u8>>) {
    (k, Some(v.to_vec()))
}
pub fn tree(s: &MockTreeStore) -> Sha256Jmt<'_, MockTreeStore> {
    Sha256Jmt::new(s)
}
pub fn commit(s: &MockTreeStore, set: Set, v: u64) -> RootHash {
    let (r, b) = tree(s).put_value_set(set, v).unwrap();
    s.write_tree_update_batch(b).unwrap();
    r
}
pub fn hash(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = <Sha256 as SimpleHasher>::new();
    for p in parts {
        SimpleHasher::update(&mut h, p)
    }
    SimpleHasher::finalize(h)
}
pub const EMPTY: [u8; 32] = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";
pub fn leaf_hash(k: &KeyHash, v: &[u8]) -> [u8; 32] {
    hash(&[b"JMT::LeafNode", &k.0, &hash(&[v])])
}
pub fn bit(k: &KeyHash, i: usize) -> bool {
    k.0[i / 8] >> (7 - i % 8) & 1 == 1
}
/// the sparse Merkle root of a set of pairs
pub fn root_of(live: &[(KeyHash, Vec<u8>)]) -> RootHash {
    RootHash(sub(live, 0))
}
pub fn sub(live: &[(KeyHash, Vec<u8>)], d: usize) -> [u8; 32] {
    match live {
        [] => EMPTY,
        [(k, v)] => leaf_hash(k, v),
        _ => {
            let (r, l): (Vec<_>, Vec<_>) = live.iter().cloned().partition(|x| bit(&x.0, d));
            hash(&[b"JMT::IntrnalNode", &sub(&l, d + 1), &sub(&r, d + 1)])
        }
    }
}
/// every node reachable from the root of a version
pub fn reachable<R: TreeReader>(s: &R, v: u64) -> Vec<(NodeKey, Node)> {
    let mut out = vec![];
    let mut todo = vec![NodeKey::new(v, [].into_iter().collect())];
    while let Some(k) = todo.pop() {
        let n = s.get_node(&k).expect("reachable node is missing");
        if let Node::Internal(i) = &n {
            for (nib, c) in i.children_sorted() {
                let p: NibblePath = k.nibble_path().nibbles().chain([nib]).collect();
                todo.push(NodeKey::new(c.version, p));
            }
        }
        out.push((k, n));
    }
    out
}
