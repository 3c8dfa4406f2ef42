//! Independent reference: a versionless map and the sparse Merkle root written from the published
//! definition (bitwise recursion, a lone leaf stands for its whole subtree).
use crate::s;

pub type K = [u8; 32];
pub const EMPTY: [u8; 32] = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";

pub fn leaf_hash(k: &K, vh: &[u8; 32]) -> [u8; 32] {
    let mut b = Vec::with_capacity(80);
    b.extend_from_slice(b"JMT::LeafNode");
    b.extend_from_slice(k);
    b.extend_from_slice(vh);
    s::hash(&b)
}
pub fn inner_hash(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
    let mut b = Vec::with_capacity(80);
    b.extend_from_slice(b"JMT::IntrnalNode");
    b.extend_from_slice(l);
    b.extend_from_slice(r);
    s::hash(&b)
}
pub fn bit(k: &K, i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}
pub fn nib(k: &K, i: usize) -> u8 {
    if i % 2 == 0 {
        k[i / 2] >> 4
    } else {
        k[i / 2] & 15
    }
}
pub fn root_at(items: &[(K, [u8; 32])], depth: usize) -> [u8; 32] {
    match items.len() {
        0 => EMPTY,
        1 => leaf_hash(&items[0].0, &items[0].1),
        _ => {
            let mut l = vec![];
            let mut r = vec![];
            for x in items {
                if bit(&x.0, depth) {
                    r.push(*x)
                } else {
                    l.push(*x)
                }
            }
            inner_hash(&root_at(&l, depth + 1), &root_at(&r, depth + 1))
        }
    }
}
/// root of a set of (key, value) with distinct keys
pub fn root(items: &[(K, Vec<u8>)]) -> [u8; 32] {
    let v: Vec<(K, [u8; 32])> = items.iter().map(|(k, v)| (*k, s::hash(v))).collect();
    root_at(&v, 0)
}
