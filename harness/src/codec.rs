//! Encodings.
use crate::adv::*;
use crate::s;
use crate::t::*;
use borsh::{BorshDeserialize, BorshSerialize};

fn both<T: BorshSerialize + BorshDeserialize + serde::Serialize + serde::de::DeserializeOwned + PartialEq>(x: &T, tag: u64) -> T {
    let b = bincode::serialize(x).unwrap();
    let y: T = bincode::deserialize(&b).unwrap();
    s::check(y == *x, tag + 2);
    trip(x, tag)
}
fn trip<T: BorshSerialize + BorshDeserialize + PartialEq>(x: &T, tag: u64) -> T {
    let b = borsh::to_vec(x).unwrap();
    let y = T::try_from_slice(&b).unwrap();
    s::check(y == *x, tag);
    s::check(s::eq(&borsh::to_vec(&y).unwrap(), &b), tag + 1);
    y
}
#[derive(Default)]
pub struct C19;
impl Check for C19 {
    fn computed(&mut self, w: &W, sets: &[Set], first: u64, _roots: &[RootHash], b: &TreeUpdateBatch) {
        let c = trip(b, 1);
        s::check(c.node_batch.nodes().len() == b.node_batch.nodes().len(), 3);
        for e in &b.stale_node_index_batch {
            trip(e, 4);
        }
        let (_, p, _) = w.tree().put_value_set_with_proof(kh(sets[0].clone()), first).unwrap();
        let enc = borsh::to_vec(&p).unwrap();
        let q = UpdateProof::try_from_slice(&enc).unwrap();
        s::check(s::eq(&borsh::to_vec(&q).unwrap(), &enc), 6);
    }
    fn end(&mut self, w: &W) {
        let i = w.st.i.borrow();
        let mut seen: Vec<Vec<u8>> = vec![];
        for (k, n) in &i.nodes {
            let k2 = both(k, 10);
            s::check(k2.version() == k.version() && k2.nibble_path().nibbles().eq(k.nibble_path().nibbles()), 13);
            let n2 = both(n, 14);
            match (n, &n2) {
                (Node::Leaf(a), Node::Leaf(b)) => {
                    s::check(s::eq(&a.hash::<s::SymHasher>(), &b.hash::<s::SymHasher>()), 17);
                    both(a, 20);
                }
                (Node::Internal(a), Node::Internal(b)) => {
                    s::check(s::eq(&a.hash::<s::SymHasher>(), &b.hash::<s::SymHasher>()) && a.leaf_count() == b.leaf_count(), 18);
                    both(a, 23);
                }
                (Node::Null, Node::Null) => {}
                _ => s::check(false, 19),
            }
            let e = borsh::to_vec(k).unwrap();
            for f in &seen {
                s::check(!s::eq(&e, f), 26);
            }
            seen.push(e);
        }
        for (j, &v) in w.vers.iter().enumerate() {
            let root = RootHash(w.roots[j]);
            both(&root, 27);
            for k in &w.keys {
                both(&KeyHash(*k), 30);
                let (x, p) = w.tree().get_with_proof(KeyHash(*k), v).unwrap();
                s::check(both(&p, 33).verify(root, KeyHash(*k), x.as_ref()).is_ok(), 36);
                if let Some(l) = p.leaf() {
                    both(&l, 37);
                }
                if x.is_some() {
                    both(&w.tree().get_range_proof(KeyHash(*k), v).unwrap(), 40);
                }
            }
        }
    }
}
fn path(n: usize) -> NibblePath {
    // nibbles come from the key of a node: all sixteen values at every position
    let k = s::b32();
    let e = {
        let mut o = vec![];
        o.extend((n as u64).to_le_bytes());
        let m = n.div_ceil(2);
        o.extend((m as u32).to_le_bytes());
        o.extend(&k[..m]);
        if n % 2 == 1 {
            let l = o.len() - 1;
            o[l] &= 0xf0;
        }
        o
    };
    NibblePath::try_from_slice(&e).unwrap()
}
/// different objects, different encodings
pub fn distinct() {
    match s::choice(3) {
        0 => {
            let len = [0, 1, 2, 5, 63, 64];
            let a = NodeKey::new(s::bits(64), path(len[s::choice(6)]));
            let b = NodeKey::new(s::bits(64), path(len[s::choice(6)]));
            if s::eq(&borsh::to_vec(&a).unwrap(), &borsh::to_vec(&b).unwrap()) {
                s::check(a == b, 1);
            }
            if s::eq(&bincode::serialize(&a).unwrap(), &bincode::serialize(&b).unwrap()) {
                s::check(a == b, 2);
            }
        }
        1 => {
            let a = Node::Leaf(LeafNode::new(KeyHash(s::b32()), ValueHash(s::b32())));
            let b = if s::choice(2) == 0 { Node::Null } else { Node::Leaf(LeafNode::new(KeyHash(s::b32()), ValueHash(s::b32()))) };
            if s::eq(&borsh::to_vec(&a).unwrap(), &borsh::to_vec(&b).unwrap()) {
                s::check(a == b, 3);
            }
        }
        _ => {
            let mk = |n: usize| {
                let k: Vec<usize> = (0..n).map(|_| s::choice(3)).collect();
                let l = if s::choice(2) == 0 { None } else { Some((s::b32(), s::b32())) };
                Proof::try_from_slice(&encode(l, &k)).unwrap()
            };
            let a = mk(s::choice(3));
            let b = mk(s::choice(3));
            if s::eq(&borsh::to_vec(&a).unwrap(), &borsh::to_vec(&b).unwrap()) {
                s::check(a == b, 4);
            }
        }
    }
    s::reach(0);
}
// ---- malformed input ----
fn rt<T: BorshSerialize + BorshDeserialize>(b: &[u8]) {
    if let Ok(x) = T::try_from_slice(b) {
        s::reach(1);
        // what was accepted is the encoding of what was understood
        s::check(s::eq(&borsh::to_vec(&x).unwrap(), b), 1);
    }
}
/// the bytes written so far, and whether a length among them is wrong (from there on contents are
/// constant, since they may be read as lengths)
#[derive(Default)]
struct Out {
    o: Vec<u8>,
    wrong: bool,
    /// in bincode (lengths of 8 bytes, tags of 4) instead of borsh
    bin: bool,
}
impl std::ops::Deref for Out {
    type Target = Vec<u8>;
    fn deref(&self) -> &Vec<u8> {
        &self.o
    }
}
impl std::ops::DerefMut for Out {
    fn deref_mut(&mut self) -> &mut Vec<u8> {
        &mut self.o
    }
}
fn any(o: &mut Out, n: usize) {
    let b = if o.wrong { vec![1; n] } else { s::bytes(n) };
    o.extend(b)
}
/// a length field: right, or one of several wrong ones
fn len(o: &mut Out, n: usize) {
    let c = if o.wrong { 0 } else { s::choice(4) };
    o.wrong |= c > 0;
    let v = [n as u32, n as u32 + 1, (n as u32).wrapping_sub(1), 0x7fff_ffff][c];
    o.extend(v.to_le_bytes());
    if o.bin {
        o.extend([0; 4])
    }
}
fn tag(o: &mut Out, n: u8) -> u8 {
    let t = s::choice(n as usize + 1) as u8;
    o.push(if t == n { 0xfe } else { t });
    if o.bin {
        let hi = s::choice(2) as u8;
        o.extend([0, 0, hi])
    }
    t
}
/// the tag of an option: one byte in either encoding
fn opt(o: &mut Out) -> bool {
    let b = std::mem::take(&mut o.bin);
    let t = tag(o, 2);
    o.bin = b;
    t == 1
}
fn g_path(o: &mut Out) {
    any(o, 8);
    let n = [0, 1, 33][s::choice(3)];
    len(o, n);
    any(o, n);
}
fn g_nodekey(o: &mut Out) {
    any(o, 8);
    g_path(o)
}
fn g_node(o: &mut Out) {
    match tag(o, 3) {
        1 => {
            let (a, b) = [(99, 99), (0, 99), (0, 15), (7, 8)][s::choice(4)];
            let odd = s::choice(3);
            for i in 0..16 {
                if i == a || i == b {
                    o.push(1);
                    any(o, 40);
                    if tag(o, 2) == 1 {
                        any(o, 8)
                    }
                } else {
                    o.push(if (odd, i) == (1, 3) { 2 } else { 0 })
                }
            }
            any(o, 16)
        }
        2 => any(o, 64),
        _ => {}
    }
}
fn g_leaf(o: &mut Out) {
    if opt(o) {
        any(o, 64)
    }
}
fn g_siblings(o: &mut Out, max: usize) {
    let n = s::choice(max + 1);
    len(o, n);
    for _ in 0..n {
        if tag(o, 3) > 0 {
            any(o, 64)
        }
    }
}
fn g_proof(o: &mut Out) {
    g_leaf(o);
    g_siblings(o, 2)
}
fn g_batch(o: &mut Out) {
    let n = s::choice(2);
    len(o, n);
    if n > 0 {
        any(o, 16);
        let k = s::choice(2);
        len(o, k);
        any(o, k);
        match tag(o, 3) {
            1 => {
                o.extend([0; 16]);
                any(o, 16)
            }
            2 => any(o, 64),
            _ => {}
        }
    }
    let n = s::choice(2);
    len(o, n);
    if n > 0 {
        any(o, 40);
        if tag(o, 2) == 1 {
            len(o, 2);
            any(o, 2)
        }
    }
}
/// every kind of encoding with arbitrary contents, wrong tags and wrong lengths, complete, cut
/// short or too long
pub fn garbage() {
    let mut o = Out::default();
    let kind = s::choice(9);
    match kind {
        0 => g_nodekey(&mut o),
        1 => g_node(&mut o),
        2 => g_proof(&mut o),
        3 => g_siblings(&mut o, 2),
        4 => {
            let n = s::choice(2);
            len(&mut o, n);
            for _ in 0..n {
                g_proof(&mut o)
            }
        }
        5 => {
            any(&mut o, 8);
            g_nodekey(&mut o)
        }
        6 | 7 => {
            g_batch(&mut o);
            if kind == 7 {
                len(&mut o, 0);
                let n = s::choice(2);
                len(&mut o, n);
                any(&mut o, 32 * n)
            }
        }
        _ => any(&mut o, 64),
    }
    let n = o.len();
    let to = [n, n.saturating_sub(1), n / 2, n + 1][s::choice(4)];
    o.resize(to, 0);
    match kind {
        0 => rt::<NodeKey>(&o),
        1 => rt::<Node>(&o),
        2 => rt::<Proof>(&o),
        3 => rt::<RangeProof>(&o),
        4 => rt::<UpdateProof>(&o),
        5 => rt::<StaleNodeIndex>(&o),
        6 => rt::<NodeBatch>(&o),
        7 => rt::<TreeUpdateBatch>(&o),
        _ => {
            rt::<LeafNode>(&o);
            rt::<jmt::proof::SparseMerkleLeafNode>(&o);
            rt::<KeyHash>(&o[..o.len().min(32)]);
            rt::<RootHash>(&o[..o.len().min(32)]);
            rt::<ValueHash>(&o[..o.len().min(31)]);
        }
    }
    s::reach(0);
}
fn bt<T: serde::Serialize + serde::de::DeserializeOwned>(b: &[u8]) {
    if let Ok(x) = bincode::deserialize::<T>(b) {
        s::reach(1);
        let e = bincode::serialize(&x).unwrap();
        s::check(e.len() <= b.len() && s::eq(&e, &b[..e.len()]), 1);
    }
}
/// the same through serde
pub fn serde() {
    let mut o = Out { bin: true, ..Default::default() };
    let kind = s::choice(5);
    match kind {
        0 => g_nodekey(&mut o),
        1 => g_node(&mut o),
        2 => g_proof(&mut o),
        3 => g_siblings(&mut o, 2),
        _ => any(&mut o, 64),
    }
    let n = o.len();
    let to = [n, n.saturating_sub(1), n / 2, n + 1][s::choice(4)];
    o.resize(to, 0);
    match kind {
        0 => bt::<NodeKey>(&o),
        1 => bt::<Node>(&o),
        2 => bt::<Proof>(&o),
        3 => bt::<RangeProof>(&o),
        _ => {
            bt::<LeafNode>(&o);
            bt::<jmt::proof::SparseMerkleLeafNode>(&o);
            bt::<KeyHash>(&o[..o.len().min(32)]);
            bt::<RootHash>(&o[..o.len().min(32)]);
            bt::<ValueHash>(&o[..o.len().min(31)]);
        }
    }
    s::reach(0);
}
/// any short byte string
pub fn short(max: usize) {
    let n = s::choice(max + 1);
    let b = s::bytes(n);
    match s::choice(8) {
        0 => rt::<NodeKey>(&b),
        1 => rt::<Node>(&b),
        2 => rt::<Proof>(&b),
        3 => rt::<RangeProof>(&b),
        4 => rt::<UpdateProof>(&b),
        5 => rt::<StaleNodeIndex>(&b),
        6 => rt::<NodeBatch>(&b),
        _ => rt::<TreeUpdateBatch>(&b),
    }
    s::reach(0);
}
