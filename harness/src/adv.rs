//! Proofs made up by an adversary: every field of a decoded proof is a solver variable.
use crate::model;
use crate::s;
use crate::t::*;
use borsh::BorshDeserialize;

pub const NULL: usize = 0;
pub const INTERNAL: usize = 1;
pub const LEAF: usize = 2;
/// borsh encoding of one sibling: kind, 64 bytes
pub fn sibling(out: &mut Vec<u8>, kind: usize) {
    out.push(kind as u8);
    if kind != NULL {
        out.extend(s::b32());
        out.extend(s::b32());
    }
}
pub fn encode(leaf: Option<(K, K)>, kinds: &[usize]) -> Vec<u8> {
    let mut o = vec![];
    match leaf {
        None => o.push(0),
        Some((k, v)) => {
            o.push(1);
            o.extend(k);
            o.extend(v);
        }
    }
    o.extend((kinds.len() as u32).to_le_bytes());
    for k in kinds {
        sibling(&mut o, *k);
    }
    o
}
/// up to `max` siblings of any kinds
fn kinds(max: usize) -> Vec<usize> {
    let n = s::choice(max + 1);
    (0..n).map(|_| s::choice(3)).collect()
}
/// any leaf: none, one for `q`, or one for another key (arbitrary in its first byte and its last,
/// or (wholly) everywhere)
fn leaf(q: &K, wholly: bool) -> Option<(K, K)> {
    match s::choice(3) {
        0 => None,
        1 => Some((*q, s::b32())),
        _ => {
            let k = if wholly {
                s::b32()
            } else {
                let mut k = *q;
                s::fill(&mut k[..1]);
                s::fill(&mut k[31..]);
                k
            };
            Some((k, s::b32()))
        }
    }
}
/// the sets of pairs whose proofs are attacked; the first nibbles decide the shape
pub fn trees(v: &mut dyn FnMut() -> V) -> Vec<(K, V)> {
    let k = |n: u8, tag: u8| key_at(0, n, tag);
    let keys = match s::choice(7) {
        0 => vec![],
        1 => vec![k(5, 0)],
        2 => vec![k(5, 0), k(13, 1)],                        // differ in the first bit
        3 => vec![k(5, 0), k(4, 1)],                         // in the fourth
        4 => vec![k(5, 0), k(7, 1), k(2, 2)],                // third and second
        5 => vec![k(5, 0), k(3, 1), k(9, 2)],                // second and first
        _ => vec![k(5, 0), k(7, 1), k(6, 2)],                // third and fourth
    };
    keys.into_iter().map(|k| (k, v())).collect()
}
fn val1() -> V {
    s::bytes(1)
}
pub fn pick_key(l: &[(K, V)]) -> K {
    match s::choice(l.len() + 3) {
        0 => key_at(0, 5, 8),  // shares the first nibble of the first key
        1 => key_at(0, 12, 8),
        2 => key_at(0, 1, 8),
        i => l[i - 3].0,
    }
}
fn find<'a>(l: &'a [(K, V)], q: &K) -> Option<&'a V> {
    l.iter().find(|e| e.0 == *q).map(|e| &e.1)
}

// ---- C04 ----
pub fn c04(max: usize, wholly: bool) {
    let l = trees(&mut val1);
    let root = RootHash(model::root(&l));
    let q = pick_key(&l);
    let claim: Option<V> = if s::choice(2) == 0 { None } else { Some(s::bytes(1)) };
    let lf = leaf(&q, wholly);
    // an inclusion claim needs a leaf for the key itself; everything else is rejected at once
    let enc = encode(lf, &kinds(max));
    let p = Proof::try_from_slice(&enc).unwrap();
    if p.verify(root, KeyHash(q), claim.as_ref()).is_ok() {
        s::reach(1);
        s::check(opt_eq(&claim, find(&l, &q)), 1);
    }
    s::reach(0);
}

/// whatever the root: what verifies is a leaf for the key itself, or the emptiness of its subtree
pub fn c04_shape() {
    let q = base();
    let root = RootHash(s::b32());
    let n = [0, 1, 2, 3, 4, 9, 255, 256][s::choice(8)];
    // a leaf that agrees with the key in the first `n` bits, give or take
    let lf = match s::choice(6) {
        0 => None,
        1 => Some((q, s::b32())),
        i => {
            let mut k = q;
            let at = (n + i).saturating_sub(3).min(255);
            k[at / 8] ^= 128 >> (at % 8);
            if at < 248 {
                k[31] ^= 1;
            }
            Some((k, s::b32()))
        }
    };
    let mut ks = vec![NULL; n];
    if n > 0 {
        ks[0] = s::choice(3);
    }
    let claim: Option<V> = if s::choice(2) == 0 { None } else { Some(s::bytes(1)) };
    let p = Proof::try_from_slice(&encode(lf, &ks)).unwrap();
    if p.verify(root, KeyHash(q), claim.as_ref()).is_ok() {
        s::reach(1);
        match (&claim, lf) {
            (Some(x), Some((k, v))) => s::check(k == q && s::eq(&v, &s::hash(x)), 1),
            (Some(_), None) => s::check(false, 2),
            (None, Some((k, _))) => s::check((0..n).all(|i| model::bit(&k, i) == model::bit(&q, i)) && k != q, 3),
            (None, None) => {}
        }
    }
    s::reach(0);
}

/// long values: the claimed one differs in bytes near the ends, or in its length
fn big_pair() -> (V, V) {
    let n = [256, 4097, 65536, 70000][s::choice(4)];
    let m = [n, n - 1, n + 1, 1][s::choice(4)];
    (big_val(n), big_val(m))
}
pub fn c04_big() {
    let (v, claim) = big_pair();
    let (a, b) = (base(), key_at(0, 9, 1));
    let mut l = vec![(a, v)];
    if s::choice(2) == 0 {
        l.push((b, s::bytes(1)));
    }
    let root = RootHash(model::root(&l));
    let p = Proof::try_from_slice(&encode(leaf(&a, false), &kinds(1))).unwrap();
    if p.verify(root, KeyHash(a), Some(&claim)).is_ok() {
        s::reach(1);
        s::check(s::eq(&claim, &l[0].1), 1);
    }
    s::reach(0);
}
// ---- C06 ----
pub fn c06_big() {
    let (v, x) = big_pair();
    let (a, b) = (base(), key_at(0, 9, 1));
    let mut l = vec![(a, v)];
    if s::choice(2) == 0 {
        l.push((b, s::bytes(1)));
    }
    let old = RootHash(model::root(&l));
    let new = RootHash(s::b32());
    let q = [a, b, key_at(0, 5, 8)][s::choice(3)];
    let p = Proof::try_from_slice(&encode(leaf(&q, false), &kinds(1))).unwrap();
    if UpdateProof::new(vec![p]).verify_update(old, new, vec![(KeyHash(q), Some(x.clone()))]).is_ok() {
        s::reach(1);
        apply(&mut l, &q, &Some(x));
        s::check(s::eq(&new.0, &model::root(&l)), 1);
    }
    s::reach(0);
}
fn apply(l: &mut Vec<(K, V)>, k: &K, x: &Option<V>) {
    l.retain(|e| e.0 != *k);
    if let Some(x) = x {
        l.push((*k, x.clone()));
    }
}
pub type UpdateProof = jmt::proof::UpdateMerkleProof<s::SymHasher>;
pub fn c06(updates: usize, max: usize, wholly: bool) {
    let mut l = trees(&mut val1);
    let old = RootHash(model::root(&l));
    let new = RootHash(s::b32());
    let mut ups = vec![];
    let mut ps = vec![];
    for _ in 0..updates {
        let q = pick_key(&l);
        let x = if s::choice(2) == 0 { None } else { Some(s::bytes(1)) };
        let enc = encode(leaf(&q, wholly), &kinds(max));
        ps.push(Proof::try_from_slice(&enc).unwrap());
        ups.push((KeyHash(q), x.clone()));
        apply(&mut l, &q, &x);
    }
    let p = UpdateProof::new(ps);
    if p.verify_update(old, new, ups).is_ok() {
        s::reach(1);
        s::check(s::eq(&new.0, &model::root(&l)), 1);
    }
    s::reach(0);
}
/// fewer or more proofs than changes, none of either
pub fn c06_count() {
    let mut l = trees(&mut val1);
    let old = RootHash(model::root(&l));
    let new = RootHash(s::b32());
    let (nu, np) = [(0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)][s::choice(7)];
    let mut ups = vec![];
    for _ in 0..nu {
        let q = pick_key(&l);
        let x = if s::choice(2) == 0 { None } else { Some(s::bytes(1)) };
        ups.push((KeyHash(q), x.clone()));
        apply(&mut l, &q, &x);
    }
    let q = ups.first().map_or(base(), |u: &(KeyHash, Option<V>)| u.0 .0);
    let ps = (0..np).map(|_| Proof::try_from_slice(&encode(leaf(&q, false), &kinds(1))).unwrap()).collect();
    if UpdateProof::new(ps).verify_update(old, new, ups).is_ok() {
        s::reach(1);
        s::check(s::eq(&new.0, &model::root(&l)), 3);
    }
    s::reach(0);
}
/// deep chains: two keys that part at nibble `d`; the proof has the right number of siblings, give
/// or take, most of them empty as in the true one
pub fn deep(update: bool, all: bool) {
    let d = [1, 16, 63, 2, 5][s::choice(if all { 5 } else { 3 })];
    let a = base();
    let b = key_at(d, nib(&a, d) ^ [8, 1, 6, 4][s::choice(if all { 4 } else { 2 })], 1);
    let mut l = vec![(a, s::bytes(1)), (b, s::bytes(1))];
    let root = RootHash(model::root(&l));
    let depth = (0..256).find(|i| model::bit(&a, *i) != model::bit(&b, *i)).unwrap() + 1;
    let q = match s::choice(4) {
        0 => a,
        1 => b,
        2 => key_at(d, nib(&a, d) ^ 2, 4),
        _ => key_at(d - 1, nib(&a, d - 1) ^ 1, 4),
    };
    let n = [depth - 1, depth, depth + 1, depth & !3, depth.div_ceil(4) * 4][s::choice(if all { 5 } else { 3 })];
    s::assume(n <= 256);
    let mut ks = vec![NULL; n];
    // one or two siblings of any kind, near either end
    for _ in 0..if all { 2 } else { 1 } {
        let at = [0, 1, n / 2, n - 1][s::choice(4)].min(n - 1);
        ks[at] = s::choice(3);
    }
    let lf = match s::choice(4) {
        0 => None,
        1 => Some((q, s::b32())),
        2 => Some((if q == a { b } else { a }, s::b32())),
        _ => {
            let mut k = q;
            let p = n.min(255) / 8;
            s::fill(&mut k[p..p + 1]);
            Some((k, s::b32()))
        }
    };
    let p = Proof::try_from_slice(&encode(lf, &ks)).unwrap();
    let x = if s::choice(2) == 0 { None } else { Some(s::bytes(1)) };
    if update {
        let new = RootHash(s::b32());
        let ups = vec![(KeyHash(q), x.clone())];
        if UpdateProof::new(vec![p]).verify_update(root, new, ups).is_ok() {
            s::reach(1);
            apply(&mut l, &q, &x);
            s::check(s::eq(&new.0, &model::root(&l)), 2);
        }
    } else if p.verify(root, KeyHash(q), x.as_ref()).is_ok() {
        s::reach(1);
        s::check(opt_eq(&x, find(&l, &q)), 2);
    }
    s::reach(0);
}

// ---- C23 ----
/// any number of siblings around the limits, any key agreement, any root
pub fn c23(which: usize, all: bool) {
    let n = [0, 1, 3, 4, 5, 8, 255, 256, 257, 2, 7, 9, 128, 300][s::choice(if all { 14 } else { 9 })];
    let fill = s::choice(2); // all empty, or all inner nodes with arbitrary contents at both ends
    let mut ks = vec![if fill == 0 { NULL } else { INTERNAL }; n];
    for i in [0, n.saturating_sub(1)] {
        if i < n && (all || i == 0) {
            ks[i] = s::choice(3);
        }
    }
    let q: K = base();
    let lf = match s::choice(3) {
        0 => None,
        1 => Some((q, s::b32())),
        _ => {
            // agrees with the key in any number of bits
            let mut k = q;
            s::fill(&mut k[..1]);
            let c = if all { s::choice(34) } else { [0, 33, 2, 9, 31, 32][s::choice(6)] };
            if c > 0 && c < 33 {
                k = q;
                k[c - 1] ^= 1 << (c % 8);
            }
            Some((k, s::b32()))
        }
    };
    let mut o = vec![];
    if which < 2 {
        match lf {
            None => o.push(0),
            Some((k, v)) => {
                o.push(1);
                o.extend(k);
                o.extend(v);
            }
        }
    }
    o.extend((n as u32).to_le_bytes());
    for (i, k) in ks.iter().enumerate() {
        o.push(*k as u8);
        if *k != NULL {
            if i < 2 || i + 2 > n {
                o.extend(s::b32());
                o.extend(s::b32());
            } else {
                o.extend([i as u8; 64]);
            }
        }
    }
    let root = RootHash(s::b32());
    match which {
        0 => {
            let p = Proof::try_from_slice(&o).unwrap();
            let x = if s::choice(2) == 0 { None } else { Some(s::bytes(1)) };
            let _ = p.verify(root, KeyHash(q), x.as_ref());
        }
        1 => {
            let p = Proof::try_from_slice(&o).unwrap();
            // the root the proof itself leads to, so that verification goes on
            let root = if p.leaf().is_some() && n <= 256 && s::choice(2) == 0 { p.root_hash() } else { root };
            let x = if s::choice(2) == 0 { None } else { Some(s::bytes(1)) };
            let ups = match s::choice(3) {
                0 => vec![],
                1 => vec![(KeyHash(q), x)],
                _ => vec![(KeyHash(q), x), (KeyHash(q), None)],
            };
            let two = Proof::try_from_slice(&encode(None, &[])).unwrap();
            let ps = if s::choice(2) == 0 { vec![p] } else { vec![p, two] };
            let _ = UpdateProof::new(ps).verify_update(root, RootHash(s::b32()), ups);
        }
        _ => {
            let p = RangeProof::try_from_slice(&o).unwrap();
            let leaf = Proof::try_from_slice(&encode(Some((lf.map_or(q, |l| l.0), s::b32())), &[])).unwrap().leaf().unwrap();
            let m = [0, 1, 3, 128, 255, 256, 257][s::choice(7)];
            let _ = p.verify(root, leaf, vec![[7; 32]; m]);
        }
    }
    s::reach(0);
}
pub type RangeProof = jmt::proof::SparseMerkleRangeProof<s::SymHasher>;

// ---- C15 ----
/// any last leaf, any left siblings, any right siblings: what verifies is the true split
pub fn c15(max: usize, wholly: bool) {
    let l = trees(&mut val1);
    let root = RootHash(model::root(&l));
    let q = pick_key(&l);
    let (k, vh) = if wholly && s::choice(2) == 0 { (s::b32(), s::b32()) } else { (q, s::b32()) };
    let leaf = Proof::try_from_slice(&encode(Some((k, vh)), &[])).unwrap().leaf().unwrap();
    let left: Vec<K> = (0..s::choice(max + 1)).map(|_| s::b32()).collect();
    let n = s::choice(max + 1);
    let mut o = (n as u32).to_le_bytes().to_vec();
    let mut right = vec![];
    for _ in 0..n {
        let kind = s::choice(3);
        let at = o.len() + 1;
        sibling(&mut o, kind);
        let half = |i: usize| -> K { o[at + 32 * i..at + 32 * i + 32].try_into().unwrap() };
        right.push(match kind {
            NULL => model::EMPTY,
            INTERNAL => model::inner_hash(&half(0), &half(1)),
            _ => model::leaf_hash(&half(0), &half(1)),
        });
    }
    let p = RangeProof::try_from_slice(&o).unwrap();
    if p.verify(root, leaf, left.clone()).is_ok() {
        s::reach(1);
        match l.iter().find(|e| s::eq(&e.0, &k)) {
            None => s::check(false, 1),
            Some(e) => {
                s::check(s::eq(&s::hash(&e.1), &vh), 2);
                let (wl, wr) = crate::hist::sides(&l, &e.0);
                s::check(left.len() == wl.len() && left.iter().zip(&wl).all(|(x, y)| s::eq(x, y)), 3);
                s::check(right.len() == wr.len() && right.iter().zip(&wr).all(|(x, y)| s::eq(x, y)), 4);
            }
        }
    }
    s::reach(0);
}
