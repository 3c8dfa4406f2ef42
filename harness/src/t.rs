//! Histories: symbolic keys, values, versions and operation sequences driven through the public
//! API, with a plain log as the model. Each property plugs in a `Check`.
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use crate::model;
use crate::s::{self, SymHasher};
pub use jmt::mock::MockTreeStore;
pub use jmt::storage::*;
pub use jmt::*;
pub use std::sync::Arc;

pub type K = [u8; 32];
pub type V = Vec<u8>;
pub type Set = Vec<(K, Option<V>)>;
pub type Tree<'a> = JellyfishMerkleTree<'a, Store, SymHasher>;
pub use crate::store::Store;
pub type Proof = jmt::proof::SparseMerkleProof<SymHasher>;

/// a key whose nibbles take all sixteen values in turn
pub fn base() -> K {
    let mut k = [0u8; 32];
    for j in 0..64 {
        set_nib(&mut k, j, ((j * 7 + 5) % 16) as u8);
    }
    k
}
pub fn set_nib(k: &mut K, i: usize, n: u8) {
    k[i / 2] = if i % 2 == 0 { n << 4 | (k[i / 2] & 15) } else { k[i / 2] & 0xf0 | (n & 15) }
}
pub fn nib(k: &K, i: usize) -> u8 {
    model::nib(k, i)
}
pub fn sym_nib() -> u8 {
    s::bits(4) as u8
}
/// the base key with nibble `d` replaced by `n`; keys with different `tag` differ in the last byte
/// unless `d` is in it
pub fn key_at(d: usize, n: u8, tag: u8) -> K {
    let mut k = base();
    set_nib(&mut k, d, n);
    if d < 62 {
        k[31] ^= tag
    }
    k
}
pub fn kh(s: Set) -> Vec<(KeyHash, Option<V>)> {
    s.into_iter().map(|(k, v)| (KeyHash(k), v)).collect()
}

pub struct W {
    pub st: Arc<Store>,
    pub log: Vec<(u64, K, Option<V>)>,
    /// the pairs of the pre-genesis version, if there is one
    pub pre: Vec<(K, V)>,
    pub vers: Vec<u64>,
    pub roots: Vec<K>,
    /// keys to ask about (written or not)
    pub keys: Vec<K>,
    /// which call commits
    pub api: Api,
    nval: usize,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Api {
    Plain,
    /// put_value_set(s)_with_proof
    WithProof,
    /// batch_put_value_sets wherever it is applicable
    Batch,
}
/// no empty values (the ics23 verifier accepts none)
pub static NONEMPTY: AtomicBool = AtomicBool::new(false);
pub trait Check {
    /// an update was computed; not yet written, not yet in the log
    fn computed(&mut self, _w: &W, _sets: &[Set], _first: u64, _roots: &[RootHash], _b: &TreeUpdateBatch) {}
    /// versions `w.vers[n..]` were just committed
    fn committed(&mut self, _w: &W, _n: usize) {}
    fn end(&mut self, _w: &W) {}
}

impl W {
    pub fn new(keys: &[K]) -> W {
        W { st: Arc::new(Store::new()), log: vec![], pre: vec![], vers: vec![], roots: vec![], keys: keys.to_vec(), api: Api::Plain, nval: 0 }
    }
    /// on the crate's own in-memory store
    pub fn mock(keys: &[K]) -> W {
        W { st: Arc::new(Store::with_mock()), ..W::new(keys) }
    }
    /// on the same, allowing stored nodes to be written again
    pub fn overwriting(keys: &[K]) -> W {
        W { st: Arc::new(Store { mock: Some(MockTreeStore::new(true)), ..Store::new() }), ..W::new(keys) }
    }
    pub fn tree(&self) -> Tree<'_> {
        JellyfishMerkleTree::new(&*self.st)
    }
    /// symbolic contents; lengths take the values 1, 0, 2, 40, 32, 64, 300 in turn
    pub fn val(&mut self) -> V {
        let l = [1, 0, 2, 40, 32, 64, 300][self.nval % 7];
        let l = if l == 0 && NONEMPTY.load(Relaxed) { 3 } else { l };
        self.nval += 1;
        s::bytes(l)
    }
    pub fn put(&mut self, k: K) -> (K, Option<V>) {
        (k, Some(self.val()))
    }
    /// can the batch interface do it? (insertions; not on an empty store unless from version 0)
    pub fn batchable(&self, sets: &[Set], first: u64) -> bool {
        (first == 0 || !self.vers.is_empty()) && sets.iter().all(|s| !s.is_empty() && s.iter().all(|e| e.1.is_some()))
    }
    /// the update computed by one of the calls
    pub fn by(&self, api: Api, sets: &[Set], first: u64) -> (Vec<RootHash>, TreeUpdateBatch) {
        let t = self.tree();
        let all = || sets.iter().map(|s| kh(s.clone())).collect::<Vec<_>>();
        match api {
            Api::Batch if self.batchable(sets, first) => {
                let vs = sets.iter().map(|s| s.iter().map(|(k, x)| (KeyHash(*k), x.clone().unwrap())).collect()).collect();
                t.batch_put_value_sets(vs, None, first).unwrap()
            }
            Api::WithProof if sets.len() == 1 => {
                let (r, _, b) = t.put_value_set_with_proof(kh(sets[0].clone()), first).unwrap();
                (vec![r], b)
            }
            Api::WithProof => {
                let (r, b) = t.put_value_sets_with_proof(all(), first).unwrap();
                (r.into_iter().map(|e| e.0).collect(), b)
            }
            _ if sets.len() == 1 => {
                let (r, b) = t.put_value_set(kh(sets[0].clone()), first).unwrap();
                (vec![r], b)
            }
            _ => t.put_value_sets(all(), first).unwrap(),
        }
    }
    /// one call covering the versions first, first+1, ...
    pub fn commit(&mut self, sets: Vec<Set>, first: u64, c: &mut dyn Check) {
        let n = self.vers.len();
        let (roots, b) = self.by(self.api, &sets, first);
        c.computed(self, &sets, first, &roots, &b);
        self.st.write_tree_update_batch(b).unwrap();
        for (i, set) in sets.into_iter().enumerate() {
            let v = first + i as u64;
            self.vers.push(v);
            self.roots.push(roots[i].0);
            for (k, x) in set {
                self.log.push((v, k, x));
            }
        }
        c.committed(self, n);
    }
    /// commits the sets one call each, or (one_call) all in one call
    pub fn run(&mut self, sets: Vec<Set>, first: u64, one_call: bool, c: &mut dyn Check) {
        if one_call {
            self.commit(sets, first, c)
        } else {
            for (i, s) in sets.into_iter().enumerate() {
                self.commit(vec![s], first + i as u64, c)
            }
        }
    }
    /// what the log says about a key at a version
    pub fn want(&self, k: &K, v: u64) -> Option<&V> {
        let mut r = self.pre.iter().find(|e| s::eq(&e.0, k)).map(|e| &e.1);
        for (lv, lk, lx) in &self.log {
            if *lv <= v && s::eq(lk, k) {
                r = lx.as_ref();
            }
        }
        r
    }
    pub fn live(&self, v: u64) -> Vec<(K, V)> {
        live_from(self.pre.clone(), &self.log, v)
    }
}
pub fn live(log: &[(u64, K, Option<V>)], v: u64) -> Vec<(K, V)> {
    live_from(vec![], log, v)
}
fn live_from(mut out: Vec<(K, V)>, log: &[(u64, K, Option<V>)], v: u64) -> Vec<(K, V)> {
    for (lv, lk, lx) in log {
        if *lv > v {
            continue;
        }
        let p = out.iter().position(|x| s::eq(&x.0, lk));
        match (p, lx) {
            (Some(i), Some(x)) => out[i].1 = x.clone(),
            (Some(i), None) => {
                out.remove(i);
            }
            (None, Some(x)) => out.push((*lk, x.clone())),
            (None, None) => {}
        }
    }
    out
}
pub fn opt_eq(a: &Option<V>, b: Option<&V>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => s::eq(a, b),
        _ => false,
    }
}

pub const EDGE: &[usize] = &[0, 1, 2, 3, 15, 32, 62, 63];
pub const ALL: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34,
    35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63,
];

/// Three keys around one divergence depth taken from `depths`: A, B with an arbitrary other nibble
/// there, C diverging at, just below or just above it; split, overwrite, collapse, re-insertion,
/// deletion of an absent key, emptying.
pub fn sweep(depths: &[usize], first: u64, one_call: bool, c: &mut dyn Check) {
    let d = depths[s::choice(depths.len())];
    let a = base();
    let n = sym_nib();
    s::assume(n != nib(&a, d));
    let b = key_at(d, n, 1);
    let e = match s::choice(3) {
        0 => d,
        1 if d < 63 => d + 1,
        2 if d > 0 => d - 1,
        _ => return,
    };
    let k3 = key_at(e, nib(&a, e) ^ 15, 2);
    let q = key_at(d, nib(&a, d), 4);
    let mut w = W::new(&[a, b, k3, q]);
    let sets = vec![
        vec![w.put(a), w.put(b)],
        vec![w.put(k3), w.put(a)],
        vec![(b, None), (q, None)],
        vec![w.put(b), (k3, None)],
        vec![(a, None), (b, None)],
        vec![w.put(k3)],
    ];
    w.run(sets, first, one_call, c);
    s::reach(0);
    c.end(&w);
}

/// Three keys that part at any depth and any of some other depths far above or near it: single
/// chains of every length, collapsed and grown again; versions around 2^8.
pub fn gap(c: &mut dyn Check) {
    let a = base();
    let d = s::choice(64);
    let e = match s::choice(4) {
        0 => 0,
        1 => d / 2,
        2 => d.saturating_sub(2),
        _ => 63 - d,
    };
    let b = key_at(d, nib(&a, d) ^ (1 + d as u8 % 15), 1);
    let k3 = key_at(e, nib(&a, e) ^ (1 + (d as u8 + 7) % 15), 2);
    let mut w = W::new(&[a, b, k3]);
    let sets = vec![
        vec![w.put(k3), w.put(a), w.put(b)],
        vec![(b, None)],
        vec![(k3, None), w.put(b)],
        vec![(a, None), w.put(k3)],
    ];
    w.run(sets, 254, false, c);
    s::reach(0);
    c.end(&w);
}

/// Three keys with arbitrary nibbles at one depth (equal or different), below a common prefix.
pub fn wide(d: usize, first: u64, c: &mut dyn Check) {
    let ks: Vec<K> = (0..3).map(|i| key_at(d, sym_nib(), 1 << i)).collect();
    let mut w = W::new(&ks);
    let sets = vec![
        vec![w.put(ks[0]), w.put(ks[1]), w.put(ks[2])],
        vec![(ks[1], None), w.put(ks[0])],
    ];
    w.run(sets, first, false, c);
    s::reach(0);
    c.end(&w);
}

/// Two keys that agree or differ in every way within one byte range: B is entirely symbolic below
/// nibble `d` (so the engine enumerates every divergence depth from `d` on and every nibble there).
pub fn pair(d: usize, first: u64, mock: bool, c: &mut dyn Check) {
    let a = base();
    let mut b = a;
    s::fill(&mut b[d / 2..]);
    if d % 2 == 1 {
        b[d / 2] = a[d / 2] & 0xf0 | b[d / 2] & 15;
    }
    let mut w = if mock { W::mock(&[a, b]) } else { W::new(&[a, b]) };
    let sets = vec![vec![w.put(a)], vec![w.put(b)], vec![(a, None)]];
    w.run(sets, first, false, c);
    s::reach(0);
    c.end(&w);
}

/// A first version holding any subset of three keys in one of several arrangements, then `ops`
/// arbitrary operations cut into versions arbitrarily (empty versions included).
pub fn hist(ops: usize, all: bool, c: &mut dyn Check) {
    let a = base();
    let (d1, d2) = match s::choice(4) {
        0 => (0, 0),  // all three under the root
        1 => (0, 1),  // C below A's child
        2 => (1, 3),  // chain between the divergence points
        _ => (62, 63),
    };
    let m = nib(&a, d1) ^ [1, 8, 5][if all { s::choice(3) } else { d2 % 2 }];
    let b = key_at(d1, m, 1);
    let k3 = key_at(d2, nib(&a, d2) ^ 2, 2);
    let ks = [a, b, k3];
    let mut w = W::new(&ks);
    let (sym, one_call) = match s::choice(if all { 4 } else { 2 }) {
        0 => (false, false),
        1 => (true, true),
        2 => (false, true),
        _ => (true, false),
    };
    let mut first = 0;
    if sym {
        first = s::bits(64);
        s::assume(first >= 1 && first < u64::MAX - 64);
    }
    let sub = s::choice(8);
    let mut sets = vec![vec![]];
    for i in 0..3 {
        if sub >> i & 1 == 1 {
            let op = w.put(ks[i]);
            sets[0].push(op);
        }
    }
    for _ in 0..ops {
        if s::choice(2) == 1 {
            sets.push(vec![]);
        }
        let k = ks[s::choice(3)];
        let op = if s::choice(2) == 0 { w.put(k) } else { (k, None) };
        sets.last_mut().unwrap().push(op);
    }
    // an empty last version
    if all && s::choice(2) == 1 {
        sets.push(vec![]);
    }
    w.run(sets, first, one_call, c);
    s::reach(0);
    c.end(&w);
}

/// A tree restored at the pre-genesis version (2^64 - 1), on which version 0 is put: two operations in
/// one version or two, an empty version 0, or two versions in one call.
pub fn genesis(c: &mut dyn Check) {
    let a = base();
    let (d1, d2) = [(0, 1), (1, 3), (0, 0)][s::choice(3)];
    let ks = [a, key_at(d1, nib(&a, d1) ^ 9, 1), key_at(d2, nib(&a, d2) ^ 2, 2)];
    let mut src = W::new(&ks);
    let sub = [1, 6, 7, 3][s::choice(4)];
    let set: Set = (0..3).filter(|i| sub >> i & 1 == 1).map(|i| src.put(ks[i])).collect();
    src.commit(vec![set], 0, &mut crate::rest::Nothing);
    let mut w = W::new(&ks);
    w.pre = crate::hist::sorted_live(&src, 0);
    w.st.genesis.set(true);
    let root = src.tree().get_root_hash(0).unwrap();
    let mut r = jmt::restore::JellyfishMerkleRestore::<s::SymHasher>::new(w.st.clone(), u64::MAX, root).unwrap();
    let last = KeyHash(w.pre[w.pre.len() - 1].0);
    let chunk = w.pre.iter().map(|(k, x)| (KeyHash(*k), x.clone())).collect();
    jmt::restore::StateSnapshotReceiver::add_chunk(&mut r, chunk, src.tree().get_range_proof(last, 0).unwrap()).unwrap();
    jmt::restore::StateSnapshotReceiver::finish(r).unwrap();
    w.nval = 1;
    let mut sets = vec![vec![]];
    if s::choice(2) == 1 {
        for j in 0..2 {
            if j == 1 && s::choice(2) == 1 {
                sets.push(vec![]);
            }
            let k = ks[s::choice(3)];
            let op = if s::choice(2) == 0 { w.put(k) } else { (k, None) };
            sets.last_mut().unwrap().push(op);
        }
    } else {
        sets.push(vec![w.put(ks[0])]);
    }
    w.api = [Api::Plain, Api::Batch][s::choice(2)];
    let one = sets.len() > 1 && s::choice(2) == 1;
    w.run(sets, 0, one, c);
    s::reach(0);
    c.end(&w);
}

/// Three versions by the batch interface or by updates with proof: some of three keys put, then two
/// operations in one version, then one.
pub fn apis(c: &mut dyn Check) {
    apis_of(&[1, 1, 2], c)
}
pub fn apis_of(ops: &[usize], c: &mut dyn Check) {
    let a = base();
    let (d1, d2) = [(0, 1), (1, 3), (62, 63)][s::choice(3)];
    let ks = [a, key_at(d1, nib(&a, d1) ^ 9, 1), key_at(d2, nib(&a, d2) ^ 2, 2)];
    let mut w = W::new(&ks);
    w.api = if s::choice(2) == 0 { Api::Batch } else { Api::WithProof };
    let first = [0, 0xffff_ffff][s::choice(2)];
    let sub = [7, 1][s::choice(2)];
    let mut sets = vec![(0..3).filter(|i| sub >> i & 1 == 1).map(|i| w.put(ks[i])).collect(), vec![], vec![]];
    for &j in ops {
        let k = ks[s::choice(3)];
        let op = if w.api == Api::Batch || j == 2 || s::choice(2) == 0 { w.put(k) } else { (k, None) };
        sets[j].push(op);
    }
    w.run(sets, first, first == 0 && s::choice(2) == 1, c);
    s::reach(0);
    c.end(&w);
}

/// a long value of which the ends and the bytes around 2^8 and 2^16 are symbolic
pub fn big_val(n: usize) -> V {
    let mut v = vec![0x5a; n];
    for i in [0, 255, 256, 65535, 65536, n - 1] {
        if i < n {
            s::fill(&mut v[i..i + 1]);
        }
    }
    v
}
/// Values of up to 70000 bytes: written, overwritten by one of the same length, and deleted.
pub fn big(c: &mut dyn Check) {
    let n = [255, 256, 4097, 65535, 65536, 70000][s::choice(6)];
    let (a, b) = (base(), key_at(0, 9, 1));
    let mut w = W::new(&[a, b]);
    w.api = [Api::Plain, Api::Batch, Api::WithProof][s::choice(3)];
    let sets = vec![vec![(a, Some(big_val(n)))], vec![(a, Some(big_val(n))), w.put(b)], vec![(b, Some(big_val(n)))]];
    w.run(sets, 0, s::choice(2) == 1, c);
    let del = vec![vec![(a, None)]];
    w.run(del, 3, false, c);
    s::reach(0);
    c.end(&w);
}

/// Three keys in one of several arrangements, one of them possibly deleted in a second version;
/// asked about: a key with one arbitrary nibble at, above or below a divergence point, ending like
/// a live key, in zeros or in ones.
pub fn query(first: u64, c: &mut dyn Check) {
    let (d1, d2) = [(0, 0), (0, 1), (1, 3), (31, 33), (62, 63)][s::choice(5)];
    let a = base();
    let b = key_at(d1, nib(&a, d1) ^ [3, 12][d2 % 2], 1);
    let k3 = key_at(d2, nib(&a, d2) ^ 6, 2);
    let e = match s::choice(4) {
        0 => d1,
        1 if d2 != d1 => d2,
        2 if d2 < 63 => d2 + 1,
        3 if d1 + 1 < d2 => d1 + 1,
        _ => return,
    };
    let mut q = [a, b, k3][s::choice(3)];
    set_nib(&mut q, e, sym_nib());
    let tail = s::choice(3);
    if tail > 0 {
        for i in e + 1..64 {
            set_nib(&mut q, i, [0, 15][tail - 1]);
        }
    }
    let mut w = W::new(&[q]);
    let gone = s::choice(4);
    let mut sets = vec![vec![w.put(k3), w.put(a), w.put(b)]];
    if gone < 3 {
        sets.push(vec![([a, b, k3][gone], None)]);
    }
    w.run(sets, first, false, c);
    s::reach(0);
    c.end(&w);
}

/// Many keys at once: full nodes, two levels, the least and greatest keys, one key per bit of a
/// prefix.
pub fn many() -> Vec<K> {
    let a = base();
    match s::choice(5) {
        0 => (0..16).map(|i| key_at(0, i, i)).collect(),
        1 => (0..16).map(|i| key_at(3, 15 - i, i)).collect(),
        2 => {
            let mut v: Vec<K> = [0, 7, 8, 15].iter().map(|i| key_at(0, *i, 1)).collect();
            v.extend([0, 4, 11, 15].iter().map(|i| key_at(1, *i, 2)));
            v.extend([1, 14].iter().map(|i| key_at(2, *i, 3)));
            v
        }
        3 => {
            let (z, f) = ([0u8; 32], [255u8; 32]);
            let with = |mut k: K, i: usize, b: u8| {
                k[i] ^= b;
                k
            };
            vec![with(z, 31, 1), z, f, with(f, 31, 1), with(z, 0, 128), with(f, 0, 128), with(z, 15, 16), with(f, 16, 8)]
        }
        _ => (0..9)
            .map(|i| {
                let mut k = a;
                if i > 0 {
                    k[0] ^= (256u32 >> i) as u8;
                    k[9] ^= i as u8;
                }
                k
            })
            .collect(),
    }
}
/// Many keys; then a run of them deleted in one version, and one inserted in the next: one of the
/// deleted again, or one next to another in an arbitrary nibble.
pub fn crowd(all: bool, c: &mut dyn Check) {
    let ks = many();
    let n = ks.len();
    let from = [0, n / 2, n - 1, 1][s::choice(if all { 4 } else { 3 })];
    let len = [0, 1, n - 2, n - 1, n, 2, 4][s::choice(if all { 7 } else { 5 })];
    let again = s::choice(if all { 4 } else { 2 });
    let new = match again {
        0 => ks[from],
        _ => {
            let mut k = ks[(from + again) % n];
            set_nib(&mut k, [1, 0, 63][again - 1], sym_nib());
            k
        }
    };
    let mut w = W::new(&[ks[0], ks[n / 2], ks[n - 1], new]);
    let mut sets = vec![vec![], vec![], vec![]];
    for k in &ks {
        sets[0].push(w.put(*k));
    }
    for i in 0..len {
        sets[1].push((ks[(from + i) % n], None));
    }
    sets[2].push(w.put(new));
    w.run(sets, 0, false, c);
    s::reach(0);
    c.end(&w);
}
pub fn mass_keys(n: usize) -> Vec<K> {
    (0..n)
        .map(|i| {
            let mut k = base();
            if i + 30 >= n {
                set_nib(&mut k, 0, (i % 15) as u8)
            } else {
                set_nib(&mut k, 0, 15)
            }
            set_nib(&mut k, 1, (i % 16) as u8);
            set_nib(&mut k, 2, (i / 16 % 16) as u8);
            set_nib(&mut k, 3, (i / 256) as u8);
            if i % 5 == 0 {
                set_nib(&mut k, 7, i as u8 % 16);
            }
            k[31] = i as u8;
            k[30] = (i >> 8) as u8;
            k
        })
        .collect()
}
/// Hundreds of keys, most of them below one child of the root; then some deleted and some
/// overwritten, then one key put with an arbitrary nibble at depth 1.
pub fn mass(c: &mut dyn Check) {
    const N: usize = 1100;
    let ks = mass_keys(N);
    let mut new = ks[40];
    set_nib(&mut new, 1, sym_nib());
    let mut w = W::new(&[ks[0], ks[259], ks[N - 1], new]);
    let mut sets: Vec<Set> = vec![vec![], vec![], vec![]];
    for k in &ks {
        sets[0].push((*k, Some(s::bytes(1))));
    }
    for i in 0..8 {
        sets[1].push((ks[i * 137], None));
        let op = w.put(ks[i * 131 + 1]);
        sets[1].push(op);
    }
    sets[2].push(w.put(new));
    w.run(sets, 0, false, c);
    s::reach(0);
    c.end(&w);
}
/// Hundreds of versions in one call, hundreds of operations in one of them.
pub fn long(c: &mut dyn Check) {
    let a = base();
    let ks = [a, key_at(1, nib(&a, 1) ^ 9, 1), key_at(3, nib(&a, 3) ^ 2, 2)];
    let mut w = W::new(&ks);
    let first = [0, 100, (1 << 16) - 99, (1 << 32) - 50, (1 << 63) - 77, u64::MAX - 270][s::choice(6)];
    let op = |i: usize, w: &mut W| match i % 7 {
        0 => Some(w.put(ks[0])),
        1 => Some(w.put(ks[1])),
        2 => Some((ks[0], None)),
        3 => None,
        4 => Some(w.put(ks[2])),
        5 => Some((ks[1], None)),
        _ => Some(w.put(ks[1])),
    };
    let mut sets: Vec<Set> = (0..260).map(|i| op(i, &mut w).into_iter().collect()).collect();
    sets[40] = (0..260).filter_map(|i| op(i * 3, &mut w)).collect();
    w.run(sets, first, true, c);
    s::reach(0);
    c.end(&w);
}
