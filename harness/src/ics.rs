//! ICS23 proofs, checked by the ics23 crate's verifier with the published specification.
use crate::hist::sorted_live;
use crate::rest::Nothing;
use crate::s;
use crate::t::*;

/// hash functions for the ics23 verifier: SHA-256 is the same ideal hash as the tree's
pub struct Host;
impl ics23::HostFunctionsProvider for Host {
    fn sha2_256(m: &[u8]) -> [u8; 32] {
        s::hash(m)
    }
    fn sha2_512(_: &[u8]) -> [u8; 64] {
        unimplemented!()
    }
    fn sha2_512_truncated(_: &[u8]) -> [u8; 32] {
        unimplemented!()
    }
    fn keccak_256(_: &[u8]) -> [u8; 32] {
        unimplemented!()
    }
    fn ripemd160(_: &[u8]) -> [u8; 20] {
        unimplemented!()
    }
    fn blake2b_512(_: &[u8]) -> [u8; 64] {
        unimplemented!()
    }
    fn blake2s_256(_: &[u8]) -> [u8; 32] {
        unimplemented!()
    }
    fn blake3(_: &[u8]) -> [u8; 32] {
        unimplemented!()
    }
}
/// the key whose hash is `k` (see s::hash), of one of several lengths
fn pre(k: &K) -> V {
    let mut v = vec![b'K'];
    v.extend(k);
    v.resize(s::KEY_LENS[s::conc(k[31] as u64 & 3) as usize], 0x33);
    v
}
/// what a verifier with the published specification makes of the answer for `q` at `v`
fn ask(w: &W, v: u64, q: &K, negative: bool, tag: u64) {
    let l = sorted_live(w, v);
    if l.is_empty() {
        return;
    }
    let want = l.iter().find(|e| s::eq(&e.0, q)).map(|e| e.1.clone());
    let root = w.tree().get_root_hash(v).unwrap().0.to_vec();
    let (got, proof) = w.tree().get_with_ics23_proof(pre(q), v).unwrap();
    s::check(opt_eq(&got, want.as_ref()), tag);
    let spec = jmt::ics23_spec();
    let member = |x: &[u8], k: &[u8]| ics23::verify_membership::<Host>(&proof, &spec, &root, k, x);
    let absent = |k: &[u8]| ics23::verify_non_membership::<Host>(&proof, &spec, &root, k);
    let k = pre(q);
    match &want {
        // the verifier does not accept empty values at all
        Some(x) if !x.is_empty() => {
            s::check(member(x, &k), tag + 1);
            if negative {
                s::check(!absent(&k), tag + 2);
                let mut y = x.clone();
                y[0] ^= 1;
                s::check(!member(&y, &k), tag + 3);
                for e in &l {
                    if !s::eq(&e.0, q) {
                        s::check(!member(x, &pre(&e.0)), tag + 4);
                        s::check(!absent(&pre(&e.0)), tag + 5);
                    }
                }
            }
        }
        Some(_) => {}
        None => {
            let (left, right) = (l.iter().rev().find(|e| e.0 < *q), l.iter().find(|e| e.0 > *q));
            if left.into_iter().chain(right).any(|e| e.1.is_empty()) {
                return; // a neighbour with an empty value is not accepted either
            }
            s::check(absent(&k), tag + 6);
            if negative {
                s::check(!member(&[1], &k), tag + 7);
                for e in &l {
                    s::check(!absent(&pre(&e.0)), tag + 8);
                }
            }
        }
    }
}
fn world(ks: &[K]) -> W {
    let w = W::new(ks);
    w.st.i.borrow_mut().preimages = ks.iter().map(|k| (*k, pre(k))).collect();
    w
}
/// keys with arbitrary nibbles at the top; the third may be deleted again
pub fn c14(n: usize, negative: bool) {
    let d = s::choice(2);
    let ks: Vec<K> = (0..n).map(|i| key_at(d, sym_nib(), 1 << i)).collect();
    let mut w = world(&ks);
    let lens = [1, 2, 40];
    let set: Set = (0..n - 1).map(|i| (ks[i], Some(s::bytes(lens[i % 3])))).collect();
    w.commit(vec![set], 0, &mut Nothing);
    ask(&w, 0, &ks[n - 1], negative, 10);
    ask(&w, 0, &ks[0], negative, 10);
    let last = (ks[0], None);
    w.commit(vec![vec![last]], 1, &mut Nothing);
    ask(&w, 1, &ks[0], negative, 30);
    s::reach(0);
}
/// two keys that part at nibble `d`, a third around them
pub fn chain(deep: bool) {
    let d = if deep { [16, 17, 40, 63][s::choice(4)] } else { [1, 2, 7, 14, 15][s::choice(5)] };
    let a = base();
    let b = key_at(d, nib(&a, d) ^ [1, 2, 4, 8][s::choice(4)], 1);
    let e = s::choice(if deep { d.min(2) } else { d + 1 });
    let q = key_at(e, nib(&a, e) ^ [1, 9][s::choice(2)], 2);
    let mut w = world(&[a, b, q]);
    let set = vec![(a, Some(s::bytes(1))), (b, Some(s::bytes(2)))];
    w.commit(vec![set], 7, &mut Nothing);
    for k in [a, b, q] {
        ask(&w, 7, &k, !deep, if deep { 200 } else { 50 });
    }
    let set = vec![(q, Some(s::bytes(1))), (a, None)];
    w.commit(vec![set], 8, &mut Nothing);
    if !deep {
        for k in [a, b, q] {
            ask(&w, 8, &k, true, 70);
        }
    }
    s::reach(0);
}
/// many keys, a run of them deleted; asked about: the least, the greatest and a deleted key, and
/// one next to a live key in an arbitrary nibble
pub fn crowd(all: bool) {
    let ks = many();
    let n = ks.len();
    let mut q = ks[[0, n / 2, n - 1, 1][s::choice(if all { 4 } else { 3 })]];
    set_nib(&mut q, [0, 1, 63][s::choice(3)], sym_nib());
    let mut keys = ks.clone();
    keys.push(q);
    let mut w = world(&keys);
    let set: Set = ks.iter().enumerate().map(|(i, k)| (*k, Some(if i == 3 { big_val(70000) } else { s::bytes([1, 2, 40, 300][i % 4]) }))).collect();
    w.commit(vec![set], 1, &mut Nothing);
    ask(&w, 1, &q, false, 90);
    ask(&w, 1, &ks[0], false, 110);
    let (from, len) = [(0, 1), (0, n - 1), (1, n - 2), (n / 2, 2), (n - 2, 2)][s::choice(5)];
    let set: Set = (from..from + len).map(|i| (ks[i], None)).collect();
    w.commit(vec![set], 2, &mut Nothing);
    for k in [q, ks[from], ks[n - 1]] {
        ask(&w, 2, &k, false, 130);
    }
    s::reach(0);
}
/// every version of a history asked about every key, once all of it is written
pub struct C14;
impl Check for C14 {
    fn end(&mut self, w: &W) {
        let mut all: Vec<K> = w.keys.clone();
        all.extend(w.pre.iter().map(|e| e.0));
        all.extend(w.log.iter().map(|e| e.1));
        w.st.i.borrow_mut().preimages = all.iter().map(|k| (*k, pre(k))).collect();
        let n = w.vers.len();
        for (i, &v) in w.vers.iter().enumerate() {
            if n < 20 || i % 37 == 5 || i == 40 || i + 1 == n {
                for k in &w.keys {
                    ask(w, v, k, false, 300);
                }
            }
        }
    }
}
pub fn on(f: impl FnOnce(&mut dyn Check)) {
    NONEMPTY.store(true, std::sync::atomic::Ordering::Relaxed);
    f(&mut C14)
}

// ---- made up ICS23 proofs ----
const LEAFSEP: &[u8] = b"JMT::LeafNode";
const INNERSEP: &[u8] = b"JMT::IntrnalNode";
const SHA: i32 = ics23::HashOp::Sha256 as i32;
fn leaf_op(variant: usize) -> ics23::LeafOp {
    let mut l = ics23::LeafOp { hash: SHA, prehash_key: SHA, prehash_value: SHA, length: ics23::LengthOp::NoPrefix as i32, prefix: LEAFSEP.to_vec() };
    match variant {
        0 => {}
        1 => l.prefix = vec![],
        2 => l.prefix = INNERSEP.to_vec(),
        3 => l.prefix.extend(s::bytes(3)),
        4 => l.prehash_key = 0,
        5 => l.prehash_value = 0,
        6 => {
            l.prehash_key = 0;
            l.prehash_value = 0;
        }
        7 => l.hash = 0,
        8 => l.length = ics23::LengthOp::VarProto as i32,
        9 => l.prefix = s::bytes(13),
        _ => l.prefix = s::bytes(16),
    }
    l
}
/// lengths of prefix and suffix; the first two are those of true proofs
const STEPS: [(usize, usize); 9] = [(16, 32), (48, 0), (48, 32), (16, 0), (0, 0), (80, 0), (16, 64), (13, 32), (17, 32)];
fn steps(max: usize, kinds: usize) -> Vec<ics23::InnerOp> {
    let n = s::choice(max + 1);
    (0..n)
        .map(|_| {
            let (p, q) = STEPS[s::choice(kinds)];
            ics23::InnerOp { hash: SHA, prefix: s::bytes(p), suffix: s::bytes(q) }
        })
        .collect()
}
fn leaf_image(k: &K, v: &V) -> V {
    let mut e = LEAFSEP.to_vec();
    e.extend(k);
    e.extend(s::hash(v));
    e
}
fn truth(l: &[(K, V)], k: &[u8], v: &[u8]) -> bool {
    l.iter().any(|e| s::eq(&pre(&e.0), k) && s::eq(&e.1, v))
}
/// no existence proof is accepted for what is not in the tree
pub fn forge() {
    let l = crate::adv::trees(&mut || s::bytes(1));
    let root = crate::model::root(&l).to_vec();
    let spec = jmt::ics23_spec();
    // what is claimed: a key and a value, or what may pass for them
    let q = crate::adv::pick_key(&l);
    let e = l.get(s::choice(l.len().max(1))).cloned().unwrap_or((q, vec![7]));
    let odd = s::choice(2) == 1;
    let mut value = s::bytes(1);
    let key = match s::choice(if odd { 3 } else { 2 }) {
        0 => pre(&q),
        1 => {
            if odd {
                value = s::hash(&e.1).to_vec();
                e.0.to_vec()
            } else {
                value = e.1.clone();
                pre(&e.0)
            }
        }
        // two nodes for key and value
        _ => {
            let f = l.get(s::choice(l.len().max(1))).cloned().unwrap_or((q, vec![7]));
            value = leaf_image(&f.0, &f.1);
            leaf_image(&e.0, &e.1)
        }
    };
    let (leaf, path) = if odd { (leaf_op(s::choice(11)), steps(2, 2)) } else { (leaf_op(0), steps(2, STEPS.len())) };
    let p = ics23::ExistenceProof { key: key.clone(), value: value.clone(), leaf: Some(leaf), path };
    let p = ics23::CommitmentProof { proof: Some(ics23::commitment_proof::Proof::Exist(p)) };
    if ics23::verify_membership::<Host>(&p, &spec, &root, &key, &value) {
        s::check(truth(&l, &key, &value), 1);
        s::reach(1);
    }
    s::reach(0);
}
/// no non-existence proof is accepted for what is in the tree
pub fn forge_absent(max: usize) {
    let l = crate::adv::trees(&mut || s::bytes(1));
    let root = crate::model::root(&l).to_vec();
    let spec = jmt::ics23_spec();
    let q = crate::adv::pick_key(&l);
    let side = || {
        let i = s::choice(l.len() + 1);
        let (k, v) = l.get(i)?;
        Some(ics23::ExistenceProof { key: pre(k), value: v.clone(), leaf: Some(leaf_op(0)), path: steps(max, 2) })
    };
    let p = ics23::NonExistenceProof { key: pre(&q), left: side(), right: side() };
    let p = ics23::CommitmentProof { proof: Some(ics23::commitment_proof::Proof::Nonexist(p)) };
    if ics23::verify_non_membership::<Host>(&p, &spec, &root, &pre(&q)) {
        s::check(!l.iter().any(|e| e.0 == q), 1);
        s::reach(1);
    }
    s::reach(0);
}
