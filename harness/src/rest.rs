//! Restoring a tree from its pairs.
use crate::adv::*;
use crate::hist::*;
use crate::model;
use crate::s;
use crate::store::*;
use crate::t::*;
use borsh::BorshDeserialize;
use jmt::storage::Node;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};

pub type Restore = JellyfishMerkleRestore<s::SymHasher>;

/// a tree holding any non-empty subset of five keys in one of several arrangements, in key order
fn source(n: usize) -> (W, Vec<(K, V)>) {
    let d = [(0, 0, 0), (0, 0, 1), (0, 1, 2), (1, 3, 3), (0, 62, 63)][s::choice(5)];
    let a = base();
    let k = [
        a,
        key_at(d.0, nib(&a, d.0) ^ 2, 1),
        key_at(d.1, nib(&a, d.1) ^ 9, 2),
        key_at(d.2, nib(&a, d.2) ^ 4, 4),
        key_at(d.2, nib(&a, d.2) ^ 5, 6),
    ];
    let mut w = W::new(&k[..n]);
    let mut set = vec![];
    let sub = s::choice((1 << n) - 1) + 1;
    for i in 0..n {
        if sub >> i & 1 == 1 {
            let op = w.put(k[i]);
            set.push(op);
        }
    }
    w.commit(vec![set], 3, &mut Nothing);
    let l = sorted_live(&w, 3);
    (w, l)
}
/// by either of the two methods
fn finish(r: Restore, boxed: bool) -> anyhow::Result<()> {
    if boxed {
        Box::new(r).finish_box()
    } else {
        r.finish()
    }
}
pub struct Nothing;
impl Check for Nothing {}

fn proof(w: &W, k: &K) -> RangeProof {
    w.tree().get_range_proof(KeyHash(*k), 3).unwrap()
}
fn pairs(l: &[(K, V)]) -> Vec<(KeyHash, V)> {
    l.iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect()
}
/// cuts into chunks after every pair whose bit is set
fn chunks(l: &[(K, V)], cut: usize) -> Vec<Vec<(K, V)>> {
    let mut out = vec![vec![]];
    for (i, e) in l.iter().enumerate() {
        out.last_mut().unwrap().push(e.clone());
        if cut >> i & 1 == 1 && i + 1 < l.len() {
            out.push(vec![]);
        }
    }
    out
}
/// the restored store answers everything as it should, and holds nothing but the tree
fn complete(w: &W, st: &Arc<Store>, vr: u64, l: &[(K, V)], tag: u64) {
    let t = Tree::new(st);
    let root = w.tree().get_root_hash(3).unwrap();
    match t.get_root_hash_option(vr) {
        Ok(Some(r)) => s::check(s::eq(&r.0, &root.0), tag),
        _ => return s::check(false, tag + 1),
    }
    s::check(t.get_leaf_count(vr).unwrap() == l.len(), tag + 2);
    for k in &w.keys {
        let want = l.iter().find(|e| s::eq(&e.0, k)).map(|e| &e.1);
        let (got, p) = t.get_with_proof(KeyHash(*k), vr).unwrap();
        s::check(opt_eq(&got, want), tag + 3);
        s::check(opt_eq(&t.get(KeyHash(*k), vr).unwrap(), want), tag + 3);
        s::check(p.verify(root, KeyHash(*k), got.as_ref()).is_ok(), tag + 4);
    }
    let got = JellyfishMerkleIterator::new(st.clone(), vr, KeyHash([0; 32])).unwrap().take(l.len() + 2).collect();
    same_pairs(got, l, tag + 5);
    for i in 0..l.len() {
        let got = JellyfishMerkleIterator::new_by_index(st.clone(), vr, i).unwrap().take(l.len() + 2).collect();
        same_pairs(got, &l[i..], tag + 5);
    }
    match reachable(st, &[vr]) {
        None => s::check(false, tag + 8),
        Some(r) => s::check(r.len() == st.num_nodes(), tag + 9),
    }
}
fn any_version() -> u64 {
    let v = s::bits(64);
    s::assume(v < u64::MAX - 1);
    v
}
// ---- C16 ----
pub fn c16(n: usize) {
    let (w, l) = source(n);
    let root = w.tree().get_root_hash(3).unwrap();
    let cut = s::choice(1 << (l.len() - 1));
    let vr = any_version();
    let st = Arc::new(Store::new());
    let mut r = if s::choice(2) == 0 { Restore::new(st.clone(), vr, root).unwrap() } else { Restore::new_overwrite(st.clone(), vr, root).unwrap() };
    for c in chunks(&l, cut) {
        r.add_chunk(pairs(&c), proof(&w, &c[c.len() - 1].0)).unwrap();
    }
    finish(r, cut & 1 == 1).unwrap();
    s::check(!st.overwrote.get(), 1);
    complete(&w, &st, vr, &l, 10);
    well_formed(&st, vr, 30);
    // life goes on
    let sets = vec![(w.keys[0], Some(s::bytes(1))), (w.keys[n - 1], None), (w.keys[1], Some(s::bytes(2)))];
    let (r1, b1) = Tree::new(&st).put_value_set(kh(sets.clone()), vr + 1).unwrap();
    let (r2, _) = w.tree().put_value_set(kh(sets), 4).unwrap();
    s::check(s::eq(&r1.0, &r2.0), 50);
    st.write_tree_update_batch(b1).unwrap();
    s::check(!st.overwrote.get() && !st.bad_stale.get(), 51);
    s::reach(0);
}
/// the empty tree
pub fn c16_empty() {
    let vr = any_version();
    let st = Arc::new(Store::new());
    Restore::new(st.clone(), vr, RootHash(model::EMPTY)).unwrap().finish().unwrap();
    let t = Tree::new(&st);
    s::check(s::eq(&t.get_root_hash(vr).unwrap().0, &model::EMPTY), 1);
    s::check(t.get_leaf_count(vr).unwrap() == 0, 2);
    s::check(t.get_with_proof(KeyHash(base()), vr).unwrap().0.is_none(), 3);
    s::reach(0);
}
// ---- C18 ----
/// `twice`: the resumed restore is interrupted as well
pub fn c18(n: usize, twice: bool) {
    let (w, l) = source(n);
    let root = w.tree().get_root_hash(3).unwrap();
    let vr = any_version();
    let st = Arc::new(Store::new());
    let mut rest = l.clone();
    let rounds = if twice { 2 } else { 1 };
    for round in 0..=rounds {
        let cs = chunks(&rest, s::choice(1 << rest.len().saturating_sub(1)));
        // stop after this many chunks are in, or, with `fail`, at the write after them
        let last = round == rounds;
        let stop = if last { cs.len() } else { s::choice(cs.len() + 1) };
        let fail = !last && s::choice(2) == 1;
        st.fail_from.set(usize::MAX);
        let mut r = Restore::new(st.clone(), vr, root).unwrap();
        let w0 = st.writes.get();
        let mut fed = 0;
        for c in cs.iter() {
            if c.is_empty() {
                continue;
            }
            if fed == stop {
                if fail {
                    st.fail_from.set(st.writes.get());
                    s::check(r.add_chunk(pairs(c), proof(&w, &c[c.len() - 1].0)).is_err(), 1);
                }
                break;
            }
            r.add_chunk(pairs(c), proof(&w, &c[c.len() - 1].0)).unwrap();
            fed += 1;
        }
        if last {
            r.finish().unwrap();
        } else if fail && fed == cs.len() {
            st.fail_from.set(st.writes.get());
            s::check(r.finish().is_err(), 2);
        } else {
            drop(r);
        }
        s::check(st.writes.get() - w0 <= cs.len() + 1, 3);
        // what remains: everything after the greatest stored leaf
        if let Some((_, leaf)) = st.get_rightmost_leaf().unwrap() {
            let k = leaf.key_hash().0;
            rest = l.iter().filter(|e| e.0 > k).cloned().collect();
        }
    }
    complete(&w, &st, vr, &l, 10);
    s::reach(0);
}
// ---- C17 ----
/// a chunk of one or two pairs: right ones, wrong values, keys that are not in the tree, gaps,
/// repetitions, wrong order; `proof`: the true one for some key, or any with up to `max` siblings
fn bad_chunk(w: &W, l: &[(K, V)], len: usize, max: usize) -> (Vec<(KeyHash, V)>, RangeProof) {
    let mut c = vec![];
    for _ in 0..len {
        let i = s::choice(l.len() + 2);
        let k = if i < l.len() {
            l[i].0
        } else if i == l.len() {
            key_at(0, 11, 9)
        } else {
            let mut k = l[0].0;
            k[31] ^= 8;
            k
        };
        let v = if i < l.len() && s::choice(2) == 0 { l[i].1.clone() } else { s::bytes(1) };
        c.push((KeyHash(k), v));
    }
    let i = s::choice(l.len() + 1);
    let p = if i < l.len() {
        proof(w, &l[i].0)
    } else {
        let mut o = vec![];
        let n = s::choice(max + 1);
        o.extend((n as u32).to_le_bytes());
        for _ in 0..n {
            sibling(&mut o, s::choice(3));
        }
        RangeProof::try_from_slice(&o).unwrap()
    };
    (c, p)
}
pub fn c17(rounds: usize, max: usize, resumed: bool) {
    let a = base();
    // nibble 5 at depth 0 for the base key
    let ks = match s::choice(5) {
        0 => vec![a],
        4 => vec![key_at(3, 1, 1), key_at(2, 2, 1), a, key_at(0, 14, 2)],
        1 => vec![key_at(0, 4, 1), a],
        2 => vec![key_at(0, 4, 1), a, key_at(0, 9, 2)],
        _ => vec![key_at(1, 1, 1), a, key_at(0, 14, 2)],
    };
    let mut w = W::new(&ks);
    let set = ks.iter().map(|k| (*k, Some(s::bytes(1)))).collect();
    w.commit(vec![set], 3, &mut Nothing);
    let l = sorted_live(&w, 3);
    let root = w.tree().get_root_hash(3).unwrap();
    let st = Arc::new(Store::new());
    let mut r = Restore::new(st.clone(), 9, root).unwrap();
    let mut done = 0;
    let start = s::choice(l.len());
    if start > 0 {
        r.add_chunk(pairs(&l[..start]), proof(&w, &l[start - 1].0)).unwrap();
        done = start;
    }
    if resumed {
        // interrupted and taken up again: the last leaf added was not stored
        drop(r);
        done = st.i.borrow().nodes.values().filter(|n| matches!(n, Node::Leaf(_))).count();
        r = Restore::new(st.clone(), 9, root).unwrap();
    }
    for _ in 0..rounds {
        let (c, p) = bad_chunk(&w, &l, if rounds == 1 { s::choice(2) + 1 } else { 1 }, max);
        let before = st.writes.get();
        match r.add_chunk(c.clone(), p) {
            Ok(()) => {
                s::reach(1);
                // everything stored so far, chunks rejected earlier included, is the beginning of
                // the tree's pairs
                let mut have: Vec<(K, V)> = st.i.borrow().values.iter().map(|e| (e.1, e.2.clone().unwrap_or(vec![9; 9]))).collect();
                have.sort();
                s::check(have.len() >= done + c.len() && have.len() <= l.len(), 1);
                for (x, y) in have.iter().zip(&l) {
                    s::check(s::eq(&x.0, &y.0) && s::eq(&x.1, &y.1), 1);
                }
                for (k, x) in &c {
                    s::check(have.iter().any(|e| s::eq(&e.0, &k.0) && s::eq(&e.1, x)), 7);
                }
                done += c.len();
            }
            Err(_) => {
                s::check(st.writes.get() == before, 2);
            }
        }
    }
    let before = st.writes.get();
    s::expect_panic();
    match finish(r, l.len() & 1 == 1) {
        Ok(()) => {
            s::reach(2);
            match Tree::new(&*st).get_root_hash_option(9) {
                Ok(Some(h)) => s::check(s::eq(&h.0, &root.0), 3),
                _ => s::check(false, 4),
            }
            for (k, x) in &l {
                s::check(opt_eq(&Tree::new(&*st).get(KeyHash(*k), 9).unwrap(), Some(x)), 5);
            }
        }
        Err(_) => s::check(st.writes.get() == before, 6),
    }
    s::reach(0);
}
fn some(w: &mut W, ks: &[K], sub: usize) -> Set {
    (0..ks.len()).filter(|i| sub >> i & 1 == 1).map(|i| w.put(ks[i])).collect()
}
/// a storage that holds a tree (pruned or not), or what is left of a restore of one, and a version to
/// restore something else at: in the second case perhaps the same
fn leftovers(ks: &[K]) -> (Arc<Store>, u64) {
    let mut old = W::new(ks);
    let set = some(&mut old, ks, [1, 3, 6, 7, 14, 15][s::choice(6)]);
    let one = set.len() - 1;
    match s::choice(3) {
        0 => {
            old.commit(vec![set], 3, &mut Nothing);
            let k = ks[s::choice(4)];
            let op = if s::choice(2) == 0 { old.put(k) } else { (k, None) };
            old.commit(vec![vec![op]], 4, &mut Nothing);
            if s::choice(2) == 1 {
                s::check(old.st.purge(4), 1);
            }
            (old.st.clone(), [2, 5, 9][s::choice(3)])
        }
        k => {
            old.commit(vec![set], 3, &mut Nothing);
            let lo = sorted_live(&old, 3);
            let st = Arc::new(Store::new());
            let mut r = Restore::new(st.clone(), 7, old.tree().get_root_hash(3).unwrap()).unwrap();
            let upto = one.min(s::choice(3)) + 1;
            r.add_chunk(pairs(&lo[..upto]), proof(&old, &lo[upto - 1].0)).unwrap();
            (st, if k == 1 { 7 } else { [6, 8][s::choice(2)] })
        }
    }
}
/// C16: on a storage that holds something else already, by the overwriting constructor
pub fn over() {
    let a = base();
    let ks = [key_at(1, 1, 1), a, key_at(1, 9, 3), key_at(0, 14, 2)];
    let mut w = W::new(&ks);
    let set = some(&mut w, &ks, s::choice(15) + 1);
    w.commit(vec![set], 3, &mut Nothing);
    let l = sorted_live(&w, 3);
    let root = w.tree().get_root_hash(3).unwrap();
    let (st, vr) = leftovers(&ks);
    let mut r = Restore::new_overwrite(st.clone(), vr, root).unwrap();
    for c in chunks(&l, s::choice(1 << (l.len() - 1))) {
        r.add_chunk(pairs(&c), proof(&w, &c[c.len() - 1].0)).unwrap();
    }
    finish(r, l.len() & 1 == 1).unwrap();
    let t = Tree::new(&*st);
    s::check(s::eq(&t.get_root_hash(vr).unwrap().0, &root.0), 1);
    s::check(t.get_leaf_count(vr).unwrap() == l.len(), 2);
    for k in &ks {
        let want = l.iter().find(|e| s::eq(&e.0, k)).map(|e| &e.1);
        let (got, p) = t.get_with_proof(KeyHash(*k), vr).unwrap();
        s::check(opt_eq(&got, want), 3);
        s::check(p.verify(root, KeyHash(*k), got.as_ref()).is_ok(), 4);
        if want.is_some() {
            s::check(opt_eq(&t.get(KeyHash(*k), vr).unwrap(), want), 5);
        }
    }
    let got = JellyfishMerkleIterator::new(st.clone(), vr, KeyHash([0; 32])).unwrap().take(l.len() + 2).collect();
    same_pairs(got, &l, 6);
    well_formed(&st, vr, 30);
    s::reach(0);
}
/// C17: the storage holds something else already: a tree at another version (pruned or not), or what is
/// left of a restore of another tree, at this version or another
pub fn other() {
    let a = base();
    let ks = [key_at(1, 1, 1), a, key_at(1, 9, 3), key_at(0, 14, 2)];
    let mut w = W::new(&ks);
    let set = some(&mut w, &ks, s::choice(15) + 1);
    w.commit(vec![set], 3, &mut Nothing);
    let l = sorted_live(&w, 3);
    let root = w.tree().get_root_hash(3).unwrap();
    let (st, vr) = leftovers(&ks);
    let last = st.get_rightmost_leaf().unwrap().map(|e| e.1.key_hash().0);
    let before = st.writes.get();
    match Restore::new(st.clone(), vr, root) {
        Err(_) => s::reach(1),
        Ok(mut r) => {
            let all = s::choice(2) == 1;
            let rest: Vec<(K, V)> = l.iter().filter(|e| all || last.map_or(true, |k| e.0 > k)).cloned().collect();
            if !rest.is_empty() {
                if r.add_chunk(pairs(&rest), proof(&w, &l[l.len() - 1].0)).is_err() {
                    s::check(st.writes.get() == before, 2);
                    return s::reach(2);
                }
            }
            if r.finish().is_ok() {
                let t = Tree::new(&*st);
                s::reach(3);
                match t.get_root_hash_option(vr) {
                    Ok(Some(h)) => s::check(s::eq(&h.0, &root.0), 3),
                    _ => s::check(false, 4),
                }
                for (k, x) in &l {
                    s::check(opt_eq(&t.get(KeyHash(*k), vr).unwrap(), Some(x)), 5);
                    s::check(opt_eq(&t.get_with_proof(KeyHash(*k), vr).unwrap().0, Some(x)), 6);
                }
                well_formed(&st, vr, 30);
            }
        }
    }
    s::reach(0);
}
/// C20: reads that fail while an interrupted restore is taken up again
pub fn c20_restore() {
    use crate::fault::*;
    let (w, l) = source(4);
    let root = w.tree().get_root_hash(3).unwrap();
    let st = Arc::new(Store::new());
    let cut = s::choice(l.len());
    if cut > 0 {
        let mut r = Restore::new(st.clone(), 9, root).unwrap();
        r.add_chunk(pairs(&l[..cut]), proof(&w, &l[cut - 1].0)).unwrap();
    }
    let f = Arc::new(Faulty::new(&st, s::choice(12), [ONCE, FOREVER][s::choice(2)]));
    if let Ok(mut r) = Restore::new(f.clone(), 9, root) {
        s::reach(1);
        let rest = pairs(&l[cut..]);
        if r.add_chunk(rest, proof(&w, &l[l.len() - 1].0)).is_ok() && r.finish().is_ok() {
            s::reach(2);
            complete(&w, &st, 9, &l, 30);
        }
    } else {
        s::check(f.hit.get(), 60);
    }
    s::reach(0);
}
/// C16 and C17: long values, one of them perhaps wrong
pub fn big(wrong: bool) {
    let n = [256, 4097, 65536, 70000][s::choice(4)];
    let ks = [key_at(0, 4, 1), base(), key_at(0, 9, 2)];
    let mut w = W::new(&ks);
    let set: Set = vec![(ks[0], Some(big_val(n))), w.put(ks[1]), (ks[2], Some(big_val(n + 1)))];
    w.commit(vec![set], 3, &mut Nothing);
    let l = sorted_live(&w, 3);
    let st = Arc::new(Store::new());
    let mut r = Restore::new(st.clone(), 9, w.tree().get_root_hash(3).unwrap()).unwrap();
    let mut fed = l.clone();
    if wrong {
        let i = [0, 2][s::choice(2)];
        let m = n + i / 2;
        fed[i].1 = big_val([m, m - 1, m + 1][s::choice(3)]);
    }
    for c in chunks(&fed, s::choice(4)) {
        if r.add_chunk(pairs(&c), proof(&w, &c[c.len() - 1].0)).is_err() {
            s::check(wrong, 1);
            return s::reach(0);
        }
        s::reach(1);
        for (k, x) in &c {
            s::check(opt_eq(&w.tree().get(KeyHash(*k), 3).unwrap(), Some(x)), 2);
        }
    }
    r.finish().unwrap();
    complete(&w, &st, 9, &l, 30);
    s::reach(0);
}
/// C16 and C18: hundreds of pairs in few chunks, interrupted or not
pub fn mass(interrupt: bool) {
    let ks = mass_keys(520);
    let mut w = W::new(&[ks[0], ks[300], ks[519]]);
    let mut set: Set = ks.iter().map(|k| (*k, Some(s::bytes(1)))).collect();
    let mut new = ks[40];
    set_nib(&mut new, 1, sym_nib());
    set.push((new, Some(s::bytes(2))));
    w.commit(vec![set], 3, &mut Nothing);
    let l = sorted_live(&w, 3);
    let root = w.tree().get_root_hash(3).unwrap();
    let vr = 4;
    let st = Arc::new(Store::new());
    let mut at = 0;
    if interrupt {
        let mut r = Restore::new(st.clone(), vr, root).unwrap();
        let size = [70, 257, 300][s::choice(3)];
        for c in l.chunks(size).take(s::choice(3)) {
            r.add_chunk(pairs(c), proof(&w, &c[c.len() - 1].0)).unwrap();
        }
        if let Some((_, leaf)) = st.get_rightmost_leaf().unwrap() {
            let k = leaf.key_hash().0;
            at = l.iter().position(|e| s::eq(&e.0, &k)).unwrap() + 1;
        }
    }
    let mut r = Restore::new(st.clone(), vr, root).unwrap();
    for c in l[at..].chunks([l.len(), 256, 100][s::choice(3)]) {
        r.add_chunk(pairs(c), proof(&w, &c[c.len() - 1].0)).unwrap();
    }
    r.finish().unwrap();
    let t = Tree::new(&st);
    s::check(s::eq(&t.get_root_hash(vr).unwrap().0, &root.0), 1);
    s::check(t.get_leaf_count(vr).unwrap() == l.len(), 2);
    for (k, x) in l.iter().step_by(37) {
        let (got, p) = t.get_with_proof(KeyHash(*k), vr).unwrap();
        s::check(opt_eq(&got, Some(x)), 3);
        s::check(p.verify(root, KeyHash(*k), got.as_ref()).is_ok(), 4);
    }
    let got = JellyfishMerkleIterator::new(st.clone(), vr, KeyHash([0; 32])).unwrap().take(l.len() + 2).collect();
    same_pairs(got, &l, 5);
    let i = l.len() - 9;
    let got = JellyfishMerkleIterator::new_by_index(st.clone(), vr, i).unwrap().take(20).collect();
    same_pairs(got, &l[i..], 5);
    well_formed(&st, vr, 30);
    s::reach(0);
}
// ---- many keys ----
/// C16 and C18: many pairs in chunks of one size, interrupted once (after a chunk or at a write) and
/// resumed with chunks of another size
pub fn crowd(interrupt: bool, all: bool) {
    let ks = many();
    let mut w = W::new(&ks);
    let set: Set = ks.iter().map(|k| w.put(*k)).collect();
    w.commit(vec![set], 3, &mut Nothing);
    // a run of them deleted again, before the version to restore
    let n = ks.len();
    let (from, len) = [(0, 0), (0, n - 1), (n / 2, n / 2), (1, n - 2), (1, 1)][s::choice(if all { 5 } else { 4 })];
    let set: Set = (from..from + len).map(|i| (ks[i], None)).collect();
    w.commit(vec![set], 4, &mut Nothing);
    let l = sorted_live(&w, 4);
    let root = w.tree().get_root_hash(4).unwrap();
    let sizes = [1, 2, 3, 5, n];
    let vr = any_version();
    let st = Arc::new(Store::new());
    let mut rest = l.clone();
    if interrupt {
        let mut r = Restore::new(st.clone(), vr, root).unwrap();
        let size = sizes[s::choice(if all { 5 } else { 4 })];
        let upto = [0, 1, l.len() / 2, l.len() - 1, l.len()][s::choice(5)];
        let mut at = 0;
        while at + size <= upto {
            r.add_chunk(pairs(&l[at..at + size]), w.tree().get_range_proof(KeyHash(l[at + size - 1].0), 4).unwrap()).unwrap();
            at += size;
        }
        if s::choice(2) == 1 {
            st.fail_from.set(st.writes.get());
            let end = (at + size).min(l.len());
            if at < end {
                s::check(r.add_chunk(pairs(&l[at..end]), w.tree().get_range_proof(KeyHash(l[end - 1].0), 4).unwrap()).is_err(), 1);
            } else {
                s::check(r.finish().is_err(), 2);
            }
            st.fail_from.set(usize::MAX);
        }
        if let Some((_, leaf)) = st.get_rightmost_leaf().unwrap() {
            let k = leaf.key_hash().0;
            rest = l.iter().filter(|e| e.0 > k).cloned().collect();
        }
    }
    let mut r = Restore::new(st.clone(), vr, root).unwrap();
    for c in rest.chunks(sizes[s::choice(5)]) {
        r.add_chunk(pairs(c), w.tree().get_range_proof(KeyHash(c[c.len() - 1].0), 4).unwrap()).unwrap();
    }
    r.finish().unwrap();
    // complete() asks version 3 of the source for the root
    let mut o = W::new(&[ks[0], ks[n - 1], ks[n / 2]]);
    let set: Set = l.iter().map(|(k, x)| (*k, Some(x.clone()))).collect();
    o.commit(vec![set], 3, &mut Nothing);
    complete(&o, &st, vr, &l, 10);
    well_formed(&st, vr, 30);
    s::reach(0);
}
