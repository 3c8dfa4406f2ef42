//! Properties of histories: what every version answers.
use crate::model;
use crate::s;
use crate::store::*;
use crate::t::*;
use std::collections::HashMap;

// ---- C01: reads ----
#[derive(Default)]
pub struct C01;
impl Check for C01 {
    fn end(&mut self, w: &W) {
        for &v in &w.vers {
            for k in &w.keys {
                let want = w.want(k, v);
                let got = w.tree().get(KeyHash(*k), v).unwrap();
                s::check(opt_eq(&got, want), 1);
                let (got, _) = w.tree().get_with_proof(KeyHash(*k), v).unwrap();
                s::check(opt_eq(&got, want), 2);
            }
        }
    }
}
// ---- C02: canonical root ----
#[derive(Default)]
pub struct C02;
impl Check for C02 {
    fn committed(&mut self, w: &W, n: usize) {
        for i in n..w.vers.len() {
            let want = model::root(&w.live(w.vers[i]));
            s::check(s::eq(&w.roots[i], &want), 1);
            s::check(s::eq(&w.tree().get_root_hash(w.vers[i]).unwrap().0, &want), 2);
        }
    }
}
// ---- C03: proofs verify ----
#[derive(Default)]
pub struct C03;
impl Check for C03 {
    fn end(&mut self, w: &W) {
        for &v in &w.vers {
            let root = w.tree().get_root_hash(v).unwrap();
            for k in &w.keys {
                let (got, p) = w.tree().get_with_proof(KeyHash(*k), v).unwrap();
                s::check(p.verify(root, KeyHash(*k), got.as_ref()).is_ok(), 1);
                match &got {
                    Some(x) => s::check(p.verify_existence(root, KeyHash(*k), x).is_ok(), 3),
                    None => s::check(p.verify_nonexistence(root, KeyHash(*k)).is_ok(), 4),
                }
                let plain = w.tree().get(KeyHash(*k), v).unwrap();
                s::check(opt_eq(&plain, got.as_ref()), 2);
            }
        }
    }
}
// ---- C05: updates with proof ----
#[derive(Default)]
pub struct C05;
impl Check for C05 {
    fn computed(&mut self, w: &W, sets: &[Set], first: u64, roots: &[RootHash], b: &TreeUpdateBatch) {
        let (rp, b2) = if sets.len() == 1 {
            let (r, p, b2) = w.tree().put_value_set_with_proof(kh(sets[0].clone()), first).unwrap();
            (vec![(r, p)], b2)
        } else {
            w.tree().put_value_sets_with_proof(sets.iter().map(|s| kh(s.clone())).collect::<Vec<_>>(), first).unwrap()
        };
        s::check(rp.len() == sets.len() && roots.len() == sets.len(), 1);
        s::check(b.node_batch == b2.node_batch, 2);
        s::check(b.stale_node_index_batch == b2.stale_node_index_batch, 3);
        s::check(b.node_stats == b2.node_stats, 4);
        let mut old = RootHash(w.roots.last().copied().unwrap_or(model::root(&w.pre)));
        for (i, (r, p)) in rp.into_iter().enumerate() {
            s::check(s::eq(&r.0, &roots[i].0), 5);
            s::check(p.verify_update(old, r, kh(sets[i].clone())).is_ok(), 6);
            old = r;
        }
    }
}
// ---- C07: committed versions do not change ----
#[derive(Default)]
pub struct C07 {
    snap: Vec<Snap>,
}
#[derive(PartialEq)]
struct Snap {
    root: K,
    leaves: usize,
    reads: Vec<(Option<V>, Option<V>, Vec<u8>)>,
}
fn snap(w: &W, v: u64) -> Snap {
    let t = w.tree();
    Snap {
        root: t.get_root_hash(v).unwrap().0,
        leaves: t.get_leaf_count(v).unwrap(),
        reads: w
            .keys
            .iter()
            .map(|k| {
                let (x, p) = t.get_with_proof(KeyHash(*k), v).unwrap();
                (t.get(KeyHash(*k), v).unwrap(), x, borsh::to_vec(&p).unwrap())
            })
            .collect(),
    }
}
fn same_opt(a: &Option<V>, b: &Option<V>) -> bool {
    opt_eq(a, b.as_ref())
}
impl Check for C07 {
    fn committed(&mut self, w: &W, n: usize) {
        s::check(!w.st.overwrote.get(), 1);
        for i in n..w.vers.len() {
            self.snap.push(snap(w, w.vers[i]));
        }
    }
    fn end(&mut self, w: &W) {
        for (i, a) in self.snap.iter().enumerate() {
            let b = snap(w, w.vers[i]);
            s::check(s::eq(&a.root, &b.root), 2);
            s::check(a.leaves == b.leaves, 3);
            for (x, y) in a.reads.iter().zip(&b.reads) {
                s::check(same_opt(&x.0, &y.0) && same_opt(&x.1, &y.1), 4);
                s::check(s::eq(&x.2, &y.2), 5);
            }
        }
    }
}
// ---- C08: pruning ----
#[derive(Default)]
pub struct C08 {
    always: Option<bool>,
}
/// any version; of many, one of five
fn some_version(w: &W) -> usize {
    let n = w.vers.len();
    if n < 16 {
        s::choice(n)
    } else {
        [0, 1, n / 2, n - 2, n - 1][s::choice(5)]
    }
}
fn after_prune(w: &W, p: usize) {
    let vs = &w.vers[p..];
    match reachable(&w.st, vs) {
        None => s::check(false, 3),
        Some(r) => s::check(r.len() == w.st.num_nodes(), 4),
    }
    for (i, &v) in vs.iter().enumerate() {
        let t = w.tree();
        let root = t.get_root_hash(v).unwrap();
        s::check(s::eq(&root.0, &w.roots[p + i]), 5);
        for k in &w.keys {
            let (got, pr) = t.get_with_proof(KeyHash(*k), v).unwrap();
            s::check(opt_eq(&got, w.want(k, v)), 6);
            s::check(pr.verify(root, KeyHash(*k), got.as_ref()).is_ok(), 7);
        }
    }
}
impl Check for C08 {
    fn committed(&mut self, w: &W, _n: usize) {
        s::check(!w.st.bad_stale.get(), 1);
        let always = *self.always.get_or_insert_with(|| s::choice(2) == 1);
        if always {
            let last = w.vers.len() - 1;
            s::check(w.st.purge(w.vers[last]), 2);
            after_prune(w, last);
        }
    }
    fn end(&mut self, w: &W) {
        if self.always == Some(false) {
            let p = some_version(w);
            s::check(w.st.purge(w.vers[p]), 2);
            after_prune(w, p);
            let last = w.vers.len() - 1;
            if p < last {
                s::check(w.st.purge(w.vers[last]), 2);
                after_prune(w, last);
            }
        }
    }
}
// ---- C09: leaf counts and node statistics ----
#[derive(Default)]
pub struct C09;
impl Check for C09 {
    fn computed(&mut self, w: &W, sets: &[Set], first: u64, _roots: &[RootHash], b: &TreeUpdateBatch) {
        s::check(b.node_stats.len() == sets.len(), 1);
        for (i, st) in b.node_stats.iter().enumerate() {
            let v = first + i as u64;
            let new: Vec<_> = b.node_batch.nodes().iter().filter(|(k, _)| k.version() == v).collect();
            s::check(st.new_nodes == new.len(), 2);
            s::check(st.new_leaves == new.iter().filter(|(_, n)| matches!(n, Node::Leaf(_))).count(), 3);
            let stale: Vec<_> = b.stale_node_index_batch.iter().filter(|e| e.stale_since_version == v).collect();
            s::check(st.stale_nodes == stale.len(), 4);
            let inner = w.st.i.borrow();
            let leaves = stale
                .iter()
                .filter(|e| matches!(b.node_batch.get_node(&e.node_key).or_else(|| inner.nodes.get(&e.node_key)), Some(Node::Leaf(_))))
                .count();
            s::check(st.stale_leaves == leaves, 5);
        }
        let n: usize = b.node_stats.iter().map(|s| s.new_nodes).sum();
        s::check(n == b.node_batch.nodes().len(), 6);
    }
    fn committed(&mut self, w: &W, n: usize) {
        for &v in &w.vers[n..] {
            s::check(w.tree().get_leaf_count(v).unwrap() == w.live(v).len(), 7);
        }
    }
}
// ---- C10: batching ----
#[derive(Default)]
pub struct C10;
fn same_batch(a: &TreeUpdateBatch, b: &TreeUpdateBatch, tag: u64) {
    s::check(a.node_batch.nodes() == b.node_batch.nodes(), tag);
    s::check(a.node_batch.values() == b.node_batch.values(), tag + 1);
    s::check(a.stale_node_index_batch == b.stale_node_index_batch, tag + 2);
    s::check(a.node_stats == b.node_stats, tag + 3);
}
impl Check for C10 {
    fn computed(&mut self, w: &W, sets: &[Set], first: u64, roots: &[RootHash], b: &TreeUpdateBatch) {
        // one call per version
        if sets.len() > 1 {
            let f = w.st.fork();
            let mut all = TreeUpdateBatch::default();
            for (i, set) in sets.iter().enumerate() {
                let (r, x) = Tree::new(&f).put_value_set(kh(set.clone()), first + i as u64).unwrap();
                s::check(s::eq(&r.0, &roots[i].0), 1);
                f.write_tree_update_batch(x.clone()).unwrap();
                all.node_batch.merge(x.node_batch);
                all.stale_node_index_batch.extend(x.stale_node_index_batch);
                all.node_stats.extend(x.node_stats);
            }
            same_batch(b, &all, 2);
        }
        // repeated keys: the last occurrence wins (same root as the deduplicated set)
        let mut plain: Vec<Set> = vec![];
        let mut dups = false;
        for set in sets {
            let mut q: Set = vec![];
            for (k, x) in set {
                if let Some(p) = q.iter().position(|e| s::eq(&e.0, k)) {
                    q.remove(p);
                    dups = true;
                }
                q.push((*k, x.clone()));
            }
            plain.push(q);
        }
        if dups {
            let (r, x) = w.tree().put_value_sets(plain.iter().map(|s| kh(s.clone())).collect::<Vec<_>>(), first).unwrap();
            s::check(r == roots, 6);
            s::check(x.node_batch.values() == b.node_batch.values(), 7);
        }
        // the other way round
        let rev: Vec<Set> = plain.iter().map(|s| s.iter().rev().cloned().collect()).collect();
        let (r, x) = w.tree().put_value_sets(rev.iter().map(|s| kh(s.clone())).collect::<Vec<_>>(), first).unwrap();
        s::check(r == roots, 8);
        s::check(x.node_batch.values() == b.node_batch.values(), 9);
        // the batch interface, for insertions
        if sets.iter().all(|s| !s.is_empty() && s.iter().all(|e| e.1.is_some())) && (first == 0 || !w.vers.is_empty()) {
            let vs = sets.iter().map(|s| s.iter().map(|(k, x)| (KeyHash(*k), x.clone().unwrap())).collect()).collect();
            let (r, x) = w.tree().batch_put_value_sets(vs, None, first).unwrap();
            s::check(r == roots, 10);
            same_batch(b, &x, 11);
            // with the hashes of the new nodes worked out beforehand
            let maps: Vec<HashMap<NibblePath, [u8; 32]>> = (0..sets.len() as u64)
                .map(|i| {
                    let of = |n: &Node| match n {
                        Node::Leaf(l) => l.hash::<s::SymHasher>(),
                        Node::Internal(x) => x.hash::<s::SymHasher>(),
                        Node::Null => model::EMPTY,
                    };
                    x.node_batch.nodes().iter().filter(|(k, _)| k.version() == first + i).map(|(k, n)| (k.nibble_path().clone(), of(n))).collect()
                })
                .collect();
            let vs = sets.iter().map(|s| s.iter().map(|(k, x)| (KeyHash(*k), x.clone().unwrap())).collect()).collect();
            let (r, x) = w.tree().batch_put_value_sets(vs, Some(maps.iter().collect()), first).unwrap();
            s::check(r == roots, 15);
            same_batch(b, &x, 16);
            s::reach(1);
        }
    }
}
// ---- C11: versions exist ----
#[derive(Default)]
pub struct C11;
fn missing(w: &W, v: u64) {
    let t = w.tree();
    s::check(matches!(t.get_root_hash_option(v), Ok(None)), 5);
    s::check(t.get_root_hash(v).is_err(), 6);
    s::check(t.get_leaf_count(v).is_err(), 7);
    s::check(t.get_with_proof(KeyHash(w.keys[0]), v).is_err(), 8);
    s::check(JellyfishMerkleIterator::new(w.st.clone(), v, KeyHash([0; 32])).is_err(), 9);
    s::check(JellyfishMerkleIterator::new_by_index(w.st.clone(), v, 0).is_err(), 10);
    s::check(t.get_range_proof(KeyHash(w.keys[0]), v).is_err(), 11);
}
impl Check for C11 {
    fn computed(&mut self, _w: &W, sets: &[Set], _first: u64, roots: &[RootHash], _b: &TreeUpdateBatch) {
        s::check(roots.len() == sets.len(), 1);
    }
    fn committed(&mut self, w: &W, _n: usize) {
        let t = w.tree();
        for (i, &v) in w.vers.iter().enumerate() {
            match t.get_root_hash_option(v) {
                Ok(Some(r)) => s::check(s::eq(&r.0, &w.roots[i]), 2),
                _ => s::check(false, 3),
            }
            s::check(t.get_with_proof(KeyHash(w.keys[0]), v).is_ok(), 4);
        }
        missing(w, w.vers[w.vers.len() - 1] + 1);
        if w.vers[0] > 0 {
            missing(w, w.vers[0] - 1);
        }
    }
}
// ---- C12: iteration ----
#[derive(Default)]
pub struct C12;
pub fn sorted_live(w: &W, v: u64) -> Vec<(K, V)> {
    let mut l = w.live(v);
    l.sort_by(|a, b| a.0.cmp(&b.0));
    l
}
pub fn same_pairs(got: Vec<anyhow::Result<(KeyHash, V)>>, want: &[(K, V)], tag: u64) {
    s::check(got.len() == want.len(), tag);
    for (g, w) in got.iter().zip(want) {
        match g {
            Ok((k, x)) => s::check(s::eq(&k.0, &w.0) && s::eq(x, &w.1), tag + 1),
            Err(_) => s::check(false, tag + 2),
        }
    }
}
pub fn iterate_from(w: &W, v: u64, start: K, l: &[(K, V)]) {
    let m = if l.len() < 32 || start == [0; 32] { l.len() + 2 } else { 20 };
    let want: Vec<_> = l.iter().filter(|e| e.0 >= start).take(m).cloned().collect();
    let got = JellyfishMerkleIterator::new(w.st.clone(), v, KeyHash(start)).unwrap().take(m).collect();
    same_pairs(got, &want, 1);
}
impl Check for C12 {
    fn end(&mut self, w: &W) {
        for &v in &w.vers {
            let l = sorted_live(w, v);
            for k in &w.keys {
                iterate_from(w, v, *k, &l);
            }
            iterate_from(w, v, [0; 32], &l);
            iterate_from(w, v, [255; 32], &l);
            let n = l.len();
            for i in (0..n + 2).filter(|i| n < 32 || [0, 1, 255, 256, 257, n - 1, n, n + 1].contains(i)) {
                let m = if n < 32 { n + 2 } else { 20 };
                let got = JellyfishMerkleIterator::new_by_index(w.st.clone(), v, i).unwrap().take(m).collect();
                same_pairs(got, &l[i.min(n)..n.min(i.min(n) + m)], 4);
            }
        }
    }
}
// ---- C13: absence proofs by neighbours ----
#[derive(Default)]
pub struct C13;
pub fn exclusion(w: &W, v: u64, q: &K, l: &[(K, V)]) {
    let t = w.tree();
    let root = t.get_root_hash(v).unwrap();
    if l.is_empty() {
        return;
    }
    let has = l.iter().find(|e| s::eq(&e.0, q));
    let r = t.get_with_exclusion_proof(KeyHash(*q), v).unwrap();
    let incl = |p: &Proof, e: Option<&(K, V)>, tag| match e {
        Some(e) => s::check(p.verify(root, KeyHash(e.0), Some(&e.1)).is_ok(), tag),
        None => s::check(false, tag + 1),
    };
    let left = l.iter().rev().find(|e| e.0 < *q);
    let right = l.iter().find(|e| e.0 > *q);
    match r {
        Ok((x, p)) => {
            s::check(has.is_some() && s::eq(&x, &has.unwrap().1), 1);
            incl(&p, has, 2);
        }
        Err(e) => {
            s::check(has.is_none(), 4);
            match e {
                jmt::ExclusionProof::Leftmost { leftmost_right_proof } => {
                    s::check(left.is_none(), 5);
                    incl(&leftmost_right_proof, right, 6);
                }
                jmt::ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof } => {
                    incl(&leftmost_right_proof, right, 8);
                    incl(&rightmost_left_proof, left, 10);
                }
                jmt::ExclusionProof::Rightmost { rightmost_left_proof } => {
                    s::check(right.is_none(), 12);
                    incl(&rightmost_left_proof, left, 13);
                }
            }
        }
    }
}
impl Check for C13 {
    fn end(&mut self, w: &W) {
        for &v in &w.vers {
            let l = sorted_live(w, v);
            for k in &w.keys {
                exclusion(w, v, k, &l);
            }
        }
    }
}
// ---- C15: range proofs ----
#[derive(Default)]
pub struct C15 {
    /// also tries wrong inputs
    pub forge: bool,
}
/// hashes of the subtrees left and right of the path to `k`, bottom first, from the definition
pub fn sides(l: &[(K, V)], k: &K) -> (Vec<K>, Vec<K>) {
    let mut items: Vec<(K, K)> = l.iter().map(|e| (e.0, s::hash(&e.1))).collect();
    let (mut left, mut right) = (vec![], vec![]);
    let mut d = 0;
    while items.len() > 1 {
        let (one, zero): (Vec<_>, Vec<_>) = items.iter().partition(|e| model::bit(&e.0, d));
        if model::bit(k, d) {
            left.push(model::root_at(&zero, d + 1));
            items = one;
        } else {
            right.push(model::root_at(&one, d + 1));
            items = zero;
        }
        d += 1;
    }
    left.reverse();
    right.reverse();
    (left, right)
}
/// all of a few, some of many
fn few<T>(l: &[T]) -> impl Iterator<Item = &T> {
    let n = l.len();
    l.iter().enumerate().filter(move |(i, _)| n < 32 || i % 50 == 7 || *i + 1 == n).map(|e| e.1)
}
impl Check for C15 {
    fn end(&mut self, w: &W) {
        let mut with = vec![];
        for (j, &v) in w.vers.iter().enumerate() {
            let l = w.live(v);
            let t = w.tree();
            let root = t.get_root_hash(v).unwrap();
            for k in &w.keys {
                let r = t.get_range_proof(KeyHash(*k), v);
                if !l.iter().any(|e| s::eq(&e.0, k)) {
                    s::check(r.is_err(), 1);
                    continue;
                }
                let p = r.unwrap();
                let (left, right) = sides(&l, k);
                let leaf = t.get_with_proof(KeyHash(*k), v).unwrap().1.leaf().unwrap();
                s::check(p.verify(root, leaf, left.clone()).is_ok(), 2);
                // exactly the right siblings: their number is in the encoding
                let enc = borsh::to_vec(&p).unwrap();
                s::check(u32::from_le_bytes(enc[..4].try_into().unwrap()) as usize == right.len(), 3);
                for e in few(&l) {
                    if !s::eq(&e.0, k) {
                        let wrong = t.get_with_proof(KeyHash(e.0), v).unwrap().1.leaf().unwrap();
                        s::check(p.verify(root, wrong, left.clone()).is_err(), 5);
                    }
                }
                if j + 2 >= w.vers.len() && self.forge {
                    with.push((p, root, leaf, left));
                }
            }
        }
        // one arbitrary wrong input
        if with.is_empty() {
            return;
        }
        let (p, root, leaf, left) = with[s::choice(with.len())].clone();
        match s::choice(4) {
            0 => {
                let other = RootHash(s::b32());
                if p.verify(other, leaf, left).is_ok() {
                    s::check(s::eq(&other.0, &root.0), 4);
                    s::reach(1);
                }
            }
            1 if !left.is_empty() => {
                let i = s::choice(left.len());
                let mut wrong = left.clone();
                wrong[i] = s::b32();
                if p.verify(root, leaf, wrong.clone()).is_ok() {
                    s::check(s::eq(&wrong[i], &left[i]), 6);
                }
            }
            2 => {
                let mut longer = left.clone();
                longer.insert(s::choice(left.len() + 1), s::b32());
                s::check(p.verify(root, leaf, longer).is_err(), 7);
            }
            3 if !left.is_empty() => {
                let mut shorter = left.clone();
                shorter.remove(s::choice(left.len()));
                s::check(p.verify(root, leaf, shorter).is_err(), 8);
            }
            _ => {}
        }
    }
}
// ---- C21: the bundled store ----
pub struct C21 {
    mock: MockTreeStore,
    /// a store given the batches of two calls merged into one
    merged: Option<(Option<NodeBatch>, MockTreeStore)>,
}
impl Default for C21 {
    fn default() -> C21 {
        C21 { mock: MockTreeStore::default(), merged: Some((None, MockTreeStore::new(false))) }
    }
}
fn same_store(w: &W, m: &MockTreeStore, tag: u64) {
    let i = w.st.i.borrow();
    s::check(m.num_nodes() == i.nodes.len(), tag);
    let all: Vec<_> = i.nodes.iter().collect();
    for &(k, n) in few(&all) {
        s::check(matches!(m.get_node_option(k), Ok(Some(x)) if x == *n), tag + 1);
        s::check(matches!(m.get_node(k), Ok(x) if x == *n), tag + 1);
        let other = NodeKey::new(k.version() ^ 1 << 40, k.nibble_path().clone());
        s::check(matches!(m.get_node_option(&other), Ok(None)) && m.get_node(&other).is_err(), tag + 2);
    }
    for k in &w.keys {
        for &v in &w.vers {
            for u in [v, v.saturating_sub(1), v + 1] {
                let want = i.values.iter().rev().find(|e| e.0 <= u && s::eq(&e.1, k)).and_then(|e| e.2.clone());
                s::check(opt_eq(&m.get_value_option(u, KeyHash(*k)).unwrap(), want.as_ref()), tag + 3);
                match (m.get_value(u, KeyHash(*k)), &want) {
                    (Ok(x), Some(y)) => s::check(s::eq(&x, y), tag + 4),
                    (Err(_), None) => {}
                    _ => s::check(false, tag + 5),
                }
            }
        }
    }
}
fn greatest(w: &W, m: &MockTreeStore, tag: u64) {
    let i = w.st.i.borrow();
    let mut best: Option<K> = None;
    for n in i.nodes.values() {
        if let Node::Leaf(l) = n {
            best = best.max(Some(l.key_hash().0));
        }
    }
    match (m.get_rightmost_leaf().unwrap(), best) {
        (None, None) => {}
        (Some((k, l)), Some(b)) => {
            s::check(s::eq(&l.key_hash().0, &b), tag);
            s::check(i.nodes.get(&k) == Some(&Node::Leaf(l)), tag + 1);
        }
        _ => s::check(false, tag + 2),
    }
}
impl Check for C21 {
    fn computed(&mut self, _w: &W, _sets: &[Set], _first: u64, _roots: &[RootHash], b: &TreeUpdateBatch) {
        self.mock.write_tree_update_batch(b.clone()).unwrap();
        let m = self.merged.as_mut().unwrap();
        match m.0.take() {
            None => m.0 = Some(b.node_batch.clone()),
            Some(mut x) => {
                x.merge(b.node_batch.clone());
                m.1.write_node_batch(&x).unwrap();
            }
        }
    }
    fn committed(&mut self, w: &W, _n: usize) {
        same_store(w, &self.mock, 1);
        greatest(w, &self.mock, 8);
    }
    fn end(&mut self, w: &W) {
        let m = self.merged.take().unwrap();
        if let Some(x) = m.0 {
            m.1.write_node_batch(&x).unwrap();
        }
        same_store(w, &m.1, 11);
        // the preimages
        self.mock.put_key_preimage(KeyHash(w.keys[0]), &vec![1, 2]);
        s::check(self.mock.preimage(KeyHash(w.keys[0])).unwrap() == Some(vec![1, 2]), 20);
        s::check(self.mock.preimage(KeyHash([9; 32])).unwrap().is_none(), 21);
        // pruning
        let p = some_version(w);
        s::check(w.st.purge(w.vers[p]), 22);
        s::check(self.mock.purge_stale_nodes(w.vers[p]).is_ok(), 23);
        same_store(w, &self.mock, 24);
        s::check(self.mock.purge_stale_nodes(w.vers[p]).is_ok(), 30);
        same_store(w, &self.mock, 24);
        let last = w.vers.len() - 1;
        s::check(w.st.purge(w.vers[last]), 22);
        s::check(self.mock.purge_stale_nodes(w.vers[last]).is_ok(), 31);
        same_store(w, &self.mock, 32);
        greatest(w, &self.mock, 38);
    }
}
// ---- C22: stored nodes ----
#[derive(Default)]
pub struct C22;
impl Check for C22 {
    fn end(&mut self, w: &W) {
        for &v in &w.vers {
            let got = well_formed(&w.st, v, 1);
            let want = sorted_live(w, v);
            s::check(got.len() == want.len(), 20);
            for (g, x) in got.iter().zip(&want) {
                s::check(s::eq(&g.0, &x.0), 21);
                s::check(s::eq(&g.1, &model::leaf_hash(&x.0, &s::hash(&x.1))), 22);
            }
        }
        // values: one entry per changed key and version, with what the last change says
        let i = w.st.i.borrow();
        for (v, k, x) in i.values.iter().filter(|e| e.0 < u64::MAX) {
            let last = w.log.iter().rev().find(|e| e.0 == *v && s::eq(&e.1, k));
            s::check(last.map_or(false, |e| opt_eq(x, e.2.as_ref())), 23);
        }
        for (v, k, _) in &w.log {
            s::check(i.values.iter().filter(|e| e.0 == *v && s::eq(&e.1, k)).count() == 1, 24);
        }
    }
}
/// the bundled store and the batch type on their own: any few entries in a few batches, written one
/// after another, merged, or (leaves) put singly; then asked at any version, and pruned at any
pub fn c21_api(batches: usize) {
    let v0 = s::bits(64);
    s::assume(v0 < u64::MAX - 8);
    let a = base();
    let ks = [a, key_at(0, nib(&a, 0) ^ 9, 1)];
    let path: NibblePath = borsh::from_slice(&[&1u64.to_le_bytes()[..], &1u32.to_le_bytes(), &[a[0] & 0xf0]].concat()).unwrap();
    let below = |v: u64| NodeKey::new(v, path.clone());
    let (x, y, z) = (MockTreeStore::new(true), MockTreeStore::new(true), MockTreeStore::new(true));
    let mut merged = NodeBatch::default();
    let mut extended = NodeBatch::default();
    let mut nodes: Vec<(NodeKey, Node)> = vec![];
    let mut vals: Vec<(u64, K, Option<V>)> = vec![];
    let mut stale: Vec<StaleNodeIndex> = vec![];
    let end = s::choice(3);
    for round in 0..batches {
        let mut b = NodeBatch::default();
        s::check(b.is_empty(), 1);
        // what the batch holds: the last entry of each key
        let mut bn: Vec<(NodeKey, Node)> = vec![];
        let mut bv: Vec<(u64, K, Option<V>)> = vec![];
        for _ in 0..if round == 0 { s::choice(2) + 1 } else { 1 } {
            let v = v0 + s::choice(2) as u64;
            let k = ks[s::choice(2)];
            match s::choice(3) {
                0 => {
                    let val = s::bytes(1);
                    b.insert_value(v, KeyHash(k), val.clone());
                    bv.retain(|e| (e.0, e.1) != (v, k));
                    bv.push((v, k, Some(val)));
                }
                1 => {
                    b.extend(vec![], vec![((v, KeyHash(k)), None)]);
                    bv.retain(|e| (e.0, e.1) != (v, k));
                    bv.push((v, k, None));
                }
                _ => {
                    let nk = if s::choice(2) == 0 { NodeKey::new(v, NibblePath::from_iter([])) } else { below(v) };
                    let n = Node::Leaf(LeafNode::new(KeyHash(k), ValueHash(s::b32())));
                    let before = bn.iter().find(|e| e.0 == nk).map(|e| e.1.clone());
                    s::check(b.insert_node(nk.clone(), n.clone()) == before, 2);
                    bn.retain(|e| e.0 != nk);
                    bn.push((nk, n));
                }
            }
            s::check(!b.is_empty(), 3);
        }
        s::check(b.nodes().len() == bn.len() && bn.iter().all(|e| b.get_node(&e.0) == Some(&e.1) && b.nodes().get(&e.0) == Some(&e.1)), 4);
        s::check(b.values().len() == bv.len() && bv.iter().all(|e| b.values().get(&(e.0, KeyHash(e.1))).map_or(false, |x| opt_eq(x, e.2.as_ref()))), 5);
        s::check(NodeBatch::new(b.nodes().clone(), b.values().clone()) == b, 6);
        // values come in version order per key
        for e in &bv {
            s::assume(vals.iter().all(|f| f.1 != e.1 || f.0 <= e.0));
        }
        let mut upd = TreeUpdateBatch { node_batch: b.clone(), ..Default::default() };
        for (k, _) in &bn {
            // stored or rewritten now; stale or not
            if end == 1 && !stale.iter().any(|e| e.node_key == *k) && s::choice(2) == 1 {
                let e = StaleNodeIndex { stale_since_version: k.version() + s::choice(2) as u64, node_key: k.clone() };
                upd.stale_node_index_batch.insert(e.clone());
                stale.push(e);
            }
        }
        merged.merge(b.clone());
        extended.extend(b.nodes().clone(), b.values().clone());
        z.write_tree_update_batch(upd).unwrap();
        if bn.len() + bv.len() == 1 {
            x.write_node_batch(&b).unwrap();
        } else {
            x.write_tree_update_batch(TreeUpdateBatch { node_batch: b.clone(), ..Default::default() }).unwrap();
        }
        for e in bn {
            nodes.retain(|f| f.0 != e.0);
            nodes.push(e);
        }
        for e in bv {
            vals.retain(|f| (f.0, f.1) != (e.0, e.1));
            vals.push(e);
        }
    }
    s::check(merged == extended, 7);
    y.write_node_batch(&merged).unwrap();
    let at = s::bits(64);
    let holds = |m: &MockTreeStore, nodes: &[(NodeKey, Node)], tag: u64| {
        s::check(m.num_nodes() == nodes.len(), tag);
        for v in [v0, v0 + 1, v0 + 2] {
            for nk in [NodeKey::new(v, NibblePath::from_iter([])), below(v)] {
                let want = nodes.iter().find(|e| e.0 == nk).map(|e| &e.1);
                s::check(m.get_node_option(&nk).unwrap().as_ref() == want, tag + 1);
            }
        }
        for k in &ks {
            let want = vals.iter().filter(|e| e.1 == *k && e.0 <= at).max_by_key(|e| e.0).and_then(|e| e.2.clone());
            s::check(opt_eq(&m.get_value_option(at, KeyHash(*k)).unwrap(), want.as_ref()), tag + 2);
        }
        let best = nodes.iter().filter_map(|e| if let Node::Leaf(l) = &e.1 { Some(l.key_hash().0) } else { None }).max();
        match m.get_rightmost_leaf().unwrap() {
            None => s::check(best.is_none(), tag + 3),
            Some((k, l)) => {
                s::check(best == Some(l.key_hash().0), tag + 3);
                s::check(nodes.iter().any(|e| e.0 == k && e.1 == Node::Leaf(l.clone())), tag + 3);
            }
        }
    };
    if end == 0 {
        holds(&x, &nodes, 10);
        holds(&y, &nodes, 20);
        holds(&z, &nodes, 30);
        return s::reach(0);
    }
    if end == 2 {
        return c21_leaf(&x, &y, &ks, &vals, v0, &below, merged);
    }
    let p = s::bits(64);
    s::check(z.purge_stale_nodes(p).is_ok(), 40);
    nodes.retain(|e| !stale.iter().any(|f| f.node_key == e.0 && f.stale_since_version <= p));
    holds(&z, &nodes, 41);
    // the rest is still there to prune
    s::check(z.purge_stale_nodes(u64::MAX).is_ok(), 50);
    nodes.retain(|e| !stale.iter().any(|f| f.node_key == e.0));
    holds(&z, &nodes, 51);
    s::reach(1);
}
/// leaves put singly
fn c21_leaf(x: &MockTreeStore, y: &MockTreeStore, ks: &[K], vals: &[(u64, K, Option<V>)], v0: u64, below: &dyn Fn(u64) -> NodeKey, mut merged: NodeBatch) {
    let k = ks[s::choice(2)];
    let last = vals.iter().filter(|e| e.1 == k).map(|e| e.0).max().unwrap_or(v0);
    let nk = below(last + s::choice(2) as u64);
    let (vh, val) = (ValueHash(s::b32()), s::bytes(2));
    let leaf = LeafNode::new(KeyHash(k), vh);
    let r = x.put_leaf(nk.clone(), leaf.clone(), val.clone());
    let had = y.get_node_option(&nk).unwrap();
    s::check(r.is_ok() == had.is_none(), 60);
    if r.is_ok() {
        s::check(x.get_node_option(&nk).unwrap() == Some(Node::Leaf(leaf)), 61);
        s::check(opt_eq(&x.get_value_option(nk.version(), KeyHash(k)).unwrap(), Some(&val)), 62);
    } else {
        s::check(x.get_node_option(&nk).unwrap() == had, 63);
    }
    merged.clear();
    s::check(merged.is_empty() && merged == NodeBatch::default(), 64);
    s::reach(2);
}
