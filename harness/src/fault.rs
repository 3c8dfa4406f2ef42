//! Storage that fails.
use crate::s;
use crate::t::*;
use std::cell::Cell;

pub struct Faulty {
    st: Arc<Store>,
    left: Cell<usize>,
    mode: usize,
    pub hit: Cell<bool>,
}
/// the failing read returns an error (and later ones work), returns an error from then on, or says
/// that there is no such entry
pub const ONCE: usize = 0;
pub const FOREVER: usize = 1;
const MISSING: usize = 2;
impl Faulty {
    pub fn new(st: &Arc<Store>, at: usize, mode: usize) -> Faulty {
        Faulty { st: st.clone(), left: Cell::new(at), mode, hit: Cell::new(false) }
    }
    fn fails(&self, can_miss: bool) -> anyhow::Result<bool> {
        let n = self.left.get();
        if n > 0 {
            self.left.set(n - 1);
            return Ok(false);
        }
        match self.mode {
            MISSING => {
                if can_miss && !self.hit.get() {
                    self.hit.set(true);
                    return Ok(true);
                }
                Ok(false)
            }
            m => {
                if m == ONCE && self.hit.get() {
                    return Ok(false);
                }
                self.hit.set(true);
                Err(anyhow::anyhow!("storage failure"))
            }
        }
    }
}
impl TreeReader for Faulty {
    fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> {
        // that a root is missing is an answer, not a failure
        if self.fails(!k.nibble_path().is_empty())? {
            return Ok(None);
        }
        self.st.get_node_option(k)
    }
    fn get_value_option(&self, v: u64, k: KeyHash) -> anyhow::Result<Option<V>> {
        if self.fails(true)? {
            return Ok(None);
        }
        self.st.get_value_option(v, k)
    }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
        self.fails(false)?;
        self.st.get_rightmost_leaf()
    }
}
impl TreeWriter for Faulty {
    fn write_node_batch(&self, b: &NodeBatch) -> anyhow::Result<()> {
        self.st.write_node_batch(b)
    }
}
impl HasPreimage for Faulty {
    fn preimage(&self, k: KeyHash) -> anyhow::Result<Option<V>> {
        if self.fails(true)? {
            return Ok(None);
        }
        self.st.preimage(k)
    }
}
type FTree<'a> = JellyfishMerkleTree<'a, Faulty, s::SymHasher>;

pub fn c20(max: usize) {
    let (d1, d2) = [(0, 0), (0, 1), (1, 3), (62, 63)][s::choice(4)];
    let deep = d1 == 62;
    let a = base();
    let ks = [a, key_at(d1, nib(&a, d1) ^ 3, 1), key_at(d2, nib(&a, d2) ^ 6, 2)];
    let mut w = W::new(&ks);
    let set = vec![w.put(a), w.put(ks[1]), w.put(ks[2])];
    w.commit(vec![set], 4, &mut crate::rest::Nothing);
    let gone = s::choice(3);
    if gone > 0 {
        w.commit(vec![vec![(ks[gone], None)]], 5, &mut crate::rest::Nothing);
    }
    let v = w.vers[w.vers.len() - 1];
    // one of the keys, or one that was never there
    let k = match s::choice(4) {
        3 => key_at(d2, nib(&a, d2) ^ 13, 4),
        i => ks[i],
    };
    let mode = s::choice(3);
    let late = [20, 40, 61, 62, 63, 64, 65, 66, 67, 68, 70];
    let at = s::choice(if deep { max + late.len() } else { max });
    let f = Arc::new(Faulty::new(&w.st, if at < max { at } else { late[at - max] }, mode));
    let t = FTree::new(&f);
    let g = w.tree();
    s::expect_panic();
    match s::choice(13) {
        0 if mode != MISSING => {
            if let Ok(x) = t.get(KeyHash(k), v) {
                s::check(opt_eq(&x, w.want(&k, v)), 1);
            }
        }
        1 => {
            if let Ok((x, p)) = t.get_with_proof(KeyHash(k), v) {
                s::check(opt_eq(&x, w.want(&k, v)), 2);
                s::check(p.verify(g.get_root_hash(v).unwrap(), KeyHash(k), x.as_ref()).is_ok(), 3);
            }
        }
        2 => {
            if let Ok(r) = t.get_root_hash(v) {
                s::check(s::eq(&r.0, &w.roots[w.roots.len() - 1]), 4);
            }
            if let Ok(r) = t.get_root_hash_option(v) {
                s::check(r.map(|r| r.0) == Some(w.roots[w.roots.len() - 1]), 5);
            }
        }
        3 => {
            if let Ok(n) = t.get_leaf_count(v) {
                s::check(n == w.live(v).len(), 6);
            }
        }
        4 => {
            if let Ok(p) = t.get_range_proof(KeyHash(k), v) {
                if w.want(&k, v).is_none() {
                    return s::check(false, 14);
                }
                s::check(p == g.get_range_proof(KeyHash(k), v).unwrap(), 7);
            }
        }
        5 => {
            let set = match s::choice(3) {
                0 => vec![(k, Some(s::bytes(1)))],
                1 => vec![(k, None)],
                _ => vec![(k, None), (ks[0], Some(s::bytes(1)))],
            };
            if let Ok((r, b)) = t.put_value_set(kh(set.clone()), v + 1) {
                let (r2, b2) = g.put_value_set(kh(set), v + 1).unwrap();
                s::check(r == r2 && b == b2, 8);
            }
        }
        6 => {
            let set = match s::choice(2) {
                0 => vec![(k, Some(s::bytes(1)))],
                _ => vec![(k, None)],
            };
            if let Ok((r, p, b)) = t.put_value_set_with_proof(kh(set.clone()), v + 1) {
                let (r2, b2) = g.put_value_set(kh(set.clone()), v + 1).unwrap();
                s::check(r == r2 && b == b2, 9);
                s::check(p.verify_update(g.get_root_hash(v).unwrap(), r, kh(set)).is_ok(), 10);
            }
        }
        7 => {
            let l = crate::hist::sorted_live(&w, v);
            let it = if s::choice(2) == 0 { JellyfishMerkleIterator::new(f.clone(), v, KeyHash([0; 32])) } else { JellyfishMerkleIterator::new_by_index(f.clone(), v, 0) };
            if let Ok(it) = it {
                let got: Vec<_> = it.take(l.len() + 2).collect();
                for (i, x) in got.iter().enumerate() {
                    match x {
                        Ok((k, x)) => s::check(i < l.len() && s::eq(&k.0, &l[i].0) && s::eq(x, &l[i].1), 11),
                        Err(_) => break,
                    }
                }
                if got.iter().all(|x| x.is_ok()) {
                    s::check(got.len() == l.len(), 12);
                }
            }
        }
        8 => {
            if let Ok(r) = t.get_with_exclusion_proof(KeyHash(k), v) {
                let want = g.get_with_exclusion_proof(KeyHash(k), v).unwrap();
                let text = |x: Result<(V, Proof), jmt::ExclusionProof<s::SymHasher>>| match x {
                    Ok((x, p)) => (0, x, vec![p]),
                    Err(jmt::ExclusionProof::Leftmost { leftmost_right_proof: p }) => (1, vec![], vec![p]),
                    Err(jmt::ExclusionProof::Rightmost { rightmost_left_proof: p }) => (2, vec![], vec![p]),
                    Err(jmt::ExclusionProof::Middle { leftmost_right_proof: p, rightmost_left_proof: q }) => (3, vec![], vec![p, q]),
                };
                s::check(text(r) == text(want), 13);
            }
        }
        9 => {
            let sets = vec![vec![(k, Some(s::bytes(1)))], vec![(ks[1], None), (k, None)]];
            let f = || sets.iter().map(|s| kh(s.clone())).collect::<Vec<_>>();
            if let Ok((r, b)) = t.put_value_sets(f(), v + 1) {
                let (r2, b2) = g.put_value_sets(f(), v + 1).unwrap();
                s::check(r == r2 && b == b2, 15);
            }
        }
        10 => {
            let x = s::bytes(1);
            let f = || vec![vec![(KeyHash(k), x.clone()), (KeyHash(ks[0]), vec![7])]];
            if let Ok((r, b)) = t.batch_put_value_sets(f(), None, v + 1) {
                let (r2, b2) = g.batch_put_value_sets(f(), None, v + 1).unwrap();
                s::check(r == r2 && b == b2, 16);
            }
        }
        11 => {
            let set = vec![(k, [None, Some(s::bytes(1))][s::choice(2)].clone())];
            if let Ok((r, b)) = t.append_value_set(kh(set.clone()), v) {
                match g.append_value_set(kh(set), v) {
                    Ok((r2, b2)) => s::check(r == r2 && b == b2, 17),
                    Err(_) => s::check(false, 18),
                }
            }
        }
        12 => {
            let pre = |k: &K| [&b"K"[..], k].concat();
            w.st.i.borrow_mut().preimages = ks.iter().map(|k| (*k, pre(k))).collect();
            if let Ok((x, p)) = t.get_with_ics23_proof(pre(&k), v) {
                let (x2, p2) = g.get_with_ics23_proof(pre(&k), v).unwrap();
                s::check(opt_eq(&x, w.want(&k, v)) && x == x2 && p == p2, 19);
            }
        }
        _ => return,
    }
    s::reach(0);
    s::reach(if f.hit.get() { 1 } else { 2 });
}
