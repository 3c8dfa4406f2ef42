//! A storage backend that also records what a correct user of the library must never see: stored
//! entries overwritten, stale entries that are unknown or reported twice.
use crate::s;
use crate::t::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Default)]
pub struct Inner {
    pub nodes: BTreeMap<NodeKey, Node>,
    pub values: Vec<(u64, K, Option<V>)>,
    pub stale: BTreeSet<StaleNodeIndex>,
    pub preimages: Vec<(K, V)>,
}
#[derive(Default)]
pub struct Store {
    pub i: RefCell<Inner>,
    /// when present, answers every read (the crate's own in-memory store)
    pub mock: Option<MockTreeStore>,
    pub overwrote: Cell<bool>,
    pub bad_stale: Cell<bool>,
    pub writes: Cell<usize>,
    /// values of the pre-genesis version are taken to be older than all others
    pub genesis: Cell<bool>,
    /// from this write on, every write fails
    pub fail_from: Cell<usize>,
}
impl Store {
    pub fn new() -> Store {
        Store { fail_from: Cell::new(usize::MAX), ..Default::default() }
    }
    pub fn with_mock() -> Store {
        Store { mock: Some(MockTreeStore::default()), ..Store::new() }
    }
    pub fn fork(&self) -> Store {
        assert!(self.mock.is_none());
        Store { i: RefCell::new(self.i.borrow().clone()), genesis: self.genesis.clone(), ..Store::new() }
    }
    pub fn num_nodes(&self) -> usize {
        self.i.borrow().nodes.len()
    }
    pub fn has(&self, k: &NodeKey) -> bool {
        self.i.borrow().nodes.contains_key(k)
    }
    fn put(&self, b: &NodeBatch) {
        let mut i = self.i.borrow_mut();
        for (k, n) in b.nodes() {
            if i.nodes.insert(k.clone(), n.clone()).is_some() {
                self.overwrote.set(true);
            }
        }
        for ((v, k), x) in b.values() {
            match i.values.iter().rposition(|e| e.0 == *v && s::eq(&e.1, &k.0)) {
                Some(p) => i.values[p].2 = x.clone(),
                None => i.values.push((*v, k.0, x.clone())),
            }
        }
    }
    pub fn write_tree_update_batch(&self, b: TreeUpdateBatch) -> anyhow::Result<()> {
        self.put(&b.node_batch);
        {
            let mut i = self.i.borrow_mut();
            for e in &b.stale_node_index_batch {
                if !i.nodes.contains_key(&e.node_key) || !i.stale.insert(e.clone()) {
                    self.bad_stale.set(true);
                }
            }
        }
        match &self.mock {
            Some(m) => m.write_tree_update_batch(b),
            None => Ok(()),
        }
    }
    /// removes what is stale at or before `v`; false if something to remove is not there
    pub fn purge(&self, v: u64) -> bool {
        let mut i = self.i.borrow_mut();
        let gone: Vec<_> = i.stale.iter().filter(|e| e.stale_since_version <= v).cloned().collect();
        let mut ok = true;
        for e in gone {
            ok &= i.nodes.remove(&e.node_key).is_some();
            i.stale.remove(&e);
        }
        if let Some(m) = &self.mock {
            ok &= m.purge_stale_nodes(v).is_ok() && m.num_nodes() == i.nodes.len();
        }
        ok
    }
}
impl TreeReader for Store {
    fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> {
        match &self.mock {
            Some(m) => m.get_node_option(k),
            None => Ok(self.i.borrow().nodes.get(k).cloned()),
        }
    }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
        if let Some(m) = &self.mock {
            return m.get_rightmost_leaf();
        }
        let i = self.i.borrow();
        let mut best: Option<(NodeKey, LeafNode)> = None;
        for (k, n) in &i.nodes {
            if let Node::Leaf(l) = n {
                if best.as_ref().map_or(true, |b| l.key_hash() > b.1.key_hash()) {
                    best = Some((k.clone(), l.clone()));
                }
            }
        }
        Ok(best)
    }
    fn get_value_option(&self, v: u64, k: KeyHash) -> anyhow::Result<Option<V>> {
        if let Some(m) = &self.mock {
            return m.get_value_option(v, k);
        }
        let i = self.i.borrow();
        let of = |e: &&(u64, K, Option<V>)| s::eq(&e.1, &k.0);
        let g = self.genesis.get();
        let mut e = if g && v == u64::MAX { None } else { i.values.iter().rev().filter(|e| e.0 <= v).find(of) };
        if e.is_none() && g {
            e = i.values.iter().filter(|e| e.0 == u64::MAX).find(of);
        }
        Ok(e.and_then(|e| e.2.clone()))
    }
}
impl TreeWriter for Store {
    fn write_node_batch(&self, b: &NodeBatch) -> anyhow::Result<()> {
        let n = self.writes.get();
        self.writes.set(n + 1);
        if n >= self.fail_from.get() {
            return Err(anyhow::anyhow!("storage failure"));
        }
        self.put(b);
        match &self.mock {
            Some(m) => m.write_node_batch(b),
            None => Ok(()),
        }
    }
}
impl HasPreimage for Store {
    fn preimage(&self, k: KeyHash) -> anyhow::Result<Option<V>> {
        Ok(self.i.borrow().preimages.iter().find(|e| s::eq(&e.0, &k.0)).map(|e| e.1.clone()))
    }
}

/// the keys of all nodes reachable from the roots of the given versions; None if one is not stored
pub fn reachable(st: &Store, versions: &[u64]) -> Option<BTreeSet<NodeKey>> {
    let i = st.i.borrow();
    let mut seen = BTreeSet::new();
    let mut todo: Vec<NodeKey> = versions.iter().map(|v| NodeKey::new(*v, NibblePath::from_iter([]))).collect();
    while let Some(k) = todo.pop() {
        let n = i.nodes.get(&k)?;
        if !seen.insert(k.clone()) {
            continue;
        }
        if let Node::Internal(x) = n {
            for (nib, c) in x.children_sorted() {
                let p = k.nibble_path().nibbles().chain(std::iter::once(nib)).collect();
                todo.push(NodeKey::new(c.version, p));
            }
        }
    }
    Some(seen)
}
/// the sorted pairs below one root, if the nodes are what they should be: every child record names
/// a stored node of the right kind, hash and leaf count at a version not above its parent's, paths
/// lead to their keys, and no inner node stands where a leaf would do
pub fn well_formed(st: &Store, v: u64, tag: u64) -> Vec<(K, K)> {
    let pre = st.genesis.get();
    fn walk(pre: bool, i: &Inner, k: &NodeKey, tag: u64, out: &mut Vec<(K, K)>) -> Option<([u8; 32], usize, bool)> {
        let n = i.nodes.get(k)?;
        let depth = k.nibble_path().num_nibbles();
        s::check(k.nibble_path().nibbles().count() == depth, tag);
        match n {
            Node::Null => {
                s::check(depth == 0, tag + 1);
                Some((crate::model::EMPTY, 0, false))
            }
            Node::Leaf(l) => {
                let kh = l.key_hash().0;
                for (j, x) in k.nibble_path().nibbles().enumerate() {
                    s::check(x.as_usize() == crate::t::nib(&kh, j) as usize, tag + 2);
                }
                let h = l.hash::<s::SymHasher>();
                out.push((kh, h));
                Some((h, 1, true))
            }
            Node::Internal(x) => {
                let mut kids = vec![];
                let mut total = 0;
                let mut last = -1;
                let (mut exist, mut leaves) = (0u16, 0u16);
                for (nib, c) in x.children_sorted() {
                    s::check(nib.as_usize() as i64 > last, tag + 3);
                    last = nib.as_usize() as i64;
                    s::check(c.version <= k.version() || pre && c.version == u64::MAX, tag + 4);
                    let p: NibblePath = k.nibble_path().nibbles().chain(std::iter::once(nib)).collect();
                    let ck = NodeKey::new(c.version, p);
                    s::check(ck.nibble_path().last() == Some(nib), tag + 5);
                    match walk(pre, i, &ck, tag, out) {
                        None => s::check(false, tag + 6),
                        Some((h, n, leaf)) => {
                            s::check(s::eq(&h, &c.hash), tag + 7);
                            s::check(n == c.leaf_count() && leaf == c.is_leaf(), tag + 8);
                            total += n;
                            exist |= 1 << last;
                            if leaf {
                                leaves |= 1 << last
                            }
                            kids.push((last as u8, h, leaf));
                        }
                    }
                    s::check(x.child(nib).map_or(false, |d| d == c), tag + 9);
                }
                s::check(kids.len() > 1 || kids.len() == 1 && !kids[0].2, tag + 10);
                s::check(x.leaf_count() == total, tag + 11);
                s::check(x.generate_bitmaps() == (exist, leaves), tag + 12);
                s::check(x.children_unsorted().count() == kids.len(), tag + 13);
                let h = slots(&kids, 0, 16);
                s::check(s::eq(&x.hash::<s::SymHasher>(), &h), tag + 14);
                Some((h, total, false))
            }
        }
    }
    /// hash of the slots from..from+width: a lone leaf stands for its range
    fn slots(kids: &[(u8, [u8; 32], bool)], from: u8, width: u8) -> [u8; 32] {
        let here: Vec<_> = kids.iter().filter(|k| k.0 >= from && k.0 < from + width).cloned().collect();
        match here.len() {
            0 => crate::model::EMPTY,
            1 if width == 1 || here[0].2 => here[0].1,
            _ => crate::model::inner_hash(&slots(&here, from, width / 2), &slots(&here, from + width / 2, width / 2)),
        }
    }
    let i = st.i.borrow();
    let mut out = vec![];
    let r = walk(pre, &i, &NodeKey::new(v, NibblePath::from_iter([])), tag, &mut out);
    s::check(r.is_some(), tag + 15);
    out
}
