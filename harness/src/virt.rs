//! Trees of any size: nodes whose children claim any number of leaves (64-bit, symbolic) and any
//! hashes, and are not stored where no operation may need them.
use crate::rest::Restore;
use crate::s;
use crate::t::*;
use borsh::BorshDeserialize;
use jmt::restore::StateSnapshotReceiver;

fn at(v: u64, path: &[u8]) -> NodeKey {
    let mut e = v.to_le_bytes().to_vec();
    e.extend((path.len() as u64).to_le_bytes());
    let m = path.len().div_ceil(2);
    e.extend((m as u32).to_le_bytes());
    for p in path.chunks(2) {
        e.push(p[0] << 4 | p.get(1).unwrap_or(&0));
    }
    NodeKey::try_from_slice(&e).unwrap()
}
/// a child record: nibble, hash, version, number of leaves (None: it is a leaf)
struct Kid(u8, K, u64, Option<u64>);
fn inner(kids: &[Kid]) -> Node {
    let mut e = vec![1];
    let mut total = 0;
    for i in 0..16 {
        match kids.iter().find(|k| k.0 == i) {
            None => e.push(0),
            Some(k) => {
                e.push(1);
                e.extend(k.1);
                e.extend(k.2.to_le_bytes());
                match k.3 {
                    None => e.push(0),
                    Some(n) => {
                        e.push(1);
                        e.extend(n.to_le_bytes());
                    }
                }
                total += k.3.unwrap_or(1);
            }
        }
    }
    e.extend((kids.len() as u64).to_le_bytes());
    e.extend(total.to_le_bytes());
    Node::try_from_slice(&e).unwrap()
}
fn count(n: &Node) -> usize {
    match n {
        Node::Internal(n) => n.leaf_count(),
        Node::Leaf(_) => 1,
        Node::Null => 0,
    }
}
fn hash(n: &Node) -> K {
    match n {
        Node::Internal(n) => n.hash::<s::SymHasher>(),
        Node::Leaf(n) => n.hash::<s::SymHasher>(),
        Node::Null => unreachable!(),
    }
}
fn some() -> u64 {
    let n = s::bits(64);
    s::assume(n >= 2 && n < 1 << 59);
    n
}
/// the key below `path`, with the base key's nibbles after it
fn key(path: &[u8]) -> K {
    let mut k = base();
    for (i, n) in path.iter().enumerate() {
        set_nib(&mut k, i, *n);
    }
    k
}
const V0: u64 = 7;
struct Big {
    b: NodeBatch,
    st: Arc<Store>,
}
impl Big {
    fn new() -> Big {
        Big { b: NodeBatch::default(), st: Arc::new(Store::new()) }
    }
    fn put(&mut self, path: &[u8], n: Node) -> Kid {
        let kid = Kid(*path.last().unwrap_or(&0), if let Node::Null = n { [0; 32] } else { hash(&n) }, V0, if let Node::Internal(_) = n { Some(count(&n) as u64) } else { None });
        self.b.insert_node(at(V0, path), n);
        kid
    }
    fn leaf(&mut self, path: &[u8], x: &V) -> (Kid, K) {
        let k = key(path);
        let mut e = vec![2];
        e.extend(k);
        e.extend(ValueHash::with::<s::SymHasher>(x).0);
        self.b.insert_value(V0, KeyHash(k), x.clone());
        (self.put(path, Node::try_from_slice(&e).unwrap()), k)
    }
    /// an inner node with two inner children, one of any size, which are not stored
    fn huge(&mut self, path: &[u8], any: bool) -> (Kid, u64) {
        let (a, b) = (if any { some() } else { (1 << 33) + 70000 * path[0] as u64 + 300 }, 3);
        let n = inner(&[Kid(3, s::b32(), V0, Some(a)), Kid(12, s::b32(), V0, Some(b))]);
        (self.put(path, n), a + b)
    }
    fn done(&mut self) {
        self.st.write_node_batch(&self.b).unwrap();
    }
}
/// leaf counts and statistics of updates; whatever was written is consistent
pub fn counts() {
    let mut t = Big::new();
    let (x, y) = (s::bytes(1), s::bytes(2));
    let any = s::choice(3);
    let (v1, n1) = t.huge(&[1], any == 0);
    let (l, kl) = t.leaf(&[4], &x);
    let (m, km) = t.leaf(&[9, 2], &y);
    let (v2, n2) = t.huge(&[9, 5], any == 1);
    let i = inner(&[m, v2]);
    let i = t.put(&[9], i);
    let (v3, n3) = t.huge(&[15], any == 2);
    t.put(&[], inner(&[v1, l, i, v3]));
    t.done();
    let total = (n1 + n2 + n3 + 2) as usize;
    let tree = Tree::new(&*t.st);
    s::check(tree.get_leaf_count(V0).unwrap() == total, 1);
    let keys = [kl, km, key(&[6]), key(&[4, 0]), key(&[9, 2, 2, 1]), key(&[9, 7]), key(&[1, 8]), key(&[15, 0])];
    let mut live = vec![true, true, false, false, false, false, false, false];
    // any two operations, in one version or two, in one call or two
    let mut sets: Vec<Set> = vec![vec![]];
    let mut want = vec![];
    let now = |live: &[bool]| total - 2 + live.iter().filter(|x| **x).count();
    for j in 0..2 {
        if j == 1 && s::choice(2) == 1 {
            sets.push(vec![]);
            want.push(now(&live));
        }
        let c = s::choice(keys.len());
        let put = s::choice(2) == 0;
        live[c] = put;
        sets.last_mut().unwrap().push((keys[c], put.then(|| s::bytes(1))));
    }
    want.push(now(&live));
    let mut f = |sets: &[Set], first: u64, want: &[usize]| {
        let (roots, b) = tree.put_value_sets(sets.iter().map(|s| kh(s.clone())).collect::<Vec<_>>(), first).unwrap();
        // what is written agrees with what it is made of
        for (k, n) in b.node_batch.nodes() {
            if let Node::Internal(n) = n {
                let mut sum = 0;
                for (nib, c) in n.children_sorted() {
                    sum += c.leaf_count();
                    let ck = NodeKey::new(c.version, k.nibble_path().nibbles().chain(std::iter::once(nib)).collect());
                    let child = b.node_batch.get_node(&ck).cloned().or_else(|| t.st.get_node_option(&ck).unwrap());
                    if let Some(child) = child {
                        s::check(count(&child) == c.leaf_count() && s::eq(&hash(&child), &c.hash), 2);
                    }
                }
                s::check(n.leaf_count() == sum, 3);
            }
        }
        t.st.write_tree_update_batch(b).unwrap();
        for (j, n) in want.iter().enumerate() {
            s::check(tree.get_leaf_count(first + j as u64).unwrap() == *n, 4);
            s::check(s::eq(&tree.get_root_hash(first + j as u64).unwrap().0, &roots[j].0), 5);
        }
    };
    if sets.len() == 2 && s::choice(2) == 1 {
        f(&sets[..1], V0 + 1, &want[..1]);
        f(&sets[1..], V0 + 2, &want[1..]);
    } else {
        f(&sets, V0 + 1, &want);
    }
    s::check(tree.get_leaf_count(V0).unwrap() == total, 6);
    let last = V0 + want.len() as u64;
    let root = tree.get_root_hash(last).unwrap();
    for (c, k) in keys.iter().enumerate() {
        let (x, p) = tree.get_with_proof(KeyHash(*k), last).unwrap();
        s::check(x.is_some() == live[c] && p.verify(root, KeyHash(*k), x.as_ref()).is_ok(), 7);
    }
    s::reach(0);
}
/// iteration from any index
pub fn index() {
    let mut t = Big::new();
    let (x, y, z) = (s::bytes(1), s::bytes(2), s::bytes(1));
    let mut kids = vec![];
    let mut before = 0;
    // each part may be missing
    let mut leaves = vec![];
    let any = s::choice(3);
    if s::choice(2) == 1 {
        let (v1, n1) = t.huge(&[1], any == 0);
        kids.push(v1);
        before += n1;
    }
    let (l, kl) = t.leaf(&[4], &x);
    kids.push(l);
    leaves.push((before, kl, x));
    before += 1;
    let mut sub = vec![];
    if s::choice(2) == 1 {
        let (v2, n2) = t.huge(&[9, 0], any == 1);
        sub.push(v2);
        before += n2;
    }
    let (m, km) = t.leaf(&[9, 2], &y);
    sub.push(m);
    leaves.push((before, km, y));
    before += 1;
    let (n, kn) = t.leaf(&[9, 14], &z);
    sub.push(n);
    leaves.push((before, kn, z));
    before += 1;
    let i = inner(&sub);
    kids.push(t.put(&[9], i));
    if s::choice(2) == 1 {
        let (v3, n3) = t.huge(&[15], any == 2);
        kids.push(v3);
        before += n3;
    }
    t.put(&[], inner(&kids));
    t.done();
    let at = s::bits(64);
    let first = JellyfishMerkleIterator::new_by_index(t.st.clone(), V0, at as usize).and_then(|mut i| i.next().transpose());
    let want = leaves.iter().find(|e| e.0 == at);
    match (first, want) {
        (Ok(Some((k, v))), Some((_, wk, wv))) => {
            s::check(s::eq(&k.0, wk) && s::eq(&v, wv), 1);
            s::reach(1);
        }
        (Ok(Some(_)), None) => s::check(false, 2),
        (Ok(None), _) => s::check(at >= before, 3),
        // it leads to a node that is not there
        (Err(_), w) => s::check(w.is_none() && at < before, 4),
    }
    s::reach(0);
}
/// a restore resumed after a part of any size
pub fn resume() {
    let mut t = Big::new();
    let (x, y, z) = (s::bytes(1), s::bytes(2), s::bytes(1));
    let (v1, n1) = t.huge(&[1], true);
    let (l, kl) = t.leaf(&[4], &x);
    let part = (t.b.clone(), kl);
    let (m, km) = t.leaf(&[9, 2], &y);
    let (n, kn) = t.leaf(&[9, 14], &z);
    let i = inner(&[m, n]);
    let i = t.put(&[9], i);
    t.put(&[], inner(&[v1, l, i]));
    t.done();
    let tree = Tree::new(&*t.st);
    let root = tree.get_root_hash(V0).unwrap();
    let proof = |k: &K| tree.get_range_proof(KeyHash(*k), V0).unwrap();
    let st = Arc::new(Store::new());
    st.write_node_batch(&part.0).unwrap();
    let mut r = Restore::new(st.clone(), V0, root).unwrap();
    if s::choice(2) == 0 {
        r.add_chunk(vec![(KeyHash(km), y.clone()), (KeyHash(kn), z.clone())], proof(&kn)).unwrap();
    } else {
        r.add_chunk(vec![(KeyHash(km), y.clone())], proof(&km)).unwrap();
        r.add_chunk(vec![(KeyHash(kn), z.clone())], proof(&kn)).unwrap();
    }
    r.finish().unwrap();
    let got = Tree::new(&*st);
    s::check(s::eq(&got.get_root_hash(V0).unwrap().0, &root.0), 1);
    s::check(got.get_leaf_count(V0).unwrap() as u64 == n1 + 3, 2);
    for (k, n) in &t.st.i.borrow().nodes {
        s::check(st.get_node_option(k).unwrap().as_ref() == Some(n), 3);
    }
    s::check(st.num_nodes() == t.st.num_nodes(), 4);
    s::reach(0);
}
