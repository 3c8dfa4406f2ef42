//! Appending to the latest version (migration feature).
use crate::hist::*;
use crate::model;
use crate::rest::Nothing;
use crate::s;
use crate::store::*;
use crate::t::*;

pub fn c24(appends: usize, ops: usize, mock: bool) {
    let (d1, d2) = [(0, 0), (0, 1), (1, 3), (62, 63)][s::choice(4)];
    let a = base();
    let ks = [a, key_at(d1, nib(&a, d1) ^ 3, 1), key_at(d2, nib(&a, d2) ^ 6, 2)];
    let mut w = if mock { W::overwriting(&ks) } else { W::new(&ks) };
    let first = match s::choice(2) {
        0 => 0,
        _ => {
            let v = s::bits(64);
            s::assume(v >= 1 && v < u64::MAX - 64);
            v
        }
    };
    // one or two versions
    let set: Set = (0..3).filter(|i| *i != 0 || first == 0).map(|i| w.put(ks[i])).collect();
    w.commit(vec![set], first, &mut Nothing);
    if s::choice(2) == 1 {
        let op = w.put(ks[s::choice(3)]);
        w.commit(vec![vec![op]], first + 1, &mut Nothing);
    }
    let last = w.vers.len() - 1;
    let v = w.vers[last];
    // no other version above is taken for one
    if appends == 1 {
        for u in [v + 1, v + 9, v | 1 << 63] {
            if u != v {
                s::check(w.tree().append_value_set(vec![(KeyHash(ks[1]), Some(vec![1]))], u).is_err(), 12);
            }
        }
    }
    // a node that one append reported stale, written again at the same place by a later append
    let (mut gone, mut again) = (std::collections::BTreeSet::new(), false);
    for _ in 0..appends {
        let mut set = vec![];
        for _ in 0..ops {
            let k = ks[s::choice(3)];
            let op = if s::choice(2) == 0 { w.put(k) } else { (k, None) };
            set.push(op);
        }
        match w.tree().append_value_set(kh(set.clone()), v) {
            Err(_) => {
                s::reach(2);
                break;
            }
            Ok((r, b)) => {
                s::reach(1);
                for e in &b.stale_node_index_batch {
                    s::check(w.st.has(&e.node_key) && e.stale_since_version == v, 1);
                }
                again |= b.node_batch.nodes().keys().any(|k| gone.contains(k));
                gone.extend(b.stale_node_index_batch.iter().map(|e| e.node_key.clone()));
                w.st.write_tree_update_batch(b).unwrap();
                for (k, x) in set {
                    w.log.push((v, k, x));
                }
                w.roots[last] = r.0;
            }
        }
        let t = w.tree();
        for (i, &u) in w.vers.iter().enumerate() {
            let l = w.live(u);
            let root = t.get_root_hash(u).unwrap();
            s::check(s::eq(&root.0, &w.roots[i]), 2);
            s::check(s::eq(&root.0, &model::root(&l)), 3);
            s::check(t.get_leaf_count(u).unwrap() == l.len(), 4);
            for k in &w.keys {
                let (x, p) = t.get_with_proof(KeyHash(*k), u).unwrap();
                s::check(opt_eq(&x, w.want(k, u)), 5);
                s::check(opt_eq(&t.get(KeyHash(*k), u).unwrap(), w.want(k, u)), 6);
                s::check(p.verify(root, KeyHash(*k), x.as_ref()).is_ok(), 7);
            }
        }
    }
    // pruning, then going on
    s::check(w.st.purge(v), 8);
    match reachable(&w.st, &[v]) {
        None if again => return s::check(false, 20), // known finding
        None => s::check(false, 9),
        Some(r) => s::check(r.len() == w.st.num_nodes(), 10),
    }
    let op = w.put(ks[1]);
    w.commit(vec![vec![op]], v + 1, &mut Nothing);
    s::check(s::eq(&w.roots[last + 1], &model::root(&w.live(v + 1))), 11);
    s::reach(0);
}
/// hundreds of changes appended to a version of hundreds of keys
pub fn mass() {
    let ks = mass_keys(400);
    let mut new = ks[40];
    set_nib(&mut new, 1, sym_nib());
    let mut w = W::new(&[ks[1], ks[299], ks[399], new]);
    let set: Set = ks.iter().step_by(2).map(|k| (*k, Some(s::bytes(1)))).collect();
    w.commit(vec![set], 7, &mut Nothing);
    let mut set: Set = ks.iter().skip(1).step_by(2).map(|k| (*k, Some(s::bytes(1)))).collect();
    set.extend(ks.iter().step_by(10).map(|k| (*k, None)));
    set.extend(ks.iter().step_by(14).map(|k| (*k, Some(s::bytes(2)))));
    set.push((new, Some(s::bytes(1))));
    set.extend((0..60).map(|i| (ks[i], None)));
    let (r, b) = w.tree().append_value_set(kh(set.clone()), 7).unwrap();
    for e in &b.stale_node_index_batch {
        s::check(w.st.has(&e.node_key) && e.stale_since_version == 7, 1);
    }
    w.st.write_tree_update_batch(b).unwrap();
    for (k, x) in set {
        w.log.push((7, k, x));
    }
    let t = w.tree();
    let l = sorted_live(&w, 7);
    s::check(s::eq(&r.0, &model::root(&l)), 3);
    s::check(s::eq(&t.get_root_hash(7).unwrap().0, &r.0), 2);
    s::check(t.get_leaf_count(7).unwrap() == l.len(), 4);
    for k in ks.iter().step_by(29).chain(&w.keys) {
        let (x, p) = t.get_with_proof(KeyHash(*k), 7).unwrap();
        s::check(opt_eq(&x, w.want(k, 7)), 5);
        s::check(p.verify(r, KeyHash(*k), x.as_ref()).is_ok(), 7);
    }
    s::check(w.st.purge(7), 8);
    match reachable(&w.st, &[7]) {
        None => s::check(false, 9),
        Some(r) => s::check(r.len() == w.st.num_nodes(), 10),
    }
    s::reach(0);
    s::reach(1);
}
