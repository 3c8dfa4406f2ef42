//! Hash-consed bit-vector expression DAG with an aggressive simplifier.
//! Widths are 1..=256 bits.  `Hash` nodes are 256-bit uninterpreted,
//! collision-free hash outputs over a list of byte expressions.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32; // 0 = "no expression"
pub type W4 = [u64; 4];

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, // a = index in consts
    Var,   // a = var id
    Hash,  // a = index in hashes
    Concat, // a = index in lists
    Extract, // a = base, b = lo
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    SExt, // a
    Eq,
    Ult,
    Slt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub fn mask1(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn mask4(mut v: W4, w: u32) -> W4 {
    for i in 0..4u32 {
        if w <= i * 64 {
            v[i as usize] = 0
        } else if w < (i + 1) * 64 {
            v[i as usize] &= mask1(w - i * 64)
        }
    }
    v
}
pub fn shl4(v: W4, s: u32) -> W4 {
    let mut r = [0u64; 4];
    if s >= 256 {
        return r;
    }
    let (q, m) = ((s / 64) as usize, s % 64);
    for i in (q..4).rev() {
        r[i] = v[i - q] << m;
        if m > 0 && i > q {
            r[i] |= v[i - q - 1] >> (64 - m)
        }
    }
    r
}
pub fn shr4(v: W4, s: u32) -> W4 {
    let mut r = [0u64; 4];
    if s >= 256 {
        return r;
    }
    let (q, m) = ((s / 64) as usize, s % 64);
    for i in 0..4 - q {
        r[i] = v[i + q] >> m;
        if m > 0 && i + q + 1 < 4 {
            r[i] |= v[i + q + 1] << (64 - m)
        }
    }
    r
}
pub fn or4(a: W4, b: W4) -> W4 {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn add4(a: W4, b: W4) -> W4 {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    r
}
pub fn not4(a: W4) -> W4 {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn sub4(a: W4, b: W4) -> W4 {
    add4(add4(a, not4(b)), [1, 0, 0, 0])
}
pub fn mul4(a: W4, b: W4) -> W4 {
    let mut r = [0u64; 4];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 - i {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
    }
    r
}
pub fn ult4(a: W4, b: W4) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
fn bit4(a: W4, i: u32) -> bool {
    (a[(i / 64) as usize] >> (i % 64)) & 1 == 1
}
fn sext4(a: W4, w: u32) -> W4 {
    if bit4(a, w - 1) {
        or4(a, not4(mask4([!0; 4], w)))
    } else {
        a
    }
}
fn divrem4(a: W4, b: W4) -> (W4, W4) {
    // schoolbook long division
    let mut q = [0u64; 4];
    let mut r = [0u64; 4];
    for i in (0..256).rev() {
        r = shl4(r, 1);
        if bit4(a, i) {
            r[0] |= 1
        }
        if !ult4(r, b) {
            r = sub4(r, b);
            q[(i / 64) as usize] |= 1 << (i % 64)
        }
    }
    (q, r)
}

pub fn fold(op: Op, w: u32, a: W4, b: W4) -> Option<W4> {
    let z = [0u64; 4];
    let sh = || -> u32 {
        if b[1] | b[2] | b[3] != 0 || b[0] >= w as u64 {
            w
        } else {
            b[0] as u32
        }
    };
    let r = match op {
        Op::And => [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]],
        Op::Or => or4(a, b),
        Op::Xor => [a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]],
        Op::Add => add4(a, b),
        Op::Sub => sub4(a, b),
        Op::Mul => mul4(a, b),
        Op::UDiv => {
            if b == z {
                return None;
            }
            divrem4(a, b).0
        }
        Op::URem => {
            if b == z {
                return None;
            }
            divrem4(a, b).1
        }
        Op::SDiv | Op::SRem => {
            if b == z {
                return None;
            }
            let (sa, sb) = (bit4(a, w - 1), bit4(b, w - 1));
            let ab = |x: W4, s: bool| if s { mask4(sub4(z, x), w) } else { x };
            let (q, r) = divrem4(ab(a, sa), ab(b, sb));
            if op == Op::SDiv {
                if sa != sb {
                    sub4(z, q)
                } else {
                    q
                }
            } else if sa {
                sub4(z, r)
            } else {
                r
            }
        }
        Op::Shl => {
            if sh() >= w {
                z
            } else {
                shl4(a, sh())
            }
        }
        Op::LShr => {
            if sh() >= w {
                z
            } else {
                shr4(a, sh())
            }
        }
        Op::AShr => {
            let s = sh().min(w - 1);
            let x = sext4(a, w);
            let mut r = shr4(x, s);
            if bit4(a, w - 1) {
                r = or4(r, not4(shr4([!0; 4], s)));
            }
            r
        }
        _ => return None,
    };
    Some(mask4(r, w))
}

#[derive(Default)]
pub struct Model {
    pub vars: FxMap<u32, W4>,
    pub hashes: FxMap<u32, W4>,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub bloom: Vec<u128>,
    cons: FxMap<Node, E>,
    pub consts: Vec<W4>,
    const_ix: FxMap<(W4, u16), E>,
    pub lists: Vec<Rc<[E]>>,
    list_ix: FxMap<Rc<[E]>, E>,
    pub hashes: Vec<Rc<[E]>>,
    hash_ix: FxMap<Rc<[E]>, E>,
    sup: FxMap<E, Rc<[u32]>>,
    pub t: E,
    pub f: E,
    eq_memo: FxMap<(E, E), E>,
    occ_memo: FxMap<(u32, E), bool>,
    k8: [E; 256],
}

pub const HASHBIT: u32 = 1 << 31;

/// what the crate takes as the hash of an empty subtree
const PLACEHOLDER: &[u8; 32] = b"SPARSE_MERKLE_PLACEHOLDER_HASH__";

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            bloom: vec![],
            cons: Default::default(),
            consts: vec![],
            const_ix: Default::default(),
            lists: vec![],
            list_ix: Default::default(),
            hashes: vec![],
            hash_ix: Default::default(),
            sup: Default::default(),
            t: 0,
            f: 0,
            eq_memo: Default::default(),
            occ_memo: Default::default(),
            k8: [0; 256],
        };
        a.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 });
        a.bloom.push(0);
        a.f = a.konst(1, 0);
        a.t = a.konst(1, 1);
        for i in 0..256 {
            a.k8[i] = a.konst4(8, [i as u64, 0, 0, 0]);
        }
        a
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    fn push(&mut self, n: Node, bloom: u128) -> E {
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.bloom.push(bloom);
        id
    }
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> E {
        let n = Node { op, w: w as u16, a, b, c };
        if let Some(&e) = self.cons.get(&n) {
            return e;
        }
        let bl = match op {
            Op::Var => 1u128 << (a % 64),
            Op::Extract => {
                let o = if self.nodes[a as usize].op == Op::Hash { 1u128 << (64 + (a.wrapping_add(b * 7)) % 64) } else { 0 };
                self.bloom[a as usize] | o
            }
            Op::Not | Op::SExt => self.bloom[a as usize],
            Op::And | Op::Or | Op::Xor => self.bloom[a as usize] | self.bloom[b as usize],
            Op::Ite => self.bloom[a as usize] | self.bloom[b as usize] | self.bloom[c as usize],
            // predicates and arithmetic can be rewritten as a whole by a recorded fact
            _ => self.bloom[a as usize] | self.bloom[b as usize] | Self::atom_bit(self.nodes.len() as u32),
        };
        let e = self.push(n, bl);
        self.cons.insert(n, e);
        e
    }
    fn atom_bit(id: E) -> u128 {
        1u128 << (64 + (id.wrapping_mul(2654435761) >> 20) % 64)
    }
    /// mask bits that every expression containing `e` (as a rewritable atom) has
    pub fn key_mask(&self, e: E) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Var => 1u128 << (n.a % 64),
            Op::Extract if self.nodes[n.a as usize].op == Op::Hash => 1u128 << (64 + (n.a.wrapping_add(n.b * 7)) % 64),
            Op::Eq | Op::Ult | Op::Slt | Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr => Self::atom_bit(e),
            _ => {
                // lowest set bit of its own bloom: present in every superterm
                let b = self.bloom[e as usize];
                b & b.wrapping_neg()
            }
        }
    }
    pub fn konst4(&mut self, w: u32, v: W4) -> E {
        let v = mask4(v, w);
        if let Some(&e) = self.const_ix.get(&(v, w as u16)) {
            return e;
        }
        self.consts.push(v);
        let ix = (self.consts.len() - 1) as u32;
        let e = self.push(Node { op: Op::Const, w: w as u16, a: ix, b: 0, c: 0 }, 0);
        self.const_ix.insert((v, w as u16), e);
        e
    }
    pub fn konst(&mut self, w: u32, v: u64) -> E {
        if w == 8 {
            let e = self.k8[(v & 255) as usize];
            if e != 0 {
                return e;
            }
        }
        self.konst4(w, [v, 0, 0, 0])
    }
    pub fn cv(&self, e: E) -> Option<W4> {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn is_true(&self, e: E) -> bool {
        e == self.t
    }
    pub fn is_false(&self, e: E) -> bool {
        e == self.f
    }
    pub fn boolc(&self, b: bool) -> E {
        if b {
            self.t
        } else {
            self.f
        }
    }
    pub fn var(&mut self, w: u32, id: u32) -> E {
        self.mk(Op::Var, w, id, 0, 0)
    }
    pub fn hash(&mut self, inp: &[E]) -> E {
        if let Some(&e) = self.hash_ix.get(inp) {
            return e;
        }
        let rc: Rc<[E]> = inp.into();
        let mut bl = 0u128;
        for &x in inp {
            bl |= self.bloom[x as usize]
        }
        self.hashes.push(rc.clone());
        let ix = (self.hashes.len() - 1) as u32;
        // a bit of bloom for the term itself, so that rewrites of its extracts are seen
        let e = self.push(Node { op: Op::Hash, w: 256, a: ix, b: 0, c: 0 }, bl | (1u128 << (64 + ix % 64)));
        self.hash_ix.insert(rc, e);
        e
    }
    fn is_bytewise(op: Op) -> bool {
        matches!(op, Op::And | Op::Or | Op::Xor)
    }
    pub fn parts(&self, e: E) -> Vec<E> {
        let n = self.n(e);
        if n.op == Op::Concat {
            self.lists[n.a as usize].to_vec()
        } else {
            vec![e]
        }
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.n(e);
        debug_assert!(lo + w <= n.w as u32 && w > 0);
        if w == n.w as u32 {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                self.konst4(w, shr4(v, lo))
            }
            Op::Extract => self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let l = self.lists[n.a as usize].clone();
                let mut pos = n.w as u32;
                let mut out = Vec::new();
                for &p in l.iter() {
                    let pw = self.w(p);
                    let plo = pos - pw;
                    // overlap of [plo,pos) with [lo,lo+w)
                    let a = plo.max(lo);
                    let b = pos.min(lo + w);
                    if a < b {
                        out.push(self.extract(p, a - plo, b - a));
                    }
                    pos = plo;
                }
                self.concat(&out)
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                if self.n(n.b).op == Op::Const || self.n(n.c).op == Op::Const {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.mk(Op::Extract, w, e, lo, 0)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo >= iw {
                    let s = self.extract(n.a, iw - 1, 1);
                    self.sext(s, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.sext(x, w)
                }
            }
            _ => self.mk(Op::Extract, w, e, lo, 0),
        }
    }
    /// parts: most significant first
    pub fn concat(&mut self, parts: &[E]) -> E {
        if parts.len() == 1 {
            return parts[0];
        }
        let mut flat: Vec<E> = Vec::with_capacity(parts.len());
        let mut tot = 0;
        for &p in parts {
            let n = self.n(p);
            tot += n.w as u32;
            if n.op == Op::Concat {
                let l = self.lists[n.a as usize].clone();
                for &q in l.iter() {
                    self.cpush(&mut flat, q);
                }
            } else {
                self.cpush(&mut flat, p);
            }
        }
        if flat.len() == 1 {
            return flat[0];
        }
        if let Some(&e) = self.list_ix.get(flat.as_slice()) {
            return e;
        }
        let rc: Rc<[E]> = flat.into();
        let mut bl = 0u128;
        for &x in rc.iter() {
            bl |= self.bloom[x as usize]
        }
        self.lists.push(rc.clone());
        let ix = (self.lists.len() - 1) as u32;
        assert!(tot <= 256, "concat wider than 256");
        let e = self.push(Node { op: Op::Concat, w: tot as u16, a: ix, b: 0, c: 0 }, bl);
        self.list_ix.insert(rc, e);
        e
    }
    fn cpush(&mut self, flat: &mut Vec<E>, q: E) {
        if let Some(&l) = flat.last() {
            let (ln, qn) = (self.n(l), self.n(q));
            if ln.op == Op::Const && qn.op == Op::Const {
                let v = or4(shl4(self.consts[ln.a as usize], qn.w as u32), self.consts[qn.a as usize]);
                let m = self.konst4((ln.w + qn.w) as u32, v);
                flat.pop();
                flat.push(m);
                return;
            }
            if ln.op == Op::Extract && qn.op == Op::Extract && ln.a == qn.a && ln.b == qn.b + qn.w as u32 {
                let m = self.extract(ln.a, qn.b, (ln.w + qn.w) as u32);
                flat.pop();
                self.cpush(flat, m);
                return;
            }
            if ln.op == Op::Ite && qn.op == Op::Ite && ln.a == qn.a {
                let cc = |s: &Self, x: E| s.n(x).op == Op::Const;
                if cc(self, ln.b) && cc(self, qn.b) || cc(self, ln.c) && cc(self, qn.c) {
                    let x = self.concat(&[ln.b, qn.b]);
                    let y = self.concat(&[ln.c, qn.c]);
                    let m = self.ite(ln.a, x, y);
                    flat.pop();
                    // m may be a concat only if simplified; keep it opaque
                    if self.n(m).op == Op::Concat {
                        let l = self.lists[self.n(m).a as usize].clone();
                        flat.extend(l.iter());
                    } else {
                        flat.push(m);
                    }
                    return;
                }
            }
        }
        flat.push(q);
    }
    /// a tree of choices between constants
    fn ctree(&self, e: E) -> bool {
        if self.n(e).op != Op::Ite {
            return false;
        }
        let mut todo = vec![e];
        let mut seen = 0;
        while let Some(e) = todo.pop() {
            let n = self.n(e);
            seen += 1;
            match n.op {
                Op::Const => (),
                Op::Ite if seen < 150 => todo.extend([n.b, n.c]),
                _ => return false,
            }
        }
        true
    }
    /// the same tree with `f` applied to its constants
    fn cmap(&mut self, e: E, f: &mut dyn FnMut(&mut Self, E) -> E, memo: &mut FxMap<E, E>) -> E {
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.n(e);
        let r = if n.op == Op::Ite {
            let x = self.cmap(n.b, f, memo);
            let y = self.cmap(n.c, f, memo);
            self.ite(n.a, x, y)
        } else {
            f(self, e)
        };
        memo.insert(e, r);
        r
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if w == ew {
            return e;
        }
        if self.ctree(e) {
            return self.cmap(e, &mut |x, k| x.zext(k, w), &mut Default::default());
        }
        let z = self.konst(w - ew, 0);
        self.concat(&[z, e])
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        let ew = n.w as u32;
        if w == ew {
            return e;
        }
        if let Some(v) = self.cv(e) {
            return self.konst4(w, sext4(v, ew));
        }
        if n.op == Op::Concat {
            let top = self.lists[n.a as usize][0];
            if let Some(v) = self.cv(top) {
                if !bit4(v, self.w(top) - 1) {
                    return self.zext(e, w);
                }
            }
        }
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, e, 0, 0)
    }
    pub fn not(&mut self, e: E) -> E {
        let n = self.n(e);
        match n.op {
            Op::Const => {
                let v = not4(self.consts[n.a as usize]);
                self.konst4(n.w as u32, v)
            }
            Op::Not => n.a,
            Op::Concat => {
                let l = self.lists[n.a as usize].clone();
                let v: Vec<E> = l.iter().map(|&x| self.not(x)).collect();
                self.concat(&v)
            }
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let x = self.not(n.b);
                let y = self.not(n.c);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Op::Not, n.w as u32, e, 0, 0),
        }
    }
    /// common segmentation of two equally wide expressions at concat/const boundaries
    fn segments(&self, a: E, b: E) -> Option<Vec<u32>> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op != Op::Concat && nb.op != Op::Concat {
            return None;
        }
        let mut cuts: Vec<u32> = vec![];
        let w = na.w as u32;
        for x in [na, nb] {
            if x.op == Op::Concat {
                let mut pos = w;
                for &p in self.lists[x.a as usize].iter() {
                    pos -= self.w(p);
                    cuts.push(pos);
                }
            }
        }
        cuts.sort_unstable_by(|x, y| y.cmp(x));
        cuts.dedup();
        Some(cuts) // descending low positions, last = 0
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "bin {:?}", op);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = fold(op, w, x, y) {
                return self.konst4(w, r);
            }
        }
        if w > 1 && !matches!(op, Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
            if cb.is_some() && self.ctree(a) {
                return self.cmap(a, &mut |x, k| x.bin(op, k, b), &mut Default::default());
            }
            if ca.is_some() && self.ctree(b) {
                return self.cmap(b, &mut |x, k| x.bin(op, a, k), &mut Default::default());
            }
        }
        let zero = [0u64; 4];
        let ones = mask4([!0; 4], w);
        // commutative: constant to the right, else ordered
        if matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let cb = self.cv(b);
        let na = self.n(a);
        let nb = self.n(b);
        match op {
            Op::And | Op::Or | Op::Xor => {
                if a == b {
                    return if op == Op::Xor { self.konst(w, 0) } else { a };
                }
                if let Some(c) = cb {
                    if c == zero {
                        return if op == Op::And { b } else { a };
                    }
                    if c == ones {
                        return match op {
                            Op::And => a,
                            Op::Or => b,
                            _ => self.not(a),
                        };
                    }
                    // mixed constant: slice into runs
                    if w > 1 && Self::is_bytewise(op) {
                        let mut parts = vec![];
                        let mut i = w;
                        while i > 0 {
                            let v = bit4(c, i - 1);
                            let mut j = i - 1;
                            while j > 0 && bit4(c, j - 1) == v {
                                j -= 1
                            }
                            let x = self.extract(a, j, i - j);
                            let p = match (op, v) {
                                (Op::And, true) | (Op::Or, false) | (Op::Xor, false) => x,
                                (Op::And, false) => self.konst(i - j, 0),
                                (Op::Or, true) => self.konst4(i - j, [!0; 4]),
                                _ => self.not(x),
                            };
                            parts.push(p);
                            i = j;
                        }
                        return self.concat(&parts);
                    }
                }
                if w == 1 {
                    if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                        return if op == Op::And { self.f } else { self.t };
                    }
                    // absorption
                    if op == Op::And {
                        if na.op == Op::And && (na.a == b || na.b == b) {
                            return a;
                        }
                        if nb.op == Op::And && (nb.a == a || nb.b == a) {
                            return b;
                        }
                        if na.op == Op::Or && (na.a == b || na.b == b) {
                            return b;
                        }
                        if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                            return a;
                        }
                    }
                    if op == Op::Or {
                        if na.op == Op::Or && (na.a == b || na.b == b) {
                            return a;
                        }
                        if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                            return b;
                        }
                        if na.op == Op::And && (na.a == b || na.b == b) {
                            return b;
                        }
                        if nb.op == Op::And && (nb.a == a || nb.b == a) {
                            return a;
                        }
                    }
                }
                if let Some(cuts) = self.segments(a, b) {
                    let mut hi = w;
                    let mut parts = vec![];
                    for lo in cuts {
                        let x = self.extract(a, lo, hi - lo);
                        let y = self.extract(b, lo, hi - lo);
                        parts.push(self.bin(op, x, y));
                        hi = lo;
                    }
                    return self.concat(&parts);
                }
                // both ite with same cond & const arms
                if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
                    let x = self.bin(op, na.b, nb.b);
                    let y = self.bin(op, na.c, nb.c);
                    return self.ite(na.a, x, y);
                }
                if na.op == Op::Ite && cb.is_some() && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                    let x = self.bin(op, na.b, b);
                    let y = self.bin(op, na.c, b);
                    return self.ite(na.a, x, y);
                }
            }
            Op::Add | Op::Sub => {
                if op == Op::Sub && a == b {
                    return self.konst(w, 0);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(c) = cb {
                    if c == zero {
                        return a;
                    }
                    if op == Op::Sub {
                        let m = self.konst4(w, sub4(zero, c));
                        return self.bin(Op::Add, a, m);
                    }
                    if na.op == Op::Add {
                        if let Some(c2) = self.cv(na.b) {
                            let m = self.konst4(w, add4(c, c2));
                            return self.bin(Op::Add, na.a, m);
                        }
                    }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if op == Op::Sub && na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
            }
            Op::Mul => {
                if let Some(c) = cb {
                    if c == zero {
                        return b;
                    }
                    if c == [1, 0, 0, 0] {
                        return a;
                    }
                    // power of two
                    let pc: u32 = c.iter().map(|x| x.count_ones()).sum();
                    if pc == 1 {
                        let k = (0..w).find(|&i| bit4(c, i)).unwrap();
                        return self.shl_const(a, k);
                    }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            Op::UDiv | Op::URem => {
                if let Some(c) = cb {
                    let pc: u32 = c.iter().map(|x| x.count_ones()).sum();
                    if pc == 1 {
                        let k = (0..w).find(|&i| bit4(c, i)).unwrap();
                        if op == Op::UDiv {
                            return self.lshr_const(a, k);
                        }
                        if k == 0 {
                            return self.konst(w, 0);
                        }
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(c) = cb {
                    let s = if c[1] | c[2] | c[3] != 0 || c[0] >= w as u64 { w } else { c[0] as u32 };
                    return match op {
                        Op::Shl => self.shl_const(a, s),
                        Op::LShr => self.lshr_const(a, s),
                        _ => {
                            let s = s.min(w - 1);
                            let x = self.extract(a, s, w - s);
                            self.sext(x, w)
                        }
                    };
                }
                if ca.is_some() && ca.unwrap() == zero {
                    return a;
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0)
    }
    fn shl_const(&mut self, a: E, s: u32) -> E {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.konst(w, 0);
        }
        let x = self.extract(a, 0, w - s);
        let z = self.konst(s, 0);
        self.concat(&[x, z])
    }
    fn lshr_const(&mut self, a: E, s: u32) -> E {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.konst(w, 0);
        }
        let x = self.extract(a, s, w - s);
        self.zext(x, w)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == self.t {
            return a;
        }
        if c == self.f {
            return b;
        }
        if a == b {
            return a;
        }
        let cn = self.n(c);
        if cn.op == Op::Not {
            return self.ite(cn.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if a == self.t {
                return self.bin(Op::Or, c, b);
            }
            if a == self.f {
                let nc = self.not(c);
                return self.bin(Op::And, nc, b);
            }
            if b == self.f {
                return self.bin(Op::And, c, a);
            }
            if b == self.t {
                let nc = self.not(c);
                return self.bin(Op::Or, nc, a);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        let mut a = a;
        let mut b = b;
        if na.op == Op::Ite && na.a == c {
            a = na.b
        }
        if nb.op == Op::Ite && nb.a == c {
            b = nb.c
        }
        if a == b {
            return a;
        }
        self.mk(Op::Ite, w, c, a, b)
    }
    /// Does variable `v` occur in `e` (through hash inputs as well)?
    pub fn occurs(&mut self, v: u32, e: E) -> bool {
        if self.bloom[e as usize] >> (v % 64) & 1 == 0 {
            return false;
        }
        if let Some(&r) = self.occ_memo.get(&(v, e)) {
            return r;
        }
        let s = self.support(e);
        let r = s.binary_search(&v).is_ok();
        self.occ_memo.insert((v, e), r);
        r
    }
    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        if a == b {
            return self.t;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.boolc(x == y);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b)
        }
        if let Some(&r) = self.eq_memo.get(&(a, b)) {
            return r;
        }
        let r = self.eq_(a, b);
        self.eq_memo.insert((a, b), r);
        r
    }
    pub fn raw_eq(&mut self, a: E, b: E) -> E {
        self.mk(Op::Eq, 1, a, b, 0)
    }
    pub fn eq_bytes(&mut self, x: &[E], y: &[E]) -> E {
        if x.len() != y.len() {
            return self.f;
        }
        // cheap refutation first
        for i in 0..x.len() {
            if x[i] != y[i] && self.cv(x[i]).is_some() && self.cv(y[i]).is_some() {
                return self.f;
            }
        }
        let mut r = self.t;
        let mut i = 0;
        // differing stretch only, but keep 32-byte alignment of hash outputs: walk in maximal pieces
        while i < x.len() {
            if x[i] == y[i] {
                i += 1;
                continue;
            }
            let mut j = i + 1;
            while j < x.len() && x[j] != y[j] && j - i < 32 {
                j += 1
            }
            let a = self.concat(&x[i..j]);
            let b = self.concat(&y[i..j]);
            let e = self.eq(a, b);
            r = self.and(r, e);
            if r == self.f {
                return r;
            }
            i = j;
        }
        r
    }
    fn eq_(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b)
        }
        let cb = self.cv(b);
        let (na, nb) = (self.n(a), self.n(b));
        if w == 1 {
            if let Some(c) = cb {
                return if c[0] == 1 { a } else { self.not(a) };
            }
            let x = self.bin(Op::Xor, a, b);
            return self.not(x);
        }
        if cb.is_some() && self.ctree(a) {
            return self.cmap(a, &mut |x, k| x.eq(k, b), &mut Default::default());
        }
        // hash reasoning: ideal (injective, non-constant, acyclic) hash
        if na.op == Op::Hash && nb.op == Op::Hash {
            let (x, y) = (self.hashes[na.a as usize].clone(), self.hashes[nb.a as usize].clone());
            return self.eq_hash_inputs(&x, &y);
        }
        if na.op == Op::Hash && cb.is_some() {
            return self.f;
        }
        // a comparison of a hash with the placeholder, spelled out byte by byte
        if let (Op::Extract, 8, Some(c)) = (na.op, w, cb) {
            if na.b % 8 == 0 && self.n(na.a).op == Op::Hash && c[0] == PLACEHOLDER[31 - na.b as usize / 8] as u64 {
                return self.f;
            }
        }
        if na.op == Op::Hash && nb.op == Op::Var && self.occurs(nb.a, a) {
            return self.f;
        }
        if nb.op == Op::Hash && na.op == Op::Var && self.occurs(na.a, b) {
            return self.f;
        }
        if let Some(c) = cb {
            if na.op == Op::Ite {
                let (p, q) = (self.cv(na.b), self.cv(na.c));
                if p.is_some() || q.is_some() {
                    let x = self.eq(na.b, b);
                    let y = self.eq(na.c, b);
                    return self.ite(na.a, x, y);
                }
            }
            if na.op == Op::Add {
                if let Some(k) = self.cv(na.b) {
                    let m = self.konst4(w, sub4(c, k));
                    return self.eq(na.a, m);
                }
            }
            if na.op == Op::Not {
                let m = self.not(b);
                return self.eq(na.a, m);
            }
            if na.op == Op::SExt {
                let iw = self.w(na.a);
                if sext4(mask4(c, iw), iw) == sext4(c, w) {
                    let m = self.konst4(iw, c);
                    return self.eq(na.a, m);
                }
                return self.f;
            }
        }
        if let Some(cuts) = self.segments(a, b) {
            // keep hash-output/var vs concat comparisons segmentwise
            let mut hi = w;
            let mut r = self.t;
            for lo in cuts {
                let x = self.extract(a, lo, hi - lo);
                let y = self.extract(b, lo, hi - lo);
                let e = self.eq(x, y);
                r = self.and(r, e);
                if r == self.f {
                    return r;
                }
                hi = lo;
            }
            return r;
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.eq(na.b, nb.b);
            let y = self.eq(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, x, y, 0)
    }
    fn eq_hash_inputs(&mut self, x: &[E], y: &[E]) -> E {
        if x.len() != y.len() {
            return self.f;
        }
        for i in 0..x.len() {
            if x[i] != y[i] && self.cv(x[i]).is_some() && self.cv(y[i]).is_some() {
                return self.f;
            }
        }
        // group by hash-output / wide-var boundaries: a stretch whose bytes are consecutive
        // extracts of one base is compared as a unit
        let mut r = self.t;
        let mut i = 0;
        while i < x.len() {
            let l = self.run_len(&x[i..]).max(self.run_len(&y[i..]));
            let j = (i + l).min(x.len());
            if x[i..j] != y[i..j] {
                let a = self.concat(&x[i..j]);
                let b = self.concat(&y[i..j]);
                let e = self.eq(a, b);
                r = self.and(r, e);
                if r == self.f {
                    return r;
                }
            }
            i = j;
        }
        r
    }
    fn run_len(&self, x: &[E]) -> usize {
        // bytes stored in memory order; most significant byte of a 256-bit term first
        let n = self.n(x[0]);
        if n.op == Op::Extract && n.w == 8 && n.b == 248 && x.len() >= 32 {
            for i in 1..32 {
                let m = self.n(x[i]);
                if !(m.op == Op::Extract && m.a == n.a && m.b == 248 - 8 * i as u32) {
                    return 1;
                }
            }
            return 32;
        }
        1
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f;
        }
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.boolc(ult4(x, y));
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        let z = [0u64; 4];
        let ones = mask4([!0; 4], w);
        if let Some(y) = cb {
            if y == z {
                return self.f;
            }
            if y == [1, 0, 0, 0] {
                let k = self.konst(w, 0);
                return self.eq(a, k);
            }
            if y == ones {
                let e = self.eq(a, b);
                return self.not(e);
            }
        }
        if let Some(x) = ca {
            if x == ones {
                return self.f;
            }
            if x == z {
                let e = self.eq(a, b);
                return self.not(e);
            }
        }
        // compare leading segment when decidable
        if let Some(cuts) = self.segments(a, b) {
            let mut hi = w;
            for lo in cuts {
                let x = self.extract(a, lo, hi - lo);
                let y = self.extract(b, lo, hi - lo);
                if x == y {
                    hi = lo;
                    continue;
                }
                if let (Some(p), Some(q)) = (self.cv(x), self.cv(y)) {
                    return self.boolc(ult4(p, q));
                }
                break;
            }
            if hi < w {
                if hi == 0 {
                    return self.f;
                }
                let x = self.extract(a, 0, hi);
                let y = self.extract(b, 0, hi);
                return self.ult(x, y);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        let _ = (na, nb);
        if cb.is_some() && self.ctree(a) {
            return self.cmap(a, &mut |x, k| x.ult(k, b), &mut Default::default());
        }
        if ca.is_some() && self.ctree(b) {
            return self.cmap(b, &mut |x, k| x.ult(a, k), &mut Default::default());
        }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (p, q) = (sext4(x, w), sext4(y, w));
            let flip = |v: W4| [v[0], v[1], v[2], v[3] ^ (1 << 63)];
            return self.boolc(ult4(flip(p), flip(q)));
        }
        let sa = self.extract(a, w - 1, 1);
        let sb = self.extract(b, w - 1, 1);
        if self.cv(sa).is_some() && self.cv(sb).is_some() {
            if sa == sb {
                return self.ult(a, b);
            }
            return sa; // a negative, b nonneg => true
        }
        if self.cv(b) == Some([0; 4]) {
            return sa;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && self.cv(b).is_some() && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
            let x = self.slt(na.b, b);
            let y = self.slt(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite && self.cv(a).is_some() && self.cv(nb.b).is_some() && self.cv(nb.c).is_some() {
            let x = self.slt(a, nb.b);
            let y = self.slt(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    /// exact support: sorted var ids; hash terms appear as HASHBIT|index
    pub fn support(&mut self, e: E) -> Rc<[u32]> {
        if let Some(s) = self.sup.get(&e) {
            return s.clone();
        }
        let n = self.n(e);
        let mut v: Vec<u32> = vec![];
        match n.op {
            Op::Const => {}
            Op::Var => v.push(n.a),
            Op::Hash => {
                let l = self.hashes[n.a as usize].clone();
                v.push(HASHBIT | n.a);
                let mut last = 0;
                for &x in l.iter() {
                    let base = if self.n(x).op == Op::Extract { self.n(x).a } else { x };
                    if base == last {
                        continue;
                    }
                    last = base;
                    v.extend(self.support(base).iter());
                }
            }
            Op::Concat => {
                let l = self.lists[n.a as usize].clone();
                for &x in l.iter() {
                    v.extend(self.support(x).iter());
                }
            }
            Op::Extract | Op::Not | Op::SExt => return self.support(n.a),
            Op::Ite => {
                v.extend(self.support(n.a).iter());
                v.extend(self.support(n.b).iter());
                v.extend(self.support(n.c).iter());
            }
            _ => {
                v.extend(self.support(n.a).iter());
                v.extend(self.support(n.b).iter());
            }
        }
        v.sort_unstable();
        v.dedup();
        let rc: Rc<[u32]> = v.into();
        self.sup.insert(e, rc.clone());
        rc
    }
    /// rebuild `e` under a substitution of atoms
    pub fn subst(&mut self, e: E, map: &FxMap<E, E>, bl: u128, memo: &mut FxMap<E, E>) -> E {
        if self.bloom[e as usize] & bl == 0 {
            return e;
        }
        if let Some(&r) = map.get(&e) {
            // targets are kept canonical lazily
            if let Some(&m) = memo.get(&e) {
                return m;
            }
            let r2 = self.subst(r, map, bl, memo);
            memo.insert(e, r2);
            return r2;
        }
        if let Some(&m) = memo.get(&e) {
            return m;
        }
        let n = self.n(e);
        let r = match n.op {
            Op::Const | Op::Var => e,
            Op::Hash => {
                let l = self.hashes[n.a as usize].clone();
                let v: Vec<E> = l.iter().map(|&x| self.subst(x, map, bl, memo)).collect();
                self.hash(&v)
            }
            Op::Concat => {
                let l = self.lists[n.a as usize].clone();
                let v: Vec<E> = l.iter().map(|&x| self.subst(x, map, bl, memo)).collect();
                self.concat(&v)
            }
            Op::Extract => {
                let x = self.subst(n.a, map, bl, memo);
                let r = self.extract(x, n.b, n.w as u32);
                if r != e && map.contains_key(&r) {
                    self.subst(r, map, bl, memo)
                } else {
                    r
                }
            }
            Op::Not => {
                let x = self.subst(n.a, map, bl, memo);
                self.not(x)
            }
            Op::SExt => {
                let x = self.subst(n.a, map, bl, memo);
                self.sext(x, n.w as u32)
            }
            Op::Eq => {
                let x = self.subst(n.a, map, bl, memo);
                let y = self.subst(n.b, map, bl, memo);
                self.eq(x, y)
            }
            Op::Ult => {
                let x = self.subst(n.a, map, bl, memo);
                let y = self.subst(n.b, map, bl, memo);
                self.ult(x, y)
            }
            Op::Slt => {
                let x = self.subst(n.a, map, bl, memo);
                let y = self.subst(n.b, map, bl, memo);
                self.slt(x, y)
            }
            Op::Ite => {
                let c = self.subst(n.a, map, bl, memo);
                let x = self.subst(n.b, map, bl, memo);
                let y = self.subst(n.c, map, bl, memo);
                self.ite(c, x, y)
            }
            _ => {
                let x = self.subst(n.a, map, bl, memo);
                let y = self.subst(n.b, map, bl, memo);
                self.bin(n.op, x, y)
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn var_exists(&self, w: u32, id: u32) -> bool {
        self.cons.contains_key(&Node { op: Op::Var, w: w as u16, a: id, b: 0, c: 0 })
    }
    /// as `subst`, with a second map of facts about composite terms
    pub fn subst2(&mut self, e: E, sub: &FxMap<E, E>, atoms: &FxMap<E, E>, bl: u128, memo: &mut FxMap<E, E>) -> E {
        if self.bloom[e as usize] & bl == 0 {
            return e;
        }
        if let Some(&m) = memo.get(&e) {
            return m;
        }
        if let Some(&r) = sub.get(&e).or_else(|| atoms.get(&e)) {
            let r2 = self.subst2(r, sub, atoms, bl, memo);
            memo.insert(e, r2);
            return r2;
        }
        let n = self.n(e);
        macro_rules! go {
            ($x:expr) => {
                self.subst2($x, sub, atoms, bl, memo)
            };
        }
        let r = match n.op {
            Op::Const | Op::Var => e,
            Op::Hash => {
                let l = self.hashes[n.a as usize].clone();
                let v: Vec<E> = l.iter().map(|&x| go!(x)).collect();
                self.hash(&v)
            }
            Op::Concat => {
                let l = self.lists[n.a as usize].clone();
                let v: Vec<E> = l.iter().map(|&x| go!(x)).collect();
                self.concat(&v)
            }
            Op::Extract => {
                let x = go!(n.a);
                self.extract(x, n.b, n.w as u32)
            }
            Op::Not => {
                let x = go!(n.a);
                self.not(x)
            }
            Op::SExt => {
                let x = go!(n.a);
                self.sext(x, n.w as u32)
            }
            Op::Eq => {
                let x = go!(n.a);
                let y = go!(n.b);
                self.eq(x, y)
            }
            Op::Ult => {
                let x = go!(n.a);
                let y = go!(n.b);
                self.ult(x, y)
            }
            Op::Slt => {
                let x = go!(n.a);
                let y = go!(n.b);
                self.slt(x, y)
            }
            Op::Ite => {
                let c = go!(n.a);
                let x = go!(n.b);
                let y = go!(n.c);
                self.ite(c, x, y)
            }
            _ => {
                let x = go!(n.a);
                let y = go!(n.b);
                self.bin(n.op, x, y)
            }
        };
        // the rebuilt term may itself be a known fact
        let r = if r != e {
            match atoms.get(&r) {
                Some(&q) => q,
                None => r,
            }
        } else {
            r
        };
        memo.insert(e, r);
        r
    }
    pub fn eval(&self, e: E, m: &Model, memo: &mut FxMap<E, W4>) -> W4 {
        let n = self.n(e);
        if n.op == Op::Const {
            return self.consts[n.a as usize];
        }
        if n.op == Op::Var {
            return mask4(m.vars.get(&n.a).copied().unwrap_or([0; 4]), n.w as u32);
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Hash => {
                if let Some(v) = m.hashes.get(&n.a) {
                    *v
                } else {
                    // an unconstrained hash term: its real SHA-256 value
                    let l = &self.hashes[n.a as usize];
                    let data: Vec<u8> = l.iter().map(|&x| self.eval(x, m, memo)[0] as u8).collect();
                    sha256(&data)
                }
            }
            Op::Concat => {
                let l = &self.lists[n.a as usize];
                let mut r = [0u64; 4];
                for &x in l.iter() {
                    r = or4(shl4(r, self.w(x)), self.eval(x, m, memo));
                }
                r
            }
            Op::Extract => mask4(shr4(self.eval(n.a, m, memo), n.b), w),
            Op::Not => mask4(not4(self.eval(n.a, m, memo)), w),
            Op::SExt => {
                let iw = self.w(n.a);
                mask4(sext4(self.eval(n.a, m, memo), iw), w)
            }
            Op::Eq => [(self.eval(n.a, m, memo) == self.eval(n.b, m, memo)) as u64, 0, 0, 0],
            Op::Ult => [ult4(self.eval(n.a, m, memo), self.eval(n.b, m, memo)) as u64, 0, 0, 0],
            Op::Slt => {
                let iw = self.w(n.a);
                let p = sext4(self.eval(n.a, m, memo), iw);
                let q = sext4(self.eval(n.b, m, memo), iw);
                let flip = |v: W4| [v[0], v[1], v[2], v[3] ^ (1 << 63)];
                [ult4(flip(p), flip(q)) as u64, 0, 0, 0]
            }
            Op::Ite => {
                if self.eval(n.a, m, memo)[0] == 1 {
                    self.eval(n.b, m, memo)
                } else {
                    self.eval(n.c, m, memo)
                }
            }
            op => {
                let x = self.eval(n.a, m, memo);
                let y = self.eval(n.b, m, memo);
                match fold(op, w, x, y) {
                    Some(v) => v,
                    None => match op {
                        // SMT-LIB division by zero
                        Op::UDiv => mask4([!0; 4], w),
                        Op::URem | Op::SRem => x,
                        _ => {
                            if bit4(x, w - 1) {
                                [1, 0, 0, 0]
                            } else {
                                mask4([!0; 4], w)
                            }
                        }
                    },
                }
            }
        };
        memo.insert(e, r);
        r
    }
}

pub fn sha256(data: &[u8]) -> W4 {
    const K: [u32; 64] = [
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0xfc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x6ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2];
    let mut h: [u32; 8] = [0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19];
    let mut d = data.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in d.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(c[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let a = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let b = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(a).wrapping_add(w[i - 7]).wrapping_add(b);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let q = |i: usize| (h[i] as u64) << 32 | h[i + 1] as u64;
    [q(6), q(4), q(2), q(0)]
}
#[test]
fn sha() {
    assert_eq!(sha256(b"abc")[3], 0xba7816bf8f01cfea);
    assert_eq!(sha256(b"abc")[0], 0xb410ff61f20015ad);
}
