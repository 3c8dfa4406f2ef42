//! The symbolic interpreter: states, forking, decisions, natives.
use crate::expr::*;
use crate::ir::{self, BinOp, Callee, Func, Intr, Module, Pred, CONST, FN_BASE, I, K};
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct V {
    pub v: u64,
    pub e: E,
}
#[inline]
fn c(v: u64) -> V {
    V { v, e: 0 }
}

pub struct CFunc {
    pub f: Rc<Func>,
    pub consts: Vec<V>,
}

#[derive(Clone)]
pub enum Slot {
    Unres,
    Nat(N),
    Ir(Rc<CFunc>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum N {
    Malloc,
    Calloc,
    Realloc,
    Memalign,
    Free,
    RustAlloc,
    RustAllocZ,
    RustRealloc,
    RustDealloc,
    Nop0,
    Bcmp,
    Memcmp,
    Strlen,
    Memchr,
    Null,
    HashOne,
    Panic,
    FmtWrite,
    RandKeys,
    Syscall,
    Errno,
    Memcpy,
    Memset,
    // harness interface
    SymBits,
    SymUint,
    SymChoice,
    SymB32,
    SymFill,
    SymAssume,
    SymAssert,
    SymReach,
    SymObserve,
    SymHash,
    SymConc,
    SymIsSym,
    SymExpectPanic,
    SymNote,
    SymEq,
    SymStop,
    Missing,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<CFunc>,
    pub pc: u32,
    pub regs: Rc<Vec<V>>,
    pub sp: u64,
    pub d: u32,
    pub next: u32,
}

#[derive(Clone)]
pub enum Inp {
    Val(u32, V), // width, value
    Bytes(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>, // all but the top
    pub f: Rc<CFunc>,
    pub pc: u32,
    pub regs: Vec<V>,
    pub sp0: u64,
    pub d: u32,
    pub next: u32,
    pub mem: Mem,
    pub sp: u64,
    pub brk: u64,
    pub sub: Rc<FxMap<E, E>>,
    pub sub_mask: u128,
    pub atoms: Rc<FxMap<E, E>>,
    pub atom_mask: u128,
    pub cons: Rc<Vec<E>>,
    pub decisions: Vec<u64>,
    pub forced: VecDeque<u64>,
    pub inputs: Vec<Inp>,
    pub obs: Vec<(u64, V, u32)>,
    pub reach: u64,
    pub nvars: u32,
    pub model: Option<Rc<Model>>,
    pub expect_panic: bool,
    pub instrs: u64,
    pub epoch: u64,
    pub depth: u32,
}

pub enum End {
    Done,
    Infeasible,
    Violation(String),
    Error(String),
    Panic(String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub assumed_away: u64,
    pub infeasible: u64,
    pub instrs: u64,
    pub branches: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub asserts_rewrite: u64,
    pub asserts_concrete: u64,
    pub hashes: u64,
}

enum Stop {
    Infeasible,
    Violation(String),
    Error(String),
    Panic(String),
    Fork, // the instruction must be retried (state unchanged, alternatives pushed)
    Finished,
}
type R<T> = Result<T, Stop>;

pub struct Ctx<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub z: Z3,
    pub slots: Vec<Slot>,
    pub funcs: Vec<Option<Rc<Func>>>,
    pub memo: FxMap<E, E>,
    pub memo_epoch: u64,
    pub next_epoch: u64,
    pub stats: Stats,
    pub new: Vec<State>, // states forked by the current instruction
    pub limit: u64,
    pub base: Option<Mem>,
    pub violations: Vec<(String, State)>, // soft violations: path continues
    pub called: Vec<bool>,
    pub calls: Vec<u64>,
    pub fork_sites: FxMap<(u32, u32), u64>,
    pub trace: bool,
    pub stack_lo: u64,
    pub heap_lo: u64,
    pub track_forks: bool,
}

const STACK: u64 = 4 << 20;
const HEAP: u64 = 512 << 20;

impl<'m> Ctx<'m> {
    pub fn new(m: &'m Module) -> Ctx<'m> {
        let stack_lo = m.glob_end + 0x10000;
        let heap_lo = stack_lo + STACK + 0x10000;
        let mut x = Ctx {
            m,
            ar: Arena::new(),
            z: Z3::new(20_000),
            slots: vec![Slot::Unres; m.fns.len()],
            funcs: vec![None; m.fns.len()],
            memo: Default::default(),
            memo_epoch: 0,
            next_epoch: 1,
            stats: Stats::default(),
            new: vec![],
            limit: 1_000_000_000,
            base: None,
            violations: vec![],
            called: vec![false; m.fns.len()],
            calls: vec![],
            fork_sites: Default::default(),
            trace: false,
            stack_lo,
            heap_lo,
            track_forks: false,
        };
        let mut mem = Mem::new(ir::GLOB_BASE, heap_lo + HEAP);
        m.init_globals(|a, b| mem.write(a, b));
        x.base = Some(mem);
        x
    }
    /// drop all expressions (only between states)
    pub fn reset(&mut self) {
        self.ar = Arena::new();
        self.z.clear();
        self.slots = vec![Slot::Unres; self.m.fns.len()];
        self.memo.clear();
        self.memo_epoch = 0;
    }
    pub fn start(&mut self, entry: &str) -> Result<State, String> {
        let id = *self.m.fn_ix.get(entry).ok_or_else(|| format!("entry {entry} not found"))?;
        let s = self.resolve(id)?;
        let f = match s {
            Slot::Ir(f) => f,
            _ => return Err("entry is native".into()),
        };
        let ep = self.epoch();
        Ok(State {
            frames: vec![],
            regs: vec![c(0); f.f.nregs as usize],
            f,
            pc: 0,
            sp0: self.stack_lo,
            d: 0,
            next: 0,
            mem: self.base.clone().unwrap(),
            sp: self.stack_lo,
            brk: self.heap_lo,
            sub: Default::default(),
            sub_mask: 0,
            atoms: Default::default(),
            atom_mask: 0,
            cons: Default::default(),
            decisions: vec![],
            forced: VecDeque::new(),
            inputs: vec![],
            obs: vec![],
            reach: 0,
            nvars: 0,
            model: Some(Rc::new(Model::default())),
            expect_panic: false,
            instrs: 0,
            epoch: ep,
            depth: 0,
        })
    }
    fn epoch(&mut self) -> u64 {
        self.next_epoch += 1;
        self.next_epoch
    }
    fn native(&self, name: &str, def: bool) -> Option<N> {
        let has = |s: &str| name.contains(s);
        let n = match name {
            "malloc" => N::Malloc,
            "calloc" => N::Calloc,
            "realloc" => N::Realloc,
            "posix_memalign" => N::Memalign,
            "free" => N::Free,
            "bcmp" => N::Bcmp,
            "memcmp" => N::Memcmp,
            "memcpy" | "memmove" => N::Memcpy,
            "memset" => N::Memset,
            "strlen" => N::Strlen,
            "memchr" => N::Memchr,
            "getenv" => N::Null,
            "syscall" => N::Syscall,
            "__errno_location" => N::Errno,
            "abort" => N::Panic,
            "__cxa_thread_atexit_impl" => N::Null,
            "sym_bits" => N::SymBits,
            "sym_uint" => N::SymUint,
            "sym_choice" => N::SymChoice,
            "sym_b32" => N::SymB32,
            "sym_fill" => N::SymFill,
            "sym_assume" => N::SymAssume,
            "sym_assert" => N::SymAssert,
            "sym_reach" => N::SymReach,
            "sym_observe" => N::SymObserve,
            "sym_hash" => N::SymHash,
            "sym_concretize" => N::SymConc,
            "sym_is_symbolic" => N::SymIsSym,
            "sym_expect_panic" => N::SymExpectPanic,
            "sym_note" => N::SymNote,
            "sym_eq" => N::SymEq,
            "sym_stop" => N::SymStop,
            _ => {
                if has("___rustc12___rust_alloc") {
                    N::RustAlloc
                } else if has("___rustc19___rust_alloc_zeroed") {
                    N::RustAllocZ
                } else if has("___rustc14___rust_realloc") {
                    N::RustRealloc
                } else if has("___rustc14___rust_dealloc") {
                    N::RustDealloc
                } else if has("___rust_no_alloc_shim_is_unstable") {
                    N::Nop0
                } else if has("8hash_one") && has("11RandomState") {
                    N::HashOne
                } else if has("hashmap_random_keys") {
                    N::RandKeys
                } else if has("4core9panicking") || has("3std9panicking") && !has("11panic_count") && !has("panicking9panicking") && !has("6is_zero") && !has("8panicking20") || has("17rust_begin_unwind") || has("begin_panic") {
                    N::Panic
                } else if name.starts_with("_RNv") && has("4core3fmt5write") && name.ends_with("4core3fmt5write") {
                    N::FmtWrite
                } else if !def {
                    N::Missing
                } else {
                    return None;
                }
            }
        };
        Some(n)
    }
    pub fn resolve(&mut self, id: u32) -> Result<Slot, String> {
        if let Slot::Unres = self.slots[id as usize] {
            let d = &self.m.fns[id as usize];
            let def = d.start != usize::MAX;
            let name = d.name.clone();
            self.slots[id as usize] = if let Some(n) = self.native(&name, def) {
                Slot::Nat(n)
            } else {
                if self.funcs[id as usize].is_none() {
                    self.funcs[id as usize] = Some(Rc::new(self.m.compile(id)?));
                }
                let f = self.funcs[id as usize].clone().unwrap();
                let consts = f
                    .consts
                    .iter()
                    .map(|k| match k {
                        K::Small(v) => c(*v),
                        K::Wide(w, v) => V { v: 0, e: self.ar.konst4(*w, *v) },
                    })
                    .collect();
                self.called[id as usize] = true;
                Slot::Ir(Rc::new(CFunc { f, consts }))
            };
        }
        Ok(self.slots[id as usize].clone())
    }
    #[inline]
    fn ex(&mut self, v: V, w: u32) -> E {
        if v.e != 0 {
            v.e
        } else {
            self.ar.konst(w, v.v)
        }
    }
    #[inline]
    fn vx(&self, e: E) -> V {
        let n = self.ar.n(e);
        if n.op == crate::expr::Op::Const && n.w <= 64 {
            c(self.ar.consts[n.a as usize][0])
        } else {
            V { v: 0, e }
        }
    }
    // ---- canonicalisation ----
    fn canon(&mut self, s: &State, e: E) -> E {
        let mask = s.sub_mask | s.atom_mask;
        if self.ar.bloom[e as usize] & mask == 0 {
            return e;
        }
        if self.memo_epoch != s.epoch {
            self.memo.clear();
            self.memo_epoch = s.epoch;
        }
        let mut memo = std::mem::take(&mut self.memo);
        let r = if s.atoms.is_empty() {
            self.ar.subst(e, &s.sub, mask, &mut memo)
        } else {
            self.ar.subst2(e, &s.sub, &s.atoms, mask, &mut memo)
        };
        self.memo = memo;
        r
    }
    fn canonv(&mut self, s: &State, v: V) -> V {
        if v.e == 0 {
            return v;
        }
        let e = self.canon(s, v.e);
        self.vx(e)
    }
    /// the low bit of a value, as far as the path condition simplifies it
    fn canonbit(&mut self, s: &State, v: V) -> V {
        if v.e == 0 {
            return v;
        }
        let e = self.ar.extract(v.e, 0, 1);
        let e = self.canon(s, e);
        self.vx(e)
    }
    /// add a constraint known (or chosen) to hold
    fn assume(&mut self, s: &mut State, e: E) -> bool {
        let e = self.canon(s, e);
        if e == self.ar.t {
            return true;
        }
        if e == self.ar.f {
            return false;
        }
        let n = self.ar.n(e);
        use crate::expr::Op;
        match n.op {
            Op::And => {
                return self.assume(s, n.a) && self.assume(s, n.b);
            }
            Op::Not => {
                let m = self.ar.n(n.a);
                if m.op == Op::Or {
                    let x = self.ar.not(m.a);
                    let y = self.ar.not(m.b);
                    return self.assume(s, x) && self.assume(s, y);
                }
                if m.op == Op::Var {
                    let f = self.ar.f;
                    return self.bind(s, n.a, f);
                }
                if m.op == Op::Xor {
                    // not(xor(a,b)) : a == b over 1 bit
                    return self.bit_eq(s, m.a, m.b, false, e);
                }
            }
            Op::Xor => return self.bit_eq(s, n.a, n.b, true, e),
            Op::Var => {
                let t = self.ar.t;
                return self.bind(s, e, t);
            }
            Op::Eq => {
                let (na, nb) = (self.ar.n(n.a), self.ar.n(n.b));
                if na.op == Op::Var && nb.op == Op::Var {
                    let (hi, lo) = if na.a > nb.a { (n.a, n.b) } else { (n.b, n.a) };
                    return self.bind(s, hi, lo);
                }
                if na.op == Op::Var && !self.ar.occurs(na.a, n.b) {
                    return self.bind(s, n.a, n.b);
                }
                if nb.op == Op::Var && !self.ar.occurs(nb.a, n.a) {
                    return self.bind(s, n.b, n.a);
                }
            }
            _ => {}
        }
        // general constraint
        let mut cons = (*s.cons).clone();
        cons.push(e);
        s.cons = Rc::new(cons);
        let t = self.ar.t;
        let f = self.ar.f;
        self.atom(s, e, t);
        if n.op == Op::Not {
            self.atom(s, n.a, f);
        } else {
            let ne = self.ar.not(e);
            self.atom(s, ne, f);
        }
        if n.op == Op::Eq {
            let (x, k) = if self.ar.cv(n.b).is_some() { (n.a, n.b) } else { (n.b, n.a) };
            if let Some(v) = self.ar.cv(k) {
                self.atom(s, x, k);
                // a known byte: its nibbles and bits are known as well
                let m = self.ar.n(x);
                if m.op == Op::Extract && m.w <= 8 && m.b % 8 + m.w as u32 <= 8 {
                    for (step, w) in [(1, 1), (4, 4)] {
                        let mut i = (m.b + step - 1) / step * step;
                        while i + w <= m.b + m.w as u32 {
                            if w < m.w as u32 {
                                let part = self.ar.extract(m.a, i, w);
                                let c = self.ar.konst(w, v[0] >> (i - m.b) & mask1(w));
                                self.atom(s, part, c);
                            }
                            i += step;
                        }
                    }
                }
            }
        }
        s.epoch = self.epoch();
        true
    }
    fn bit_eq(&mut self, s: &mut State, a: E, b: E, neg: bool, orig: E) -> bool {
        use crate::expr::Op;
        let (na, nb) = (self.ar.n(a), self.ar.n(b));
        // prefer replacing the younger variable
        let pick = match (na.op, nb.op) {
            (Op::Var, Op::Var) => {
                if na.a > nb.a {
                    Some((a, b))
                } else {
                    Some((b, a))
                }
            }
            (Op::Var, _) if !self.ar.occurs(na.a, b) => Some((a, b)),
            (_, Op::Var) if !self.ar.occurs(nb.a, a) => Some((b, a)),
            _ => None,
        };
        if let Some((v, x)) = pick {
            let x = if neg { self.ar.not(x) } else { x };
            return self.bind(s, v, x);
        }
        let mut cons = (*s.cons).clone();
        cons.push(orig);
        s.cons = Rc::new(cons);
        let t = self.ar.t;
        self.atom(s, orig, t);
        let n = self.ar.not(orig);
        let f = self.ar.f;
        self.atom(s, n, f);
        s.epoch = self.epoch();
        true
    }
    fn atom(&mut self, s: &mut State, k: E, v: E) {
        if self.ar.cv(k).is_some() {
            return;
        }
        s.atom_mask |= self.ar.key_mask(k);
        Rc::make_mut(&mut s.atoms).insert(k, v);
    }
    fn bind(&mut self, s: &mut State, var: E, to: E) -> bool {
        Rc::make_mut(&mut s.sub).insert(var, to);
        s.sub_mask |= self.ar.key_mask(var);
        s.epoch = self.epoch();
        let km = self.ar.key_mask(var);
        // re-canonicalise facts and constraints that mention var
        if s.atoms.iter().any(|(k, v)| (self.ar.bloom[*k as usize] | self.ar.bloom[*v as usize]) & km != 0) {
            let old: Vec<(E, E)> = s.atoms.iter().map(|(k, v)| (*k, *v)).collect();
            let mut na: FxMap<E, E> = Default::default();
            let mut memo: FxMap<E, E> = Default::default();
            let mut mask = 0;
            for (k, v) in old {
                let k2 = self.ar.subst(k, &s.sub, s.sub_mask, &mut memo);
                let v2 = self.ar.subst(v, &s.sub, s.sub_mask, &mut memo);
                if self.ar.cv(k2).is_none() {
                    mask |= self.ar.key_mask(k2);
                    na.insert(k2, v2);
                }
            }
            s.atoms = Rc::new(na);
            s.atom_mask = mask;
        }
        if s.cons.iter().any(|k| self.ar.bloom[*k as usize] & km != 0) {
            let old = s.cons.clone();
            let mut memo: FxMap<E, E> = Default::default();
            let mut keep = vec![];
            let mut again = vec![];
            for &k in old.iter() {
                let k2 = self.ar.subst(k, &s.sub, s.sub_mask, &mut memo);
                if k2 == self.ar.t {
                    continue;
                }
                if k2 == self.ar.f {
                    return false;
                }
                if k2 == k {
                    keep.push(k)
                } else {
                    again.push(k2)
                }
            }
            s.cons = Rc::new(keep);
            // facts for the rewritten ones may allow further binding
            for k in again {
                Rc::make_mut(&mut s.atoms).remove(&k);
                let nk = self.ar.not(k);
                Rc::make_mut(&mut s.atoms).remove(&nk);
                s.epoch = self.epoch();
                let before = s.cons.len();
                let k3 = self.ar.subst(k, &s.sub, s.sub_mask, &mut Default::default());
                if k3 == self.ar.f {
                    return false;
                }
                if !self.assume(s, k3) {
                    return false;
                }
                // an atom may have rewritten it to true although it is the only carrier: keep it
                if k3 != self.ar.t && s.cons.len() == before && !self.holds_structurally(s, k3) {
                    Rc::make_mut(&mut s.cons).push(k3);
                }
            }
        }
        true
    }
    fn holds_structurally(&mut self, s: &State, e: E) -> bool {
        let r = self.ar.subst(e, &s.sub, s.sub_mask, &mut Default::default());
        r == self.ar.t
    }
    // ---- solver ----
    fn slice(&mut self, s: &State, conds: &[E]) -> (Vec<E>, bool) {
        let mut sup: Vec<u32> = vec![];
        for &c in conds {
            sup.extend(self.ar.support(c).iter());
        }
        let mut set: std::collections::HashSet<u32> = sup.iter().copied().collect();
        let cons = s.cons.clone();
        let sups: Vec<Rc<[u32]>> = cons.iter().map(|&k| self.ar.support(k)).collect();
        let mut inn = vec![false; cons.len()];
        loop {
            let mut ch = false;
            for i in 0..cons.len() {
                if !inn[i] && sups[i].iter().any(|v| set.contains(v)) {
                    inn[i] = true;
                    ch = true;
                    set.extend(sups[i].iter());
                }
            }
            if !ch {
                break;
            }
        }
        let hashy = set.iter().any(|v| v & HASHBIT != 0);
        let mut out: Vec<E> = (0..cons.len()).filter(|&i| inn[i]).map(|i| cons[i]).collect();
        out.extend_from_slice(conds);
        (out, hashy)
    }
    fn overlay(m: &Option<Rc<Model>>, n: &Model) -> Option<Rc<Model>> {
        let m = m.as_ref()?;
        let mut r = Model { vars: m.vars.clone(), hashes: m.hashes.clone() };
        for (k, v) in &n.vars {
            r.vars.insert(*k, *v);
        }
        for (k, v) in &n.hashes {
            r.hashes.insert(*k, *v);
        }
        Some(Rc::new(r))
    }
    fn feas(&mut self, s: &State, cond: E) -> R<Option<Rc<Model>>> {
        if cond == self.ar.f {
            return Ok(None);
        }
        let (q, _) = self.slice(s, &[cond]);
        match self.z.check(&mut self.ar, &q) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Error("solver: unknown (timeout)".into())),
        }
    }
    /// full consistency check, returns a model of the whole path condition
    pub fn full_model(&mut self, s: &State, extra: Option<E>) -> Result<Option<Rc<Model>>, String> {
        let mut q: Vec<E> = s.cons.to_vec();
        if let Some(e) = extra {
            q.push(e);
        }
        // hash terms bound to variables also have to be interpreted: they evaluate to pseudo-random
        // values, which is consistent with an ideal hash
        match self.z.check(&mut self.ar, &q) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err("solver: unknown".into()),
        }
    }
    /// a path whose decisions were all checked is feasible; one without a model is re-checked
    pub fn full_feasible(&mut self, s: &State) -> bool {
        s.model.is_some() || !matches!(self.full_model(s, None), Ok(None))
    }
    fn ensure_model(&mut self, s: &mut State) -> R<()> {
        if s.model.is_none() {
            match self.full_model(s, None) {
                Ok(Some(m)) => s.model = Some(m),
                Ok(None) => return Err(Stop::Infeasible),
                Err(e) => return Err(Stop::Error(e)),
            }
        }
        Ok(())
    }
    fn fork_with(&mut self, s: &State, val: u64, model: Option<Rc<Model>>) {
        let mut t = s.clone();
        t.forced.push_back(val);
        t.model = model;
        self.new.push(t);
        self.stats.forks += 1;
        if self.track_forks {
            *self.fork_sites.entry((s.f.f.id, s.pc)).or_insert(0) += 1;
        }
    }
    /// decide a symbolic condition; may fork
    fn decide(&mut self, s: &mut State, cond: E) -> R<bool> {
        let e = self.canon(s, cond);
        if e == self.ar.t {
            return Ok(true);
        }
        if e == self.ar.f {
            return Ok(false);
        }
        self.stats.branches += 1;
        let ne = self.ar.not(e);
        if let Some(v) = s.forced.pop_front() {
            s.decisions.push(v);
            let ok = self.assume(s, if v == 1 { e } else { ne });
            if !ok {
                return Err(Stop::Infeasible);
            }
            return Ok(v == 1);
        }
        self.ensure_model(s)?;
        let (_, hashy) = self.slice(s, &[e]);
        let m0 = s.model.clone().unwrap();
        let (bt, bf);
        let val = self.ar.eval(e, &m0, &mut Default::default())[0] == 1;
        let mut mt = None;
        let mut mf = None;
        if hashy {
            let a = self.feas(s, e)?;
            let b = self.feas(s, ne)?;
            bt = a.is_some();
            bf = b.is_some();
            mt = a;
            mf = b;
        } else if val {
            bt = true;
            let b = self.feas(s, ne)?;
            bf = b.is_some();
            mf = b;
        } else {
            bf = true;
            let a = self.feas(s, e)?;
            bt = a.is_some();
            mt = a;
        }
        if !bt && !bf {
            return Err(Stop::Infeasible);
        }
        let take = if bt && bf { val } else { bt };
        let model_t = match &mt {
            Some(x) => Self::overlay(&s.model, x),
            None => s.model.clone(),
        };
        let model_f = match &mf {
            Some(x) => Self::overlay(&s.model, x),
            None => s.model.clone(),
        };
        if bt && bf {
            self.fork_with(s, (!take) as u64, if take { model_f.clone() } else { model_t.clone() });
        }
        s.decisions.push(take as u64);
        s.model = if take { model_t } else { model_f };
        if !self.assume(s, if take { e } else { ne }) {
            return Err(Stop::Infeasible);
        }
        Ok(take)
    }
    /// pick a concrete value for an expression, forking over all feasible ones
    fn concretize(&mut self, s: &mut State, v: V, _w: u32) -> R<u64> {
        if v.e == 0 {
            return Ok(v.v);
        }
        let e = self.canon(s, v.e);
        if let Some(k) = self.ar.cv(e) {
            return Ok(k[0]);
        }
        // concretise narrow supporting variables first: gives exact substitutions
        let sup = self.ar.support(e);
        if sup.len() <= 12 && sup.iter().all(|x| x & HASHBIT == 0) {
            let n = self.ar.n(e);
            if n.op != crate::expr::Op::Concat && n.op != crate::expr::Op::Var && n.op != crate::expr::Op::Extract {
                let bits: Vec<u32> = sup.iter().copied().collect();
                // only if all are 1-bit variables
                let all1 = bits.iter().all(|&b| self.ar.var_exists(1, b));
                if all1 {
                    for b in bits {
                        let x = self.ar.var(1, b);
                        self.decide(s, x)?;
                    }
                    let e2 = self.canon(s, e);
                    if let Some(k) = self.ar.cv(e2) {
                        return Ok(k[0]);
                    }
                }
            }
        }
        let e = self.canon(s, e);
        let w = self.ar.w(e);
        if w > 64 {
            return Err(Stop::Error("concretize wide".into()));
        }
        self.stats.branches += 1;
        if let Some(v) = s.forced.pop_front() {
            s.decisions.push(v);
            let k = self.ar.konst(w, v);
            let q = self.ar.eq(e, k);
            if !self.assume(s, q) {
                return Err(Stop::Infeasible);
            }
            return Ok(v);
        }
        self.ensure_model(s)?;
        let mut vals: Vec<(u64, Option<Rc<Model>>)> = vec![];
        // fast path: independent distinct 1..4-bit variables
        let fast = self.free_vars(s, e);
        if let Some(vars) = fast {
            let tot: u32 = vars.iter().map(|&x| self.ar.w(x)).sum();
            for k in 0..(1u64 << tot) {
                let mut m = Model::default();
                let mut r = k;
                for &x in &vars {
                    let ww = self.ar.w(x);
                    m.vars.insert(self.ar.n(x).a, [r & mask1(ww), 0, 0, 0]);
                    r >>= ww;
                }
                let val = self.ar.eval(e, &m, &mut Default::default())[0];
                let mo = Self::overlay(&s.model, &m);
                vals.push((val, mo));
            }
        } else {
            let (_, hashy) = self.slice(s, &[e]);
            let mut conds = vec![];
            if !hashy {
                let m0 = s.model.clone().unwrap();
                let v0 = self.ar.eval(e, &m0, &mut Default::default())[0];
                vals.push((v0, s.model.clone()));
                let k = self.ar.konst(w, v0);
                let q = self.ar.eq(e, k);
                conds.push(self.ar.not(q));
            }
            loop {
                let mut q = conds.clone();
                if q.is_empty() {
                    q.push(e_true_of(&mut self.ar, e));
                }
                let (qq, _) = self.slice_e(s, e, &q);
                match self.z.check(&mut self.ar, &qq) {
                    Res::Sat(m) => {
                        let v = self.ar.eval(e, &m, &mut Default::default())[0];
                        if vals.iter().any(|x| x.0 == v) {
                            return Err(Stop::Error("concretize: solver model repeats".into()));
                        }
                        let mo = Self::overlay(&s.model, &m);
                        vals.push((v, mo));
                        let k = self.ar.konst(w, v);
                        let q = self.ar.eq(e, k);
                        conds.push(self.ar.not(q));
                        if vals.len() > 1024 {
                            return Err(Stop::Error(format!("concretize: more than 1024 values in {}", s.f.f.name)));
                        }
                    }
                    Res::Unsat => break,
                    Res::Unknown => return Err(Stop::Error("solver: unknown".into())),
                }
            }
        }
        if vals.is_empty() {
            return Err(Stop::Infeasible);
        }
        for (v, m) in vals.iter().skip(1) {
            self.fork_with(s, *v, m.clone());
        }
        let (v0, m) = vals[0].clone();
        s.decisions.push(v0);
        s.model = m;
        let k = self.ar.konst(w, v0);
        let q = self.ar.eq(e, k);
        if !self.assume(s, q) {
            return Err(Stop::Infeasible);
        }
        Ok(v0)
    }
    fn slice_e(&mut self, s: &State, e: E, conds: &[E]) -> (Vec<E>, bool) {
        // slice on the support of e even when conds are trivial
        let z = self.ar.konst(self.ar.w(e), 0);
        let taut = self.ar.raw_eq(e, z);
        let (mut q, h) = self.slice(s, &[taut]);
        q.pop();
        q.extend_from_slice(conds);
        (q, h)
    }
    fn free_vars(&mut self, s: &State, e: E) -> Option<Vec<E>> {
        use crate::expr::Op;
        let parts = self.ar.parts(e);
        let mut vars = vec![];
        let mut tot = 0;
        for p in parts {
            let n = self.ar.n(p);
            match n.op {
                Op::Const => {}
                Op::Var => {
                    if vars.contains(&p) {
                        return None;
                    }
                    tot += n.w;
                    vars.push(p)
                }
                _ => return None,
            }
        }
        if tot > 8 {
            return None;
        }
        for &v in &vars {
            let id = self.ar.n(v).a;
            for k in s.cons.iter() {
                if self.ar.bloom[*k as usize] >> (id % 64) & 1 == 1 && self.ar.support(*k).binary_search(&id).is_ok() {
                    return None;
                }
            }
        }
        Some(vars)
    }

    // ---- memory ----
    fn bad(&self, s: &State, a: u64, n: u64, what: &str) -> Stop {
        Stop::Error(format!("bad address {a:#x}+{n} ({what}) in {}", s.f.f.name))
    }
    fn addr(&mut self, s: &mut State, p: V) -> R<u64> {
        if p.e == 0 {
            return Ok(p.v);
        }
        self.concretize(s, p, 64)
    }
    fn load(&mut self, s: &mut State, a: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        if !s.mem.ok(a, n as u64) {
            return Err(self.bad(s, a, n as u64, "load"));
        }
        if n <= 8 {
            match s.mem.load(a, n) {
                Ld::C(v) => return Ok(c(v & mask1(w))),
                Ld::S => {}
            }
        }
        let mut parts = Vec::with_capacity(n);
        for i in (0..n).rev() {
            let (b, e) = s.mem.byte(a + i as u64);
            parts.push(if e != 0 { e } else { self.ar.konst(8, b as u64) });
        }
        let mut e = self.ar.concat(&parts);
        if self.ar.w(e) > w {
            e = self.ar.extract(e, 0, w);
        }
        let e = self.canon(s, e);
        Ok(self.vx(e))
    }
    fn store(&mut self, s: &mut State, a: u64, v: V, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        if !s.mem.ok(a, n as u64) {
            return Err(self.bad(s, a, n as u64, "store"));
        }
        if v.e == 0 {
            s.mem.store(a, n, v.v);
            return Ok(());
        }
        let mut e = v.e;
        if (n as u32) * 8 != w {
            e = self.ar.zext(e, n as u32 * 8);
        }
        for i in 0..n {
            let b = self.ar.extract(e, 8 * i as u32, 8);
            match self.ar.cv(b) {
                Some(k) => s.mem.store(a + i as u64, 1, k[0]),
                None => s.mem.store_sym(a + i as u64, b),
            }
        }
        Ok(())
    }
    fn alloc(&mut self, s: &mut State, size: u64, align: u64) -> R<u64> {
        let al = align.max(16);
        let a = (s.brk + al - 1) / al * al;
        if size > HEAP || a + size + 16 > self.heap_lo + HEAP {
            return Err(Stop::Error(format!("heap bound exceeded (allocation of {size} bytes)")));
        }
        s.brk = a + size + 8;
        Ok(a)
    }
    fn bytes(&mut self, s: &mut State, a: u64, n: u64) -> R<Vec<E>> {
        if n > 0 && !s.mem.ok(a, n) {
            return Err(self.bad(s, a, n, "bytes"));
        }
        let mut v = Vec::with_capacity(n as usize);
        let ar = &mut self.ar;
        s.mem.each(a, n, |b, e| v.push(if e != 0 { e } else { ar.konst(8, b as u64) }));
        if !s.sub.is_empty() || !s.atoms.is_empty() {
            for x in v.iter_mut() {
                *x = self.canon(s, *x);
            }
        }
        Ok(v)
    }
    fn any_sym(&self, s: &State, a: u64, n: u64) -> bool {
        (0..n).any(|i| s.mem.byte(a + i).1 != 0)
    }

    // ---- arithmetic ----
    fn bin(&mut self, op: BinOp, w: u32, a: V, b: V) -> R<V> {
        if a.e == 0 && b.e == 0 {
            let (x, y) = (a.v, b.v);
            let m = mask1(w);
            let sx = |v: u64| -> i64 { ((v << (64 - w)) as i64) >> (64 - w) };
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => (sx(x) >> y.min(w as u64 - 1).min(63)) as u64,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 {
                        return Err(Stop::Error("division by zero".into()));
                    }
                    match op {
                        BinOp::UDiv => x / y,
                        BinOp::URem => x % y,
                        BinOp::SDiv => sx(x).wrapping_div(sx(y)) as u64,
                        _ => sx(x).wrapping_rem(sx(y)) as u64,
                    }
                }
            };
            return Ok(c(r & m));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        use crate::expr::Op as O;
        let o = match op {
            BinOp::Add => O::Add,
            BinOp::Sub => O::Sub,
            BinOp::Mul => O::Mul,
            BinOp::UDiv => O::UDiv,
            BinOp::SDiv => O::SDiv,
            BinOp::URem => O::URem,
            BinOp::SRem => O::SRem,
            BinOp::Shl => O::Shl,
            BinOp::LShr => O::LShr,
            BinOp::AShr => O::AShr,
            BinOp::And => O::And,
            BinOp::Or => O::Or,
            BinOp::Xor => O::Xor,
        };
        let e = self.ar.bin(o, x, y);
        Ok(self.vx(e))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        if a.e == 0 && b.e == 0 {
            let (x, y) = (a.v, b.v);
            let sx = |v: u64| -> i64 { ((v << (64 - w)) as i64) >> (64 - w) };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx(x) > sx(y),
                Pred::Sge => sx(x) >= sx(y),
                Pred::Slt => sx(x) < sx(y),
                Pred::Sle => sx(x) <= sx(y),
            };
            return c(r as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let q = self.ar.eq(x, y);
                self.ar.not(q)
            }
            Pred::Ult => self.ar.ult(x, y),
            Pred::Ugt => self.ar.ult(y, x),
            Pred::Ule => {
                let q = self.ar.ult(y, x);
                self.ar.not(q)
            }
            Pred::Uge => {
                let q = self.ar.ult(x, y);
                self.ar.not(q)
            }
            Pred::Slt => self.ar.slt(x, y),
            Pred::Sgt => self.ar.slt(y, x),
            Pred::Sle => {
                let q = self.ar.slt(y, x);
                self.ar.not(q)
            }
            Pred::Sge => {
                let q = self.ar.slt(x, y);
                self.ar.not(q)
            }
        };
        self.vx(e)
    }

    // ---- main loop ----
    /// run until the state ends or forks off alternatives (left in self.new)
    pub fn run(&mut self, s: &mut State) -> Option<End> {
        loop {
            let r = self.step_many(s);
            match r {
                Ok(()) => {
                    if !self.new.is_empty() {
                        return None;
                    }
                }
                Err(Stop::Finished) => return Some(End::Done),
                Err(Stop::Infeasible) => return Some(End::Infeasible),
                Err(Stop::Violation(m)) => return Some(End::Violation(m)),
                Err(Stop::Panic(m)) => return Some(End::Panic(m)),
                Err(Stop::Error(m)) => return Some(End::Error(format!("{m} [in {}]", self.backtrace(s)))),
                Err(Stop::Fork) => return None,
            }
        }
    }
    pub fn backtrace(&self, s: &State) -> String {
        let mut v = vec![s.f.f.name.to_string()];
        for f in s.frames.iter().rev().take(8) {
            v.push(f.f.f.name.to_string());
        }
        v.join(" < ")
    }
    #[inline]
    fn op(s: &State, o: ir::Op) -> V {
        if o & CONST != 0 {
            s.f.consts[(o & !CONST) as usize]
        } else {
            s.regs[o as usize]
        }
    }
    fn jump(&mut self, s: &mut State, e: u32) {
        let f = s.f.clone();
        let ed = &f.f.edges[e as usize];
        match ed.copies.len() {
            0 => {}
            1 => {
                let (d, o) = ed.copies[0];
                s.regs[d as usize] = Self::op(s, o);
            }
            _ => {
                let mut tmp: [V; 16] = [c(0); 16];
                if ed.copies.len() <= 16 {
                    for (i, (_, o)) in ed.copies.iter().enumerate() {
                        tmp[i] = Self::op(s, *o);
                    }
                    for (i, (d, _)) in ed.copies.iter().enumerate() {
                        s.regs[*d as usize] = tmp[i];
                    }
                } else {
                    let t: Vec<V> = ed.copies.iter().map(|(_, o)| Self::op(s, *o)).collect();
                    for (i, (d, _)) in ed.copies.iter().enumerate() {
                        s.regs[*d as usize] = t[i];
                    }
                }
            }
        }
        s.pc = ed.target;
    }
    fn step_many(&mut self, s: &mut State) -> R<()> {
        for _ in 0..100_000 {
            let f = s.f.clone();
            // run within one function until control leaves it
            loop {
                s.instrs += 1;
                self.stats.instrs += 1;
                let ins = &f.f.code[s.pc as usize];
                match ins {
                    I::Bin { op, w, a, b, d } => {
                        let (x, y) = (Self::op(s, *a), Self::op(s, *b));
                        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) && y.e != 0 {
                            // division by a symbolic zero is guarded by the compiler; keep going
                        }
                        s.regs[*d as usize] = self.bin(*op, *w, x, y)?;
                        s.pc += 1;
                    }
                    I::Icmp { p, w, a, b, d } => {
                        let (x, y) = (Self::op(s, *a), Self::op(s, *b));
                        s.regs[*d as usize] = self.icmp(*p, *w, x, y);
                        s.pc += 1;
                    }
                    I::Load1 { p, d, w } => {
                        let a = Self::op(s, *p);
                        let a = if a.e == 0 { a.v } else { self.addr(s, a)? };
                        s.regs[*d as usize] = self.load(s, a, *w)?;
                        s.pc += 1;
                    }
                    I::Store1 { p, v, w } => {
                        let a = Self::op(s, *p);
                        let a = if a.e == 0 { a.v } else { self.addr(s, a)? };
                        let x = Self::op(s, *v);
                        self.store(s, a, x, *w)?;
                        s.pc += 1;
                    }
                    I::Load { p, d, leaves } => {
                        let a = Self::op(s, *p);
                        let a = self.addr(s, a)?;
                        for (k, (o, w)) in leaves.iter().enumerate() {
                            s.regs[*d as usize + k] = self.load(s, a + o, *w)?;
                        }
                        s.pc += 1;
                    }
                    I::Store { p, v, leaves } => {
                        let a = Self::op(s, *p);
                        let a = self.addr(s, a)?;
                        for (k, (o, w)) in leaves.iter().enumerate() {
                            let x = Self::op(s, v[k]);
                            self.store(s, a + o, x, *w)?;
                        }
                        s.pc += 1;
                    }
                    I::Gep { d, base, off, terms } => {
                        let mut b = Self::op(s, *base);
                        let mut acc = *off;
                        for (t, sc, w) in terms.iter() {
                            let v = Self::op(s, *t);
                            let k = if v.e == 0 { v.v } else { self.concretize(s, v, *w)? };
                            let k = if *w < 64 { (((k << (64 - w)) as i64) >> (64 - w)) as u64 } else { k };
                            acc = acc.wrapping_add(k.wrapping_mul(*sc));
                        }
                        if b.e != 0 {
                            b = c(self.concretize(s, b, 64)?);
                        }
                        s.regs[*d as usize] = c(b.v.wrapping_add(acc));
                        s.pc += 1;
                    }
                    I::Copy1 { d, a } => {
                        s.regs[*d as usize] = Self::op(s, *a);
                        s.pc += 1;
                    }
                    I::Copy { d, a } => {
                        let t: Vec<V> = a.iter().map(|o| Self::op(s, *o)).collect();
                        for (k, x) in t.into_iter().enumerate() {
                            s.regs[*d as usize + k] = x;
                        }
                        s.pc += 1;
                    }
                    I::Zext { d, a, f: fw, t } => {
                        let v = Self::op(s, *a);
                        s.regs[*d as usize] = if v.e == 0 && *t <= 64 {
                            v
                        } else {
                            let e = self.ex(v, *fw);
                            let e = self.ar.zext(e, *t);
                            self.vx(e)
                        };
                        s.pc += 1;
                    }
                    I::Sext { d, a, f: fw, t } => {
                        let v = Self::op(s, *a);
                        s.regs[*d as usize] = if v.e == 0 && *t <= 64 {
                            c((((v.v << (64 - fw)) as i64 >> (64 - fw)) as u64) & mask1(*t))
                        } else {
                            let e = self.ex(v, *fw);
                            let e = self.ar.sext(e, *t);
                            self.vx(e)
                        };
                        s.pc += 1;
                    }
                    I::Trunc { d, a, f: _, t } => {
                        let v = Self::op(s, *a);
                        s.regs[*d as usize] = if v.e == 0 {
                            c(v.v & mask1(*t))
                        } else {
                            let e = self.ar.extract(v.e, 0, *t);
                            self.vx(e)
                        };
                        s.pc += 1;
                    }
                    I::Sel { c: cc, a, b, d, ws, ptr } => {
                        let mut cv = Self::op(s, *cc);
                        let (x, y) = (Self::op(s, *a), Self::op(s, *b));
                        if cv.e != 0 {
                            let e = self.canon(s, cv.e);
                            cv = self.vx(e);
                        }
                        s.regs[*d as usize] = if cv.e == 0 {
                            if cv.v & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        } else if *ptr {
                            if self.decide(s, cv.e)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            let w = ws[0];
                            let p = self.ex(x, w);
                            let q = self.ex(y, w);
                            let e = self.ar.ite(cv.e, p, q);
                            self.vx(e)
                        };
                        s.pc += 1;
                    }
                    I::Br { e } => {
                        self.jump(s, *e);
                        if s.instrs > self.limit {
                            return Err(Stop::Violation(format!("no end after {} instructions", self.limit)));
                        }
                    }
                    I::CBr { c: cc, t, f: ff } => {
                        let v = Self::op(s, *cc);
                        let b = if v.e == 0 { v.v & 1 == 1 } else { self.decide(s, v.e)? };
                        self.jump(s, if b { *t } else { *ff });
                        if !self.new.is_empty() {
                            return Ok(());
                        }
                    }
                    I::Switch { v, w, cases, def } => {
                        let x = Self::op(s, *v);
                        let k = if x.e == 0 { x.v } else { self.switch_val(s, x, *w, cases)? };
                        let e = cases.iter().find(|q| q.0 == k).map(|q| q.1).unwrap_or(*def);
                        self.jump(s, e);
                        if !self.new.is_empty() {
                            return Ok(());
                        }
                    }
                    I::Alloca { d, size, align, n } => {
                        let k = Self::op(s, *n);
                        let k = self.concretize(s, k, 64)?;
                        let a = (s.sp + align - 1) / align * align;
                        s.sp = a + size * k;
                        if s.sp > self.stack_lo + STACK {
                            return Err(Stop::Error("stack bound exceeded".into()));
                        }
                        s.regs[*d as usize] = c(a);
                        s.pc += 1;
                    }
                    I::Cast { d, a, fw, tw } => {
                        let vals: Vec<V> = a.iter().map(|o| Self::op(s, *o)).collect();
                        if vals.len() == 1 && tw.len() == 1 {
                            s.regs[*d as usize] = vals[0];
                        } else {
                            let mut parts = vec![];
                            for (k, v) in vals.iter().enumerate().rev() {
                                parts.push(self.ex(*v, fw[k]));
                            }
                            let e = self.ar.concat(&parts);
                            let mut lo = 0;
                            for (k, w) in tw.iter().enumerate() {
                                let x = self.ar.extract(e, lo, *w);
                                lo += w;
                                s.regs[*d as usize + k] = self.vx(x);
                            }
                        }
                        s.pc += 1;
                    }
                    I::ExtractEl { d, v, i } => {
                        let k = Self::op(s, *i);
                        let k = self.concretize(s, k, 64)?;
                        s.regs[*d as usize] = Self::op(s, v[k as usize]);
                        s.pc += 1;
                    }
                    I::Rmw { op, p, v, d, w } => {
                        let a = Self::op(s, *p);
                        let a = self.addr(s, a)?;
                        let old = self.load(s, a, *w)?;
                        let x = Self::op(s, *v);
                        let nv = match op {
                            0 => x,
                            1 => self.bin(BinOp::Add, *w, old, x)?,
                            2 => self.bin(BinOp::Sub, *w, old, x)?,
                            3 => self.bin(BinOp::And, *w, old, x)?,
                            4 => self.bin(BinOp::Or, *w, old, x)?,
                            5 => self.bin(BinOp::Xor, *w, old, x)?,
                            6 | 7 if old.e == 0 && x.e == 0 => {
                                if *op == 6 {
                                    c(old.v.max(x.v))
                                } else {
                                    c(old.v.min(x.v))
                                }
                            }
                            _ => return Err(Stop::Error("atomicrmw".into())),
                        };
                        self.store(s, a, nv, *w)?;
                        s.regs[*d as usize] = old;
                        s.pc += 1;
                    }
                    I::CmpXchg { p, c: cc, n, d, w } => {
                        let a = Self::op(s, *p);
                        let a = self.addr(s, a)?;
                        let old = self.load(s, a, *w)?;
                        let exp = Self::op(s, *cc);
                        let nv = Self::op(s, *n);
                        let q = self.icmp(Pred::Eq, *w, old, exp);
                        let b = if q.e == 0 { q.v == 1 } else { self.decide(s, q.e)? };
                        if b {
                            self.store(s, a, nv, *w)?;
                        }
                        s.regs[*d as usize] = old;
                        s.regs[*d as usize + 1] = c(b as u64);
                        s.pc += 1;
                    }
                    I::Ret { v } => {
                        if s.frames.is_empty() {
                            return Err(Stop::Finished);
                        }
                        let vals: Vec<V> = v.iter().map(|o| Self::op(s, *o)).collect();
                        s.sp = s.sp0;
                        let (d, next) = (s.d, s.next);
                        let fr = s.frames.pop().unwrap();
                        s.f = fr.f;
                        s.pc = fr.pc;
                        s.regs = Rc::try_unwrap(fr.regs).unwrap_or_else(|r| (*r).clone());
                        s.sp0 = fr.sp;
                        s.d = fr.d;
                        s.next = fr.next;
                        for (k, x) in vals.into_iter().enumerate() {
                            s.regs[d as usize + k] = x;
                        }
                        if next != 0 {
                            self.jump(s, next - 1);
                        } else {
                            s.pc += 1;
                        }
                        break;
                    }
                    I::Unreachable => return Err(Stop::Panic(format!("reached `unreachable` in {}", self.backtrace(s)))),
                    I::Bad(m) => return Err(Stop::Error(format!("unsupported: {m}"))),
                    I::Call(ci) => {
                        let ci = ci.clone();
                        let entered = self.call(s, &ci)?;
                        if !self.new.is_empty() {
                            return Ok(());
                        }
                        if entered {
                            break;
                        }
                    }
                }
                if !self.new.is_empty() {
                    return Ok(());
                }
            }
            if s.instrs > self.limit {
                return Err(Stop::Violation(format!("no end after {} instructions", self.limit)));
            }
        }
        Ok(())
    }
    fn switch_val(&mut self, s: &mut State, x: V, w: u32, cases: &[(u64, u32)]) -> R<u64> {
        let e = self.canon(s, x.e);
        if let Some(k) = self.ar.cv(e) {
            return Ok(k[0]);
        }
        if w <= 8 && self.free_vars(s, e).is_some() {
            return self.concretize(s, V { v: 0, e }, w);
        }
        for (k, _) in cases {
            let kk = self.ar.konst(w, *k);
            let q = self.ar.eq(e, kk);
            if self.decide(s, q)? {
                return Ok(*k);
            }
        }
        // default: any value not listed
        let mut d = 0u64;
        while cases.iter().any(|q| q.0 == d) {
            d += 1
        }
        Ok(d)
    }
    fn ret(&mut self, s: &mut State, ci: &ir::CallI, vals: &[V]) {
        for (k, x) in vals.iter().enumerate() {
            if k < ci.rw.len() {
                s.regs[ci.d as usize + k] = *x;
            }
        }
        if ci.next != 0 {
            self.jump(s, ci.next - 1);
        } else {
            s.pc += 1;
        }
    }
    /// returns true when a new frame was entered
    fn call(&mut self, s: &mut State, ci: &ir::CallI) -> R<bool> {
        let id = match &ci.callee {
            Callee::Fn(id) => *id,
            Callee::Intr(i) => {
                self.intrinsic(s, ci, *i)?;
                return Ok(false);
            }
            Callee::AsmNop => {
                let v: Vec<V> = ci.args.iter().map(|o| Self::op(s, *o)).collect();
                self.ret(s, ci, &v);
                return Ok(false);
            }
            Callee::AsmBad => return Err(Stop::Error("inline asm".into())),
            Callee::Ind(o) => {
                let v = Self::op(s, *o);
                let a = self.concretize(s, v, 64)?;
                if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 {
                    return Err(Stop::Error(format!("indirect call to {a:#x}")));
                }
                ((a - FN_BASE) / 16) as u32
            }
        };
        let slot = match &self.slots[id as usize] {
            Slot::Unres => self.resolve(id).map_err(Stop::Error)?,
            x => x.clone(),
        };
        match slot {
            Slot::Ir(f) => {
                if s.frames.len() > 400 {
                    return Err(Stop::Error("call depth bound exceeded".into()));
                }
                let mut regs = vec![c(0); f.f.nregs as usize];
                if f.f.nargs_slots as usize != ci.args.len() {
                    return Err(Stop::Error(format!("argument count mismatch calling {}", f.f.name)));
                }
                let mut k = 0;
                for (slot, n) in &f.f.args {
                    for q in 0..*n {
                        let v = Self::op(s, ci.args[k]);
                        regs[(slot + q) as usize] = v;
                        k += 1;
                    }
                }
                let old = std::mem::replace(&mut s.regs, regs);
                if s.frames.len() > 20_000 {
                    return Err(Stop::Violation("unbounded recursion".into()));
                }
                s.frames.push(Frame { f: s.f.clone(), pc: s.pc, regs: Rc::new(old), sp: s.sp0, d: s.d, next: s.next });
                s.f = f;
                s.pc = 0;
                s.sp0 = s.sp;
                s.d = ci.d;
                s.next = ci.next;
                Ok(true)
            }
            Slot::Nat(n) => {
                self.nat(s, ci, n, id)?;
                Ok(false)
            }
            Slot::Unres => unreachable!(),
        }
    }
    fn cread(&self, s: &State, a: u64, n: usize) -> u64 {
        if !s.mem.ok(a, n as u64) {
            return 0;
        }
        match s.mem.load(a, n) {
            Ld::C(v) => v,
            _ => 0,
        }
    }
    fn cstr(&self, s: &State, p: u64, n: u64) -> String {
        (0..n.min(300)).map(|i| s.mem.byte(p + i).0 as char).collect()
    }
    fn panic_info(&mut self, s: &State, ci: &ir::CallI, id: u32) -> String {
        // the last pointer argument is &Location { ptr, len, line, col } when it decodes as one
        let mut loc = String::new();
        for o in ci.args.iter().rev() {
            let v = Self::op(s, *o);
            if v.e == 0 && s.mem.ok(v.v, 24) {
                let (p, n) = (self.cread(s, v.v, 8), self.cread(s, v.v + 8, 8));
                if n > 3 && n < 400 && s.mem.ok(p, n) {
                    let f = self.cstr(s, p, n);
                    let f = f.trim_end_matches('\0').to_string();
                    if f.contains(".rs") {
                        loc = format!("{}:{}:{}", f, self.cread(s, v.v + 16, 4), self.cread(s, v.v + 20, 4));
                        break;
                    }
                }
            }
        }
        let mut msg = String::new();
        if ci.args.len() >= 2 && loc.len() > 0 {
            let (a, b) = (Self::op(s, ci.args[0]), Self::op(s, ci.args[1]));
            if a.e == 0 && b.e == 0 && b.v < 2000 && s.mem.ok(a.v, b.v.max(1)) {
                msg = self.cstr(s, a.v, b.v);
            } else if a.e == 0 && b.e == 0 && s.mem.ok(a.v, 200) {
                // fmt::Arguments: literal pieces
                msg = self.cstr(s, a.v, 120).chars().filter(|c| c.is_ascii_graphic() || *c == ' ').collect();
            }
        }
        format!("panic at {loc} via {} {:?} [{}]", self.m.fns[id as usize].name, msg, self.backtrace(s))
    }
    fn nat(&mut self, s: &mut State, ci: &ir::CallI, n: N, id: u32) -> R<()> {
        let args: Vec<V> = ci.args.iter().map(|o| Self::op(s, *o)).collect();
        macro_rules! conc {
            ($i:expr) => {{
                let v = args[$i];
                if v.e == 0 {
                    v.v
                } else {
                    self.concretize(s, v, ci.argw[$i])?
                }
            }};
        }
        match n {
            N::Malloc => {
                let k = conc!(0);
                let a = self.alloc(s, k, 16)?;
                self.ret(s, ci, &[c(a)]);
            }
            N::Calloc => {
                let k = conc!(0) * conc!(1);
                let a = self.alloc(s, k, 16)?;
                self.ret(s, ci, &[c(a)]);
            }
            N::Memalign => {
                let p = conc!(0);
                let al = conc!(1);
                let k = conc!(2);
                let a = self.alloc(s, k, al)?;
                self.store(s, p, c(a), 64)?;
                self.ret(s, ci, &[c(0)]);
            }
            N::Realloc => {
                let p = conc!(0);
                let k = conc!(1);
                let a = self.alloc(s, k, 16)?;
                if p != 0 {
                    // old size unknown: copy up to the new size (reads beyond are harmless)
                    let n = k.min((self.heap_lo + HEAP).saturating_sub(p));
                    s.mem.copy(a, p, n);
                }
                self.ret(s, ci, &[c(a)]);
            }
            N::RustAlloc | N::RustAllocZ => {
                let k = conc!(0);
                let al = conc!(1);
                let a = self.alloc(s, k, al)?;
                self.ret(s, ci, &[c(a)]);
            }
            N::RustRealloc => {
                let p = conc!(0);
                let old = conc!(1);
                let al = conc!(2);
                let k = conc!(3);
                let a = self.alloc(s, k, al)?;
                s.mem.copy(a, p, old.min(k));
                self.ret(s, ci, &[c(a)]);
            }
            N::Free | N::RustDealloc | N::Nop0 => self.ret(s, ci, &[c(0)]),
            N::Bcmp | N::Memcmp => {
                let k = conc!(2);
                let a = conc!(0);
                let b = conc!(1);
                if k > 0 && (!s.mem.ok(a, k) || !s.mem.ok(b, k)) {
                    return Err(self.bad(s, a, k, "memcmp"));
                }
                if !self.any_sym(s, a, k) && !self.any_sym(s, b, k) {
                    let mut r = 0i32;
                    for i in 0..k {
                        let (x, y) = (s.mem.byte(a + i).0, s.mem.byte(b + i).0);
                        if x != y {
                            r = if x < y { -1 } else { 1 };
                            break;
                        }
                    }
                    self.ret(s, ci, &[c(r as u32 as u64)]);
                    return Ok(());
                }
                let x = self.bytes(s, a, k)?;
                let y = self.bytes(s, b, k)?;
                let eq = self.ar.eq_bytes(&x, &y);
                if n == N::Bcmp {
                    let z = self.ar.konst(32, 0);
                    let o = self.ar.konst(32, 1);
                    let e = self.ar.ite(eq, z, o);
                    let v = self.vx(e);
                    self.ret(s, ci, &[v]);
                    return Ok(());
                }
                // three-way: fork on equality, then on the first differing 32-byte piece
                if self.decide(s, eq)? {
                    self.ret(s, ci, &[c(0)]);
                    return Ok(());
                }
                let mut r = None;
                let mut i = 0usize;
                while i < x.len() {
                    let j = (i + 32).min(x.len());
                    let p = self.ar.concat(&x[i..j]);
                    let q = self.ar.concat(&y[i..j]);
                    let e = self.ar.eq(p, q);
                    if j < x.len() && self.decide(s, e)? {
                        i = j;
                        continue;
                    }
                    let l = self.ar.ult(p, q);
                    r = Some(self.decide(s, l)?);
                    break;
                }
                let v = if r == Some(true) { -1i32 } else { 1 };
                self.ret(s, ci, &[c(v as u32 as u64)]);
            }
            N::Memcpy => {
                let k = conc!(2);
                let a = conc!(0);
                let b = conc!(1);
                if k > 0 && (!s.mem.ok(a, k) || !s.mem.ok(b, k)) {
                    return Err(self.bad(s, a, k, "memcpy"));
                }
                s.mem.copy(a, b, k);
                self.ret(s, ci, &[c(a)]);
            }
            N::Memset => {
                let k = conc!(2);
                let a = conc!(0);
                let b = conc!(1);
                s.mem.fill(a, b as u8, k);
                self.ret(s, ci, &[c(a)]);
            }
            N::Strlen => {
                let a = conc!(0);
                let mut k = 0;
                while s.mem.byte(a + k).0 != 0 {
                    k += 1
                }
                self.ret(s, ci, &[c(k)]);
            }
            N::Memchr => {
                let a = conc!(0);
                let ch = conc!(1) as u8;
                let k = conc!(2);
                let mut r = 0;
                for i in 0..k {
                    if s.mem.byte(a + i).0 == ch {
                        r = a + i;
                        break;
                    }
                }
                self.ret(s, ci, &[c(r)]);
            }
            N::Null => self.ret(s, ci, &[c(0)]),
            N::HashOne => self.ret(s, ci, &[c(0)]),
            N::RandKeys => self.ret(s, ci, &[c(1), c(2)]),
            N::FmtWrite => self.ret(s, ci, &[c(0)]),
            N::Syscall => {
                let nr = conc!(0);
                if nr == 318 {
                    let p = conc!(1);
                    let k = conc!(2);
                    s.mem.fill(p, 0x5a, k);
                    self.ret(s, ci, &[c(k)]);
                } else {
                    return Err(Stop::Error(format!("syscall {nr}")));
                }
            }
            N::Errno => {
                let a = self.alloc(s, 8, 8)?;
                self.ret(s, ci, &[c(a)]);
            }
            N::Panic => {
                let m = self.panic_info(s, ci, id);
                return Err(Stop::Panic(m));
            }
            N::Missing => {
                return Err(Stop::Error(format!("call of external function {}", self.m.fns[id as usize].name)));
            }
            // ---- harness interface ----
            N::SymBits => {
                let k = conc!(0) as u32;
                let mut parts = vec![];
                for _ in 0..k {
                    parts.push(self.ar.var(1, s.nvars));
                    s.nvars += 1;
                }
                let e = self.ar.concat(&parts);
                let e = self.ar.zext(e, 64);
                let v = self.vx(e);
                s.inputs.push(Inp::Val(64, v));
                self.ret(s, ci, &[v]);
            }
            N::SymUint => {
                let k = conc!(0) as u32;
                let e = self.ar.var(k, s.nvars);
                s.nvars += 1;
                let e = self.ar.zext(e, 64);
                let v = self.vx(e);
                s.inputs.push(Inp::Val(64, v));
                self.ret(s, ci, &[v]);
            }
            N::SymChoice => {
                let k = conc!(0);
                self.stats.branches += 1;
                let v = if k <= 1 {
                    0
                } else if let Some(v) = s.forced.pop_front() {
                    s.decisions.push(v);
                    v
                } else {
                    for v in 1..k {
                        self.fork_with(s, v, s.model.clone());
                    }
                    s.decisions.push(0);
                    0
                };
                s.inputs.push(Inp::Val(64, c(v)));
                self.ret(s, ci, &[c(v)]);
            }
            N::SymB32 => {
                let p = conc!(0);
                let e = self.ar.var(256, s.nvars);
                s.nvars += 1;
                let mut bs = vec![];
                for i in 0..32u32 {
                    let b = self.ar.extract(e, 248 - 8 * i, 8);
                    s.mem.store_sym(p + i as u64, b);
                    bs.push(V { v: 0, e: b });
                }
                s.inputs.push(Inp::Bytes(Rc::new(bs)));
                self.ret(s, ci, &[]);
            }
            N::SymFill => {
                let p = conc!(0);
                let k = conc!(1);
                let mut bs = vec![];
                for i in 0..k {
                    let b = self.ar.var(8, s.nvars);
                    s.nvars += 1;
                    s.mem.store_sym(p + i, b);
                    bs.push(V { v: 0, e: b });
                }
                s.inputs.push(Inp::Bytes(Rc::new(bs)));
                self.ret(s, ci, &[]);
            }
            N::SymAssume => {
                let v = self.canonbit(s, args[0]);
                if v.e == 0 {
                    if v.v & 1 == 0 {
                        self.stats.assumed_away += 1;
                        return Err(Stop::Infeasible);
                    }
                } else {
                    // keep only the feasible true side
                    if !s.forced.is_empty() {
                        // replaying a prefix: the assumption was feasible then
                        s.model = None;
                        if !self.assume(s, v.e) {
                            return Err(Stop::Infeasible);
                        }
                    } else {
                        self.ensure_model(s)?;
                        let m0 = s.model.clone().unwrap();
                        let (_, hashy) = self.slice(s, &[v.e]);
                        if hashy || self.ar.eval(v.e, &m0, &mut Default::default())[0] != 1 {
                            match self.feas(s, v.e)? {
                                Some(m) => s.model = Self::overlay(&s.model, &m),
                                None => {
                                    self.stats.assumed_away += 1;
                                    return Err(Stop::Infeasible);
                                }
                            }
                        }
                        if !self.assume(s, v.e) {
                            return Err(Stop::Infeasible);
                        }
                    }
                }
                self.ret(s, ci, &[]);
            }
            N::SymAssert => {
                let tag = conc!(1);
                let v = self.canonbit(s, args[0]);
                self.stats.asserts += 1;
                if v.e == 0 {
                    if v.v & 1 == 0 {
                        return Err(Stop::Violation(format!("assertion {tag} fails")));
                    }
                    if args[0].e != 0 {
                        self.stats.asserts_rewrite += 1;
                    } else {
                        self.stats.asserts_concrete += 1;
                    }
                } else {
                    self.stats.asserts_solver += 1;
                    let ne = self.ar.not(v.e);
                    if let Some(m) = self.feas(s, ne)? {
                        // record the violating state, continue where the assertion holds
                        let mut t = s.clone();
                        t.model = Self::overlay(&s.model, &m);
                        if self.assume(&mut t, ne) {
                            self.violations.push((format!("assertion {tag} can fail"), t));
                        }
                        match self.feas(s, v.e)? {
                            Some(m) => s.model = Self::overlay(&s.model, &m),
                            None => return Err(Stop::Infeasible),
                        }
                    } else if s.model.is_some() {
                        // holds everywhere on this path; keep the model valid
                        let m0 = s.model.clone().unwrap();
                        if self.ar.eval(v.e, &m0, &mut Default::default())[0] != 1 {
                            s.model = None;
                        }
                    }
                    if !self.assume(s, v.e) {
                        return Err(Stop::Infeasible);
                    }
                }
                self.ret(s, ci, &[]);
            }
            N::SymReach => {
                let k = conc!(0);
                s.reach |= 1 << k.min(63);
                self.ret(s, ci, &[]);
            }
            N::SymObserve => {
                let tag = conc!(0);
                let v = args[1];
                s.obs.push((tag, v, 64));
                self.ret(s, ci, &[]);
            }
            N::SymHash => {
                let p = conc!(0);
                let k = conc!(1);
                let o = conc!(2);
                self.stats.hashes += 1;
                let inp = self.bytes(s, p, k)?;
                let h = self.ar.hash(&inp);
                for i in 0..32u32 {
                    let b = self.ar.extract(h, 248 - 8 * i, 8);
                    s.mem.store_sym(o + i as u64, b);
                }
                self.ret(s, ci, &[]);
            }
            N::SymConc => {
                let v = conc!(0);
                self.ret(s, ci, &[c(v)]);
            }
            N::SymIsSym => {
                let v = self.canonv(s, args[0]);
                self.ret(s, ci, &[c((v.e != 0) as u64)]);
            }
            N::SymEq => {
                // equality of two byte ranges as a single (unforked) condition
                let a = conc!(0);
                let b = conc!(1);
                let k = conc!(2);
                let x = self.bytes(s, a, k)?;
                let y = self.bytes(s, b, k)?;
                let eq = self.ar.eq_bytes(&x, &y);
                let v = self.vx(eq);
                self.ret(s, ci, &[v]);
            }
            N::SymExpectPanic => {
                s.expect_panic = conc!(0) != 0;
                self.ret(s, ci, &[]);
            }
            N::SymNote => {
                if self.trace {
                    let v = self.canonv(s, args[1]);
                    eprintln!("note {} = {} (expr {})", args[0].v, v.v, v.e);
                }
                self.ret(s, ci, &[]);
            }
            N::SymStop => return Err(Stop::Finished),
        }
        Ok(())
    }
    fn intrinsic(&mut self, s: &mut State, ci: &ir::CallI, it: Intr) -> R<()> {
        let args: Vec<V> = ci.args.iter().map(|o| Self::op(s, *o)).collect();
        let w = ci.argw.first().copied().unwrap_or(0);
        macro_rules! conc {
            ($i:expr) => {{
                let v = args[$i];
                if v.e == 0 {
                    v.v
                } else {
                    self.concretize(s, v, ci.argw[$i])?
                }
            }};
        }
        match it {
            Intr::Nop => self.ret(s, ci, &[]),
            Intr::Memcpy => {
                let n = conc!(2);
                let d = conc!(0);
                let p = conc!(1);
                if n > 0 && (!s.mem.ok(d, n) || !s.mem.ok(p, n)) {
                    return Err(self.bad(s, d, n, "memcpy"));
                }
                s.mem.copy(d, p, n);
                self.ret(s, ci, &[]);
            }
            Intr::Memset => {
                let n = conc!(2);
                let d = conc!(0);
                if n > 0 && !s.mem.ok(d, n) {
                    return Err(self.bad(s, d, n, "memset"));
                }
                let b = args[1];
                if b.e == 0 {
                    s.mem.fill(d, b.v as u8, n);
                } else {
                    for i in 0..n {
                        self.store(s, d + i, b, 8)?;
                    }
                }
                self.ret(s, ci, &[]);
            }
            Intr::Fshl | Intr::Fshr => {
                let k = conc!(2) % w as u64;
                let k = if it == Intr::Fshl { k } else { (w as u64 - k) % w as u64 };
                let r = if k == 0 {
                    if it == Intr::Fshl {
                        args[0]
                    } else {
                        args[1]
                    }
                } else if args[0].e == 0 && args[1].e == 0 {
                    c(((args[0].v << k) | (args[1].v >> (w as u64 - k))) & mask1(w))
                } else {
                    let a = self.ex(args[0], w);
                    let b = self.ex(args[1], w);
                    let hi = self.ar.extract(a, 0, w - k as u32);
                    let lo = self.ar.extract(b, w - k as u32, k as u32);
                    let e = self.ar.concat(&[hi, lo]);
                    self.vx(e)
                };
                self.ret(s, ci, &[r]);
            }
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let (a, b) = (args[0], args[1]);
                let p = if matches!(it, Intr::UMin | Intr::UMax) { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w, a, b);
                let min = matches!(it, Intr::UMin | Intr::SMin);
                let r = if lt.e == 0 {
                    if (lt.v == 1) == min {
                        a
                    } else {
                        b
                    }
                } else {
                    let x = self.ex(a, w);
                    let y = self.ex(b, w);
                    let e = if min { self.ar.ite(lt.e, x, y) } else { self.ar.ite(lt.e, y, x) };
                    self.vx(e)
                };
                self.ret(s, ci, &[r]);
            }
            Intr::Cttz | Intr::Ctlz | Intr::Ctpop | Intr::Bitrev
                if args[0].e != 0 && {
                    let e = self.canon(s, args[0].e);
                    self.ar.cv(e).is_none()
                } =>
            {
                let e0 = self.ex(args[0], w);
                let e = self.canon(s, e0);
                let bit: Vec<E> = (0..w).map(|i| self.ar.extract(e, i, 1)).collect();
                let r = match it {
                    Intr::Bitrev => {
                        // most significant first: the lowest bit becomes the highest
                        self.ar.concat(&bit)
                    }
                    Intr::Ctpop => {
                        let mut k = self.ar.konst(w, 0);
                        for b in bit {
                            let z = self.ar.zext(b, w);
                            k = self.ar.bin(crate::expr::Op::Add, k, z);
                        }
                        k
                    }
                    _ => {
                        let mut k = self.ar.konst(w, w as u64);
                        // the bit that decides last is tested first
                        for i in 0..w {
                            let (b, n) = if matches!(it, Intr::Ctlz) { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                            let c = self.ar.konst(w, n as u64);
                            k = self.ar.ite(bit[b as usize], c, k);
                        }
                        k
                    }
                };
                let r = self.vx(r);
                self.ret(s, ci, &[r]);
            }
            Intr::Cttz | Intr::Ctlz | Intr::Ctpop | Intr::Bitrev => {
                if w > 64 {
                    let e = self.ex(args[0], w);
                    let v = match self.ar.cv(e) {
                        Some(v) => v,
                        None => return Err(Stop::Error("wide bit count of symbolic".into())),
                    };
                    let r = match it {
                        Intr::Cttz => (0..w).find(|i| v[(*i / 64) as usize] >> (i % 64) & 1 == 1).unwrap_or(w),
                        Intr::Ctlz => (0..w).rev().find(|i| v[(*i / 64) as usize] >> (i % 64) & 1 == 1).map(|i| w - 1 - i).unwrap_or(w),
                        Intr::Ctpop => v.iter().map(|x| x.count_ones()).sum(),
                        _ => return Err(Stop::Error("bitreverse".into())),
                    };
                    let k = self.ar.konst(w, r as u64);
                    let v = self.vx(k);
                    self.ret(s, ci, &[v]);
                    return Ok(());
                }
                let v = conc!(0);
                let r = match it {
                    Intr::Cttz => {
                        if v == 0 {
                            w as u64
                        } else {
                            v.trailing_zeros() as u64
                        }
                    }
                    Intr::Ctlz => v.leading_zeros() as u64 - (64 - w as u64),
                    Intr::Ctpop => v.count_ones() as u64,
                    _ => v.reverse_bits() >> (64 - w),
                };
                self.ret(s, ci, &[c(r)]);
            }
            Intr::Bswap => {
                let r = if args[0].e == 0 {
                    c(args[0].v.swap_bytes() >> (64 - w))
                } else {
                    let parts: Vec<E> = (0..w / 8).map(|i| self.ar.extract(args[0].e, 8 * i, 8)).collect();
                    let e = self.ar.concat(&parts);
                    self.vx(e)
                };
                self.ret(s, ci, &[r]);
            }
            Intr::UaddO | Intr::UsubO | Intr::UmulO | Intr::SaddO | Intr::SsubO | Intr::SmulO => {
                let (a, b) = (args[0], args[1]);
                let (r, o);
                if a.e == 0 && b.e == 0 {
                    let sx = |v: u64| -> i128 { (((v << (64 - w)) as i64) >> (64 - w)) as i128 };
                    let (ua, ub) = (a.v as u128, b.v as u128);
                    let m = mask1(w) as u128;
                    let (x, of) = match it {
                        Intr::UaddO => (ua + ub, ua + ub > m),
                        Intr::UsubO => (ua.wrapping_sub(ub), ua < ub),
                        Intr::UmulO => (ua * ub, ua * ub > m),
                        _ => {
                            let z = match it {
                                Intr::SaddO => sx(a.v) + sx(b.v),
                                Intr::SsubO => sx(a.v) - sx(b.v),
                                _ => sx(a.v) * sx(b.v),
                            };
                            let lo = -(1i128 << (w - 1));
                            let hi = (1i128 << (w - 1)) - 1;
                            (z as u128, z < lo || z > hi)
                        }
                    };
                    r = c((x & m) as u64);
                    o = c(of as u64);
                } else {
                    let x = self.ex(a, w);
                    let y = self.ex(b, w);
                    use crate::expr::Op as O;
                    let op = match it {
                        Intr::UaddO | Intr::SaddO => O::Add,
                        Intr::UsubO | Intr::SsubO => O::Sub,
                        _ => O::Mul,
                    };
                    let ww = if op == O::Mul { 2 * w } else { w + 1 };
                    if ww > 256 {
                        return Err(Stop::Error("overflow op too wide".into()));
                    }
                    let signed = matches!(it, Intr::SaddO | Intr::SsubO | Intr::SmulO);
                    let rr = self.ar.bin(op, x, y);
                    let of = if it == Intr::UsubO {
                        self.ar.ult(x, y)
                    } else if it == Intr::UaddO {
                        self.ar.ult(rr, x)
                    } else {
                        let (xx, yy) = if signed { (self.ar.sext(x, ww), self.ar.sext(y, ww)) } else { (self.ar.zext(x, ww), self.ar.zext(y, ww)) };
                        let z = self.ar.bin(op, xx, yy);
                        let back = if signed { self.ar.sext(rr, ww) } else { self.ar.zext(rr, ww) };
                        let q = self.ar.eq(z, back);
                        self.ar.not(q)
                    };
                    r = self.vx(rr);
                    o = self.vx(of);
                }
                self.ret(s, ci, &[r, o]);
            }
            Intr::UsubSat | Intr::UaddSat => {
                let (a, b) = (args[0], args[1]);
                let r = if a.e == 0 && b.e == 0 {
                    if it == Intr::UsubSat {
                        c(a.v.saturating_sub(b.v))
                    } else {
                        c((a.v as u128 + b.v as u128).min(mask1(w) as u128) as u64)
                    }
                } else {
                    let x = self.ex(a, w);
                    let y = self.ex(b, w);
                    use crate::expr::Op as O;
                    let e = if it == Intr::UsubSat {
                        let l = self.ar.ult(x, y);
                        let d = self.ar.bin(O::Sub, x, y);
                        let z = self.ar.konst(w, 0);
                        self.ar.ite(l, z, d)
                    } else {
                        let d = self.ar.bin(O::Add, x, y);
                        let l = self.ar.ult(d, x);
                        let z = self.ar.konst4(w, [!0; 4]);
                        self.ar.ite(l, z, d)
                    };
                    self.vx(e)
                };
                self.ret(s, ci, &[r]);
            }
            Intr::Abs => {
                let v = conc!(0);
                let x = ((v << (64 - w)) as i64) >> (64 - w);
                self.ret(s, ci, &[c((x.wrapping_abs() as u64) & mask1(w))]);
            }
            Intr::Scmp | Intr::Ucmp => {
                let p = if it == Intr::Ucmp { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w, args[0], args[1]);
                let gt = self.icmp(p, w, args[1], args[0]);
                let rw = ci.rw[0];
                let r = if lt.e == 0 && gt.e == 0 {
                    if lt.v == 1 {
                        c(mask1(rw))
                    } else {
                        c(gt.v)
                    }
                } else {
                    let m1 = self.ar.konst4(rw, [!0; 4]);
                    let one = self.ar.konst(rw, 1);
                    let z = self.ar.konst(rw, 0);
                    let g = self.ex(gt, 1);
                    let l = self.ex(lt, 1);
                    let q = self.ar.ite(g, one, z);
                    let e = self.ar.ite(l, m1, q);
                    self.vx(e)
                };
                self.ret(s, ci, &[r]);
            }
            Intr::IsConst => self.ret(s, ci, &[c(0)]),
            Intr::Expect | Intr::Tls => {
                let v = args[0];
                self.ret(s, ci, &[v]);
            }
            Intr::Trap => return Err(Stop::Panic(format!("trap in {}", self.backtrace(s)))),
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd => {
                let mut r = args[0];
                let op = match it {
                    Intr::ReduceOr => BinOp::Or,
                    Intr::ReduceAnd => BinOp::And,
                    _ => BinOp::Add,
                };
                for x in &args[1..] {
                    r = self.bin(op, w, r, *x)?;
                }
                self.ret(s, ci, &[r]);
            }
            _ => return Err(Stop::Error(format!("unsupported intrinsic {}", ci.name))),
        }
        Ok(())
    }
    /// prefer real hash values: drop the solver's choice of hash values when the path condition
    /// still holds without them
    fn real_hashes(&mut self, s: &State, m: &Model) -> Model {
        let plain = Model { vars: m.vars.clone(), hashes: Default::default() };
        let mut memo: FxMap<E, W4> = Default::default();
        if s.cons.iter().all(|&e| self.ar.eval(e, &plain, &mut memo)[0] == 1) {
            return plain;
        }
        Model { vars: m.vars.clone(), hashes: m.hashes.clone() }
    }
    /// concrete input values and observations under a model (hex strings)
    pub fn witness(&mut self, s: &State, m: &Model) -> (Vec<String>, Vec<String>, Vec<(String, String)>) {
        let m = &self.real_hashes(s, m);
        let mut memo: FxMap<E, W4> = Default::default();
        let hex = |v: W4, w: u32| -> String {
            let n = (w as usize + 7) / 8;
            (0..n).rev().map(|i| format!("{:02x}", (v[i / 8] >> (8 * (i % 8))) as u8)).collect()
        };
        let inputs = s.inputs.clone();
        let obs = s.obs.clone();
        let mut out = vec![];
        let mut touched: Vec<E> = vec![];
        for i in &inputs {
            match i {
                Inp::Val(w, v) => {
                    let v = if v.e != 0 {
                        let e = self.canon(s, v.e);
                        touched.push(e);
                        self.ar.eval(e, m, &mut memo)
                    } else {
                        [v.v, 0, 0, 0]
                    };
                    out.push(format!("v {}", hex(v, *w)));
                }
                Inp::Bytes(b) => {
                    let mut t = String::new();
                    for v in b.iter() {
                        let e = self.canon(s, v.e);
                        touched.push(e);
                        t.push_str(&hex(self.ar.eval(e, m, &mut memo), 8));
                    }
                    out.push(format!("b {t}"));
                }
            }
        }
        let mut ob = vec![];
        for (tag, v, w) in &obs {
            let x = if v.e != 0 {
                let e = self.canon(s, v.e);
                touched.push(e);
                self.ar.eval(e, m, &mut memo)
            } else {
                [v.v, 0, 0, 0]
            };
            ob.push(format!("{} {}", tag, hex(x, *w)));
        }
        // hash table: every hash term met while evaluating, as input -> output
        let mut tab: Vec<(String, String)> = vec![];
        let mut seen: std::collections::HashSet<E> = Default::default();
        let mut st = touched;
        st.extend(s.cons.iter());
        let mut hs = vec![];
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = self.ar.n(e);
            use crate::expr::Op;
            match n.op {
                Op::Const | Op::Var => {}
                Op::Hash => {
                    hs.push(e);
                    let l = self.ar.hashes[n.a as usize].clone();
                    st.extend(l.iter());
                }
                Op::Concat => {
                    let l = self.ar.lists[n.a as usize].clone();
                    st.extend(l.iter())
                }
                Op::Extract | Op::Not | Op::SExt => st.push(n.a),
                Op::Ite => {
                    st.push(n.a);
                    st.push(n.b);
                    st.push(n.c);
                }
                _ => {
                    st.push(n.a);
                    st.push(n.b);
                }
            }
        }
        hs.sort();
        for h in hs {
            let n = self.ar.n(h);
            let l = self.ar.hashes[n.a as usize].clone();
            let mut inp = String::new();
            for &x in l.iter() {
                inp.push_str(&hex(self.ar.eval(x, m, &mut memo), 8));
            }
            let o = hex(self.ar.eval(h, m, &mut memo), 256);
            tab.push((inp, o));
        }
        (out, ob, tab)
    }
}

fn e_true_of(ar: &mut Arena, _e: E) -> E {
    ar.t
}
