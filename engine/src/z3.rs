//! Minimal libz3 binding and the query front end (bit-vectors + hash axioms).
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(c: P, code: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, code)).to_string_lossy().into_owned() };
    eprintln!("symx: z3 error {code} {m}");
    std::process::abort();
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    ctx: P,
    solver: P,
    cache: FxMap<E, P>,
    sorts: FxMap<u32, P>,
    qcache: FxMap<Vec<E>, Option<Rc<Model>>>,
    pub queries: u64,
    pub cached: u64,
    pub ns: u128,
    pub sat: u64,
    pub unsat: u64,
    pub dump: Option<Vec<(String, bool)>>,
    pub dump_every: u64,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.ctx) }
    }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, on_err);
            let l = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            Z3 {
                ctx,
                solver,
                cache: Default::default(),
                sorts: Default::default(),
                qcache: Default::default(),
                queries: 0,
                cached: 0,
                ns: 0,
                sat: 0,
                unsat: 0,
                dump: None,
                dump_every: 1,
            }
        }
    }
    pub fn clear(&mut self) {
        let mut n = Z3::new(10_000);
        std::mem::swap(&mut n.ctx, &mut self.ctx);
        std::mem::swap(&mut n.solver, &mut self.solver);
        self.cache.clear();
        self.sorts.clear();
        self.qcache.clear();
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w);
            Z3_inc_ref(c, s);
            s
        })
    }
    fn keep(&mut self, e: E, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        self.cache.insert(e, a);
        a
    }
    fn tr(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.cache.get(&e) {
            return p;
        }
        let n = ar.n(e);
        let w = n.w as u32;
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    let v = ar.consts[n.a as usize];
                    let s = self.sort(w);
                    if w <= 64 {
                        Z3_mk_unsigned_int64(c, v[0], s)
                    } else {
                        let st = CString::new(dec(v)).unwrap();
                        Z3_mk_numeral(c, st.as_ptr(), s)
                    }
                }
                Op::Var | Op::Hash => {
                    let s = self.sort(w);
                    let st = CString::new(format!("{}{}_{}", if n.op == Op::Var { "v" } else { "h" }, n.a, w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, st.as_ptr()), s)
                }
                Op::Concat => {
                    let l = ar.lists[n.a as usize].clone();
                    let mut r = self.tr(ar, l[0]);
                    Z3_inc_ref(c, r);
                    for &x in &l[1..] {
                        let y = self.tr(ar, x);
                        r = Z3_mk_concat(c, r, y);
                        Z3_inc_ref(c, r);
                    }
                    r
                }
                Op::Extract => {
                    let x = self.tr(ar, n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, x)
                }
                Op::Not => {
                    let x = self.tr(ar, n.a);
                    Z3_mk_bvnot(c, x)
                }
                Op::SExt => {
                    let x = self.tr(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), x)
                }
                Op::Ite => {
                    let b = self.tb(ar, n.a);
                    Z3_inc_ref(c, b);
                    let x = self.tr(ar, n.b);
                    let y = self.tr(ar, n.c);
                    Z3_mk_ite(c, b, x, y)
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.tb(ar, e);
                    Z3_inc_ref(c, b);
                    let s = self.sort(1);
                    let o = Z3_mk_unsigned_int64(c, 1, s);
                    Z3_inc_ref(c, o);
                    let z = Z3_mk_unsigned_int64(c, 0, s);
                    Z3_inc_ref(c, z);
                    Z3_mk_ite(c, b, o, z)
                }
                op => {
                    let x = self.tr(ar, n.a);
                    let y = self.tr(ar, n.b);
                    match op {
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.keep(e, p)
    }
    /// 1-bit expression as a Bool
    fn tb(&mut self, ar: &Arena, e: E) -> P {
        let n = ar.n(e);
        let c = self.ctx;
        unsafe {
            match n.op {
                Op::Eq => {
                    let x = self.tr(ar, n.a);
                    let y = self.tr(ar, n.b);
                    Z3_mk_eq(c, x, y)
                }
                Op::Ult => {
                    let x = self.tr(ar, n.a);
                    let y = self.tr(ar, n.b);
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let x = self.tr(ar, n.a);
                    let y = self.tr(ar, n.b);
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Not => {
                    let x = self.tb(ar, n.a);
                    Z3_inc_ref(c, x);
                    Z3_mk_not(c, x)
                }
                _ => {
                    let x = self.tr(ar, e);
                    let s = self.sort(1);
                    let o = Z3_mk_unsigned_int64(c, 1, s);
                    Z3_inc_ref(c, o);
                    Z3_mk_eq(c, x, o)
                }
            }
        }
    }
    pub fn check(&mut self, ar: &mut Arena, cons: &[E]) -> Res {
        let mut key: Vec<E> = cons.iter().copied().filter(|&e| e != ar.t).collect();
        key.sort_unstable();
        key.dedup();
        if key.contains(&ar.f) {
            return Res::Unsat;
        }
        if let Some(r) = self.qcache.get(&key) {
            self.cached += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let t0 = std::time::Instant::now();
        let r = self.check_raw(ar, &key);
        self.queries += 1;
        self.ns += t0.elapsed().as_nanos();
        match &r {
            Res::Sat(m) => {
                self.sat += 1;
                self.qcache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.unsat += 1;
                self.qcache.insert(key, None);
            }
            _ => {}
        }
        r
    }
    fn check_raw(&mut self, ar: &mut Arena, key: &[E]) -> Res {
        // collect vars, directly visible hash terms, 256-bit constants
        let mut vars: Vec<E> = vec![];
        let mut hs: Vec<E> = vec![];
        let mut c256: Vec<E> = vec![];
        let mut seen: FxMap<E, ()> = Default::default();
        let mut asserts: Vec<E> = key.to_vec();
        let mut st: Vec<E> = key.to_vec();
        let mut done_pairs = 0usize;
        loop {
            while let Some(e) = st.pop() {
                if seen.insert(e, ()).is_some() {
                    continue;
                }
                let n = ar.n(e);
                match n.op {
                    Op::Const => {
                        if n.w == 256 {
                            c256.push(e)
                        }
                    }
                    Op::Var => vars.push(e),
                    Op::Hash => hs.push(e),
                    Op::Concat => st.extend(ar.lists[n.a as usize].iter()),
                    Op::Extract | Op::Not | Op::SExt => st.push(n.a),
                    Op::Ite => {
                        st.push(n.a);
                        st.push(n.b);
                        st.push(n.c)
                    }
                    _ => {
                        st.push(n.a);
                        st.push(n.b)
                    }
                }
            }
            if done_pairs >= hs.len() {
                break;
            }
            // injectivity axioms for new hash terms against all earlier ones
            let from = done_pairs;
            done_pairs = hs.len();
            for i in from..done_pairs {
                for j in 0..i {
                    let (a, b) = (hs[i], hs[j]);
                    let inp = ar.eq(a, b); // rewritten to equality of the inputs
                    let (x, y) = if a < b { (a, b) } else { (b, a) };
                    let raw = ar.raw_eq(x, y);
                    let ax = ar.bin(Op::Xor, raw, inp);
                    let ax = ar.not(ax);
                    asserts.push(ax);
                    st.push(inp);
                }
            }
        }
        for &h in &hs {
            for &k in &c256 {
                let raw = ar.raw_eq(h.min(k), h.max(k));
                let ax = ar.not(raw);
                asserts.push(ax);
            }
        }
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for e in asserts {
                let b = self.tb(ar, e);
                Z3_inc_ref(self.ctx, b);
                Z3_solver_assert(self.ctx, self.solver, b);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            if let Some(d) = &mut self.dump {
                if self.queries % self.dump_every == 0 && d.len() < 200 && r != 0 {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                    d.push((s, r == 1));
                }
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut mo = Model::default();
                    for &v in &vars {
                        let x = self.mval(ar, m, v);
                        mo.vars.insert(ar.n(v).a, x);
                    }
                    for &h in &hs {
                        let x = self.mval(ar, m, h);
                        mo.hashes.insert(ar.n(h).a, x);
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(Rc::new(mo))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            out
        }
    }
    fn mval(&mut self, ar: &Arena, m: P, e: E) -> W4 {
        let t = self.tr(ar, e);
        let mut v: P = std::ptr::null_mut();
        unsafe {
            let ok = Z3_model_eval(self.ctx, m, t, true, &mut v);
            assert!(ok, "model_eval");
            Z3_inc_ref(self.ctx, v);
            let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, v)).to_str().unwrap();
            undec(s)
        }
    }
}

fn dec(mut v: W4) -> String {
    let mut out = vec![];
    if v == [0; 4] {
        return "0".into();
    }
    while v != [0; 4] {
        let mut r: u128 = 0;
        for i in (0..4).rev() {
            let t = (r << 64) | v[i] as u128;
            v[i] = (t / 10) as u64;
            r = t % 10;
        }
        out.push(b'0' + r as u8);
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}
fn undec(s: &str) -> W4 {
    let mut v = [0u64; 4];
    for c in s.bytes() {
        v = add4(mul4(v, [10, 0, 0, 0]), [(c - b'0') as u64, 0, 0, 0]);
    }
    v
}
