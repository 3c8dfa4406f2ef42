//! Textual LLVM IR -> compact bytecode.  The module text is scanned once; function bodies are
//! compiled on first call.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let bits = n * t.bits() as u64;
                ((bits + 7) / 8).next_power_of_two()
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64 / 8).min(16),
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => (t.size() * i as u64, (**t).clone()),
            Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    /// scalar leaves: (byte offset, bit width)
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => out.push((base, self.bits())),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.leaves(base + i * t.size(), out)
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (o, t) = self.field_off(i);
                    t.leaves(base + o, out)
                }
            }
            _ => {}
        }
    }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as u32 * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

/// operand: high bit set => constant pool index, else register slot
pub type Op = u32;
thread_local! {
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub const CONST: u32 = 1 << 31;

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Op),
    Intr(Intr),
    AsmNop,
    AsmBad,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Fshl,
    Fshr,
    UMin,
    UMax,
    SMin,
    SMax,
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    Bitrev,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UsubSat,
    UaddSat,
    SaddSat,
    SsubSat,
    Abs,
    Scmp,
    Ucmp,
    IsConst,
    Expect,
    Tls,
    Trap,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    Bad,
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<Op>,
    pub argw: Vec<u32>,
    pub d: u32,
    pub rw: Vec<u32>, // return slot widths
    pub next: u32,    // for invoke: edge index + 1; 0 otherwise
    pub name: Rc<str>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, w: u32, a: Op, b: Op, d: u32 },
    Icmp { p: Pred, w: u32, a: Op, b: Op, d: u32 },
    Sel { c: Op, a: Op, b: Op, d: u32, ws: Rc<[u32]>, ptr: bool },
    Load { p: Op, d: u32, leaves: Rc<[(u64, u32)]> },
    Load1 { p: Op, d: u32, w: u32 },
    Store { p: Op, v: Rc<[Op]>, leaves: Rc<[(u64, u32)]> },
    Store1 { p: Op, v: Op, w: u32 },
    Alloca { d: u32, size: u64, align: u64, n: Op },
    Gep { d: u32, base: Op, off: u64, terms: Rc<[(Op, u64, u32)]> },
    Zext { d: u32, a: Op, f: u32, t: u32 },
    Sext { d: u32, a: Op, f: u32, t: u32 },
    Trunc { d: u32, a: Op, f: u32, t: u32 },
    Cast { d: u32, a: Rc<[Op]>, fw: Rc<[u32]>, tw: Rc<[u32]> },
    Copy { d: u32, a: Rc<[Op]> },
    Copy1 { d: u32, a: Op },
    Br { e: u32 },
    CBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u32, cases: Rc<[(u64, u32)]>, def: u32 },
    Ret { v: Rc<[Op]> },
    Unreachable,
    Call(Rc<CallI>),
    Rmw { op: u8, p: Op, v: Op, d: u32, w: u32 },
    CmpXchg { p: Op, c: Op, n: Op, d: u32, w: u32 },
    ExtractEl { d: u32, v: Rc<[Op]>, i: Op },
    Bad(Rc<str>),
}

#[derive(Debug)]
pub struct Edge {
    pub target: u32, // instruction index
    pub copies: Vec<(u32, Op)>,
}
#[derive(Clone, Debug)]
pub enum K {
    Small(u64),
    Wide(u32, [u64; 4]),
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub id: u32,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub consts: Vec<K>,
    pub nregs: u32,
    pub args: Vec<(u32, u32)>, // (slot, nslots)
    pub nargs_slots: u32,
    pub noreturn: bool,
}

pub struct FnDecl {
    pub name: Rc<str>,
    pub start: usize, // line index of define; usize::MAX for declarations
    pub end: usize,
}
pub struct Global {
    pub name: Rc<str>,
    pub line: usize,
    pub addr: u64,
    pub size: u64,
    pub init: bool,
}

pub struct Module {
    pub text: &'static str,
    pub lines: Vec<(u32, u32)>,
    pub fns: Vec<FnDecl>,
    pub fn_ix: HashMap<Rc<str>, u32>,
    pub globals: Vec<Global>,
    pub glob_ix: HashMap<Rc<str>, u32>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    pub glob_end: u64,
}

pub const FN_BASE: u64 = 1 << 40;
pub const GLOB_BASE: u64 = 0x10000;

#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> {
    W(&'a str),          // word
    L(String),           // %local
    G(String),           // @global
    N(i128, &'a str),    // integer
    S(Vec<u8>),          // c"..." or "..."
    M(&'a str),          // !metadata or #attr
    P(u8),               // punctuation
    Dots,
}

fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    let hx = |c: u8| -> u8 {
        match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            _ => c - b'A' + 10,
        }
    };
    while i < s.len() {
        if s[i] == b'\\' {
            if s.get(i + 1) == Some(&b'\\') {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(hx(s[i + 1]) * 16 + hx(s[i + 2]));
                i += 3;
            }
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn lex<'a>(s: &'a str) -> Vec<T<'a>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let st = i + 1;
                let name;
                if b.get(st) == Some(&b'"') {
                    let mut j = st + 1;
                    while b[j] != b'"' {
                        j += 1
                    }
                    name = String::from_utf8_lossy(&unesc(&b[st + 1..j])).into_owned();
                    i = j + 1;
                } else {
                    let mut j = st;
                    while j < b.len() && idc(b[j]) {
                        j += 1
                    }
                    name = s[st..j].to_string();
                    i = j;
                }
                o.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                o.push(T::S(unesc(&b[i + 1..j])));
                i = j + 1;
            }
            b'c' if b.get(i + 1) == Some(&b'"') => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1
                }
                o.push(T::S(unesc(&b[i + 2..j])));
                i = j + 1;
            }
            b'!' | b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1
                }
                o.push(T::M(&s[i..j]));
                i = j;
            }
            b'.' if b.get(i + 1) == Some(&b'.') => {
                o.push(T::Dots);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || b[j] == b'+') {
                    j += 1
                }
                let t = &s[i..j];
                match t.parse::<i128>() {
                    Ok(v) => o.push(T::N(v, t)),
                    Err(_) => o.push(T::N(0, t)),
                }
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1
                }
                o.push(T::W(&s[i..j]));
                i = j;
            }
            _ => {
                o.push(T::P(c));
                i += 1;
            }
        }
    }
    o
}

pub struct Ps<'a> {
    pub t: Vec<T<'a>>,
    pub i: usize,
}

/// constant value, as bytes-with-relocations or scalars
#[derive(Clone, Debug)]
pub enum C {
    Int(u32, [u64; 4]),
    Addr(u64),
    Agg(Vec<C>),
    Zero(Ty),
    Bytes(Vec<u8>),
}

impl<'a> Ps<'a> {
    pub fn new(s: &'a str) -> Self {
        Ps { t: lex(s), i: 0 }
    }
    pub fn peek(&self) -> Option<&T<'a>> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> T<'a> {
        let x = self.t[self.i].clone();
        self.i += 1;
        x
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if *x == w)
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn is_p(&self, c: u8) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    pub fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn exp_p(&mut self, c: u8) {
        if !self.eat_p(c) {
            panic!("expected '{}' at {:?} in {:?}", c as char, self.peek(), &self.t[self.i.saturating_sub(12)..(self.i + 4).min(self.t.len())]);
        }
    }
    pub fn skip_group(&mut self, o: u8, c: u8) {
        self.exp_p(o);
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(x) if x == o => d += 1,
                T::P(x) if x == c => d -= 1,
                _ => {}
            }
        }
    }
    pub fn try_ty(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => {
                *w == "void"
                    || *w == "ptr"
                    || *w == "float"
                    || *w == "double"
                    || *w == "half"
                    || *w == "fp128"
                    || *w == "x86_fp80"
                    || *w == "label"
                    || *w == "metadata"
                    || *w == "token"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P(b'[')) | Some(T::P(b'{')) | Some(T::P(b'<')) => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        let t = match self.next() {
            T::W("void") => Ty::Void,
            T::W("ptr") => {
                if self.eat_w("addrspace") {
                    self.skip_group(b'(', b')');
                }
                Ty::Ptr
            }
            T::W("float") => Ty::Float(32),
            T::W("double") => Ty::Float(64),
            T::W("half") => Ty::Float(16),
            T::W("fp128") => Ty::Float(128),
            T::W("x86_fp80") => Ty::Float(80),
            T::W("label") | T::W("metadata") | T::W("token") => Ty::Other,
            T::W(w) if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
            T::P(b'[') => {
                let n = self.num();
                assert!(self.eat_w("x"));
                let e = self.ty();
                self.exp_p(b']');
                Ty::Arr(n as u64, Rc::new(e))
            }
            T::P(b'{') => {
                let mut f = vec![];
                while !self.eat_p(b'}') {
                    f.push(self.ty());
                    self.eat_p(b',');
                }
                Ty::Struct(Rc::new(f), false)
            }
            T::P(b'<') => {
                if self.eat_p(b'{') {
                    let mut f = vec![];
                    while !self.eat_p(b'}') {
                        f.push(self.ty());
                        self.eat_p(b',');
                    }
                    self.exp_p(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num();
                    assert!(self.eat_w("x"));
                    let e = self.ty();
                    self.exp_p(b'>');
                    Ty::Vec(n as u64, Rc::new(e))
                }
            }
            x => panic!("type? {:?}", x),
        };
        t
    }
    pub fn num(&mut self) -> i128 {
        match self.next() {
            T::N(v, _) => v,
            x => panic!("num? {:?}", x),
        }
    }
    /// skip attributes (parameter, return, function); stops at a type/value/punctuation
    pub fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    if self.try_ty() {
                        return;
                    }
                    if is_value_word(w) {
                        return;
                    }
                    let align = *w == "align";
                    self.i += 1;
                    if self.is_p(b'(') {
                        self.skip_group(b'(', b')');
                    } else if align {
                        if let Some(T::N(..)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Some(T::S(_)) => {
                    // "string attr" or "k"="v"
                    self.i += 1;
                    if self.eat_p(b'=') {
                        self.i += 1;
                    }
                }
                Some(T::M(m)) if m.starts_with('#') => self.i += 1,
                _ => return,
            }
        }
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" | "splat" | "blockaddress" | "asm" | "icmp" | "select" | "dso_local_equivalent" | "no_cfi" | "addrspacecast" | "ptrtoaddr"
    )
}

fn i4(v: i128, w: u32) -> [u64; 4] {
    let u = v as u128;
    let s = if v < 0 { !0u64 } else { 0 };
    crate::expr::mask4([u as u64, (u >> 64) as u64, s, s], w)
}

impl Module {
    pub fn line(&self, i: usize) -> &'static str {
        let (a, b) = self.lines[i];
        &self.text[a as usize..b as usize]
    }
    pub fn load(text: &'static str) -> Module {
        let mut lines = Vec::with_capacity(800_000);
        let mut st = 0usize;
        let bytes = text.as_bytes();
        // lines; do not split inside quotes (names do not contain newlines)
        for (i, &c) in bytes.iter().enumerate() {
            if c == b'\n' {
                lines.push((st as u32, i as u32));
                st = i + 1;
            }
        }
        if st < bytes.len() {
            lines.push((st as u32, bytes.len() as u32));
        }
        let mut m = Module { text, lines, fns: vec![], fn_ix: HashMap::new(), globals: vec![], glob_ix: HashMap::new(), aliases: HashMap::new(), glob_end: 0 };
        let mut i = 0;
        while i < m.lines.len() {
            let l = m.line(i);
            if l.starts_with("define ") || l.starts_with("declare ") {
                let at = find_at(l);
                let name: Rc<str> = name_at(&l[at..]).into();
                let def = l.starts_with("define ");
                let start = i;
                if def {
                    while m.line(i) != "}" {
                        i += 1
                    }
                }
                let id = m.fns.len() as u32;
                m.fns.push(FnDecl { name: name.clone(), start: if def { start } else { usize::MAX }, end: i });
                m.fn_ix.insert(name, id);
            } else if l.starts_with('@') {
                let name: Rc<str> = name_at(l).into();
                if l.contains(" alias ") {
                    // @a = ... alias ty, ptr @b
                    let k = l.rfind("ptr @").map(|p| p + 4);
                    if let Some(k) = k {
                        let tgt: Rc<str> = name_at(&l[k..]).into();
                        m.aliases.insert(name, tgt);
                    }
                } else {
                    let id = m.globals.len() as u32;
                    m.globals.push(Global { name: name.clone(), line: i, addr: 0, size: 0, init: false });
                    m.glob_ix.insert(name, id);
                }
            }
            i += 1;
        }
        // layout
        let mut addr = GLOB_BASE;
        for k in 0..m.globals.len() {
            let l = m.line(m.globals[k].line);
            let (ty, al) = global_type(l);
            let a = al.max(ty.align()).max(8);
            addr = (addr + a - 1) / a * a;
            m.globals[k].addr = addr;
            m.globals[k].size = ty.size();
            addr += ty.size().max(1) + 8;
        }
        m.glob_end = (addr + 4095) / 4096 * 4096;
        m
    }
    pub fn sym_addr(&self, name: &str) -> u64 {
        if let Some(t) = self.aliases.get(name) {
            return self.sym_addr(&t.clone());
        }
        if let Some(&g) = self.glob_ix.get(name) {
            return self.globals[g as usize].addr;
        }
        if let Some(&f) = self.fn_ix.get(name) {
            // extern_weak symbols are absent in this environment
            let d = &self.fns[f as usize];
            if d.start == usize::MAX && self.is_weak(name) {
                return 0;
            }
            return FN_BASE + f as u64 * 16;
        }
        panic!("unknown symbol @{name}");
    }
    fn is_weak(&self, name: &str) -> bool {
        matches!(name, "statx" | "gettid" | "__cxa_thread_atexit_impl" | "pidfd_spawnp" | "pidfd_getpid" | "copy_file_range" | "getrandom" | "posix_spawn_file_actions_addchdir_np" | "posix_spawn_file_actions_addchdir" | "__pthread_get_minstack")
    }
    /// (address, bytes) initialisers of all globals
    pub fn init_globals(&self, mut f: impl FnMut(u64, &[u8])) {
        for g in &self.globals {
            let l = self.line(g.line);
            let mut ps = Ps::new(l);
            if !skip_to_global_type(&mut ps) {
                continue;
            }
            let ty = ps.ty();
            if ps.peek().is_none() || ps.is_p(b',') || matches!(ps.peek(), Some(T::M(_))) {
                continue;
            }
            let c = self.constant(&mut ps, &ty);
            let mut buf = vec![0u8; ty.size() as usize];
            self.emit(&c, &ty, &mut buf);
            f(g.addr, &buf);
        }
    }
    fn emit(&self, c: &C, ty: &Ty, out: &mut [u8]) {
        match c {
            C::Zero(_) => {}
            C::Bytes(b) => out[..b.len()].copy_from_slice(b),
            C::Addr(a) => out[..8].copy_from_slice(&a.to_le_bytes()),
            C::Int(w, v) => {
                let n = ((*w + 7) / 8) as usize;
                for i in 0..n {
                    out[i] = (v[i / 8] >> (8 * (i % 8))) as u8
                }
            }
            C::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    let (o, t) = ty.field_off(i);
                    let sz = t.size() as usize;
                    self.emit(x, &t, &mut out[o as usize..o as usize + sz]);
                }
            }
        }
    }
    pub fn constant(&self, ps: &mut Ps, ty: &Ty) -> C {
        match ps.next() {
            T::N(v, s) => match ty {
                Ty::Float(64) => {
                    let f = if s.starts_with("0x") { u64::from_str_radix(&s[2..], 16).unwrap_or(0) } else { s.parse::<f64>().unwrap_or(0.0).to_bits() };
                    C::Int(64, [f, 0, 0, 0])
                }
                Ty::Float(w) => C::Int(*w, [0; 4]),
                Ty::Int(w) => {
                    if v == 0 && s.trim_start_matches('-').bytes().any(|c| c != b'0') {
                        // u128-sized literal
                        let neg = s.starts_with('-');
                        let mut a = [0u64; 4];
                        for c in s.trim_start_matches('-').bytes() {
                            a = crate::expr::add4(crate::expr::mul4(a, [10, 0, 0, 0]), [(c - b'0') as u64, 0, 0, 0]);
                        }
                        if neg {
                            a = crate::expr::sub4([0; 4], a);
                        }
                        C::Int(*w, crate::expr::mask4(a, *w))
                    } else {
                        C::Int(*w, i4(v, *w))
                    }
                }
                _ => panic!("num const of {:?}", ty),
            },
            T::W("true") => C::Int(1, [1, 0, 0, 0]),
            T::W("false") => C::Int(1, [0; 4]),
            T::W("null") => C::Addr(0),
            T::W("undef") | T::W("poison") | T::W("zeroinitializer") | T::W("none") => C::Zero(ty.clone()),
            T::G(n) => C::Addr(self.sym_addr(&n)),
            T::S(b) => C::Bytes(b),
            T::W("splat") => {
                ps.exp_p(b'(');
                let t = ps.ty();
                let c = self.constant(ps, &t);
                ps.exp_p(b')');
                if let Ty::Vec(n, _) = ty {
                    C::Agg(vec![c; *n as usize])
                } else {
                    panic!("splat")
                }
            }
            T::P(o) if o == b'[' || o == b'{' || o == b'<' => {
                let mut v = vec![];
                let mut close = match o {
                    b'[' => b']',
                    b'{' => b'}',
                    _ => b'>',
                };
                if o == b'<' && ps.eat_p(b'{') {
                    close = b'}';
                }
                while !ps.eat_p(close) {
                    let t = ps.ty();
                    v.push(self.constant(ps, &t));
                    ps.eat_p(b',');
                }
                if o == b'<' && close == b'}' {
                    ps.exp_p(b'>');
                }
                C::Agg(v)
            }
            T::W("getelementptr") => {
                while !ps.is_p(b'(') {
                    ps.i += 1;
                    // inrange(...) groups
                    if matches!(ps.t.get(ps.i - 1), Some(T::W("inrange"))) {
                        ps.skip_group(b'(', b')');
                    }
                }
                ps.exp_p(b'(');
                let t = ps.ty();
                ps.exp_p(b',');
                let bt = ps.ty();
                let base = self.caddr(ps, &bt);
                let mut idx = vec![];
                while ps.eat_p(b',') {
                    ps.eat_w("inrange");
                    let it = ps.ty();
                    match self.constant(ps, &it) {
                        C::Int(w, v) => idx.push(sx(v[0], w)),
                        C::Zero(_) => idx.push(0),
                        x => panic!("gep idx {:?}", x),
                    }
                }
                ps.exp_p(b')');
                let mut off = idx[0] * t.size() as i64;
                let mut cur = t;
                for &k in &idx[1..] {
                    let (o, nt) = match &cur {
                        Ty::Struct(..) => cur.field_off(k as usize),
                        Ty::Arr(_, e) | Ty::Vec(_, e) => ((k * e.size() as i64) as u64, (**e).clone()),
                        _ => panic!("gep const"),
                    };
                    off += o as i64;
                    cur = nt;
                }
                C::Addr(base.wrapping_add(off as u64))
            }
            T::W("inttoptr") | T::W("ptrtoint") | T::W("bitcast") | T::W("ptrtoaddr") | T::W("addrspacecast") => {
                ps.exp_p(b'(');
                let t = ps.ty();
                let c = self.constant(ps, &t);
                assert!(ps.eat_w("to"));
                let t2 = ps.ty();
                ps.exp_p(b')');
                let v = match c {
                    C::Int(_, v) => v[0],
                    C::Addr(a) => a,
                    C::Zero(_) => 0,
                    x => panic!("cast const {:?}", x),
                };
                match t2 {
                    Ty::Ptr => C::Addr(v),
                    Ty::Int(w) => C::Int(w, crate::expr::mask4([v, 0, 0, 0], w)),
                    _ => panic!("cast const to"),
                }
            }
            T::W(op @ ("add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "trunc" | "zext" | "sext" | "lshr")) => {
                while !ps.is_p(b'(') {
                    ps.i += 1
                }
                ps.exp_p(b'(');
                let t = ps.ty();
                let a = self.cint(ps, &t);
                if matches!(op, "trunc" | "zext" | "sext") {
                    assert!(ps.eat_w("to"));
                    let t2 = ps.ty();
                    ps.exp_p(b')');
                    return C::Int(t2.bits(), crate::expr::mask4([a, 0, 0, 0], t2.bits()));
                }
                ps.exp_p(b',');
                let t2 = ps.ty();
                let b = self.cint(ps, &t2);
                ps.exp_p(b')');
                let r = match op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    "mul" => a.wrapping_mul(b),
                    "shl" => a << b,
                    _ => a >> b,
                };
                C::Int(t.bits(), crate::expr::mask4([r, 0, 0, 0], t.bits()))
            }
            x => panic!("constant? {:?} ty {:?} ctx {:?}", x, ty, &ps.t[ps.i.saturating_sub(6)..(ps.i + 4).min(ps.t.len())]),
        }
    }
    fn caddr(&self, ps: &mut Ps, t: &Ty) -> u64 {
        match self.constant(ps, t) {
            C::Addr(a) => a,
            C::Zero(_) => 0,
            C::Int(_, v) => v[0],
            x => panic!("caddr {:?}", x),
        }
    }
    fn cint(&self, ps: &mut Ps, t: &Ty) -> u64 {
        self.caddr(ps, t)
    }

    pub fn compile(&self, id: u32) -> Result<Func, String> {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| FnC::new(self, id).go()));
        match r {
            Ok(f) => Ok(f),
            Err(e) => {
                let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(format!("compiling {}: {}", self.fns[id as usize].name, s))
            }
        }
    }
}

fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn find_at(l: &str) -> usize {
    l.find('@').unwrap()
}
fn name_at(s: &str) -> String {
    let b = s.as_bytes();
    debug_assert_eq!(b[0], b'@');
    if b[1] == b'"' {
        let e = s[2..].find('"').unwrap();
        s[2..2 + e].to_string()
    } else {
        let mut j = 1;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b"_.$-".contains(&b[j])) {
            j += 1
        }
        s[1..j].to_string()
    }
}
fn skip_to_global_type(ps: &mut Ps) -> bool {
    let mut ext = false;
    loop {
        match ps.next() {
            T::W("global") | T::W("constant") => return !ext,
            T::W("external") | T::W("extern_weak") => ext = true,
            T::W(_) if ps.is_p(b'(') => ps.skip_group(b'(', b')'),
            _ => {}
        }
    }
}
fn global_type(l: &str) -> (Ty, u64) {
    // lex only up to the type: find " global " or " constant "
    let k = l.find(" global ").map(|p| p + 8).unwrap_or(usize::MAX).min(l.find(" constant ").map(|p| p + 10).unwrap_or(usize::MAX));
    // the type text may be long for big structs; lex the remainder lazily
    let rest = &l[k..];
    let cut = rest.find(" c\"").unwrap_or(rest.len());
    let mut ps = Ps::new(&rest[..cut]);
    let ty = ps.ty();
    let al = l.rfind(", align ").map(|p| l[p + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(1)).unwrap_or(1);
    (ty, al)
}

struct FnC<'m> {
    m: &'m Module,
    id: u32,
    regs: HashMap<String, (u32, u32)>,
    nregs: u32,
    consts: Vec<K>,
    const_ix: HashMap<(u32, [u64; 4]), u32>,
    code: Vec<I>,
    edges: Vec<(u32, u32)>, // (from block, to block)
    block_ix: HashMap<String, u32>,
    block_start: Vec<u32>,
    phis: Vec<Vec<(u32, Ty, Vec<(String, Vec<Op>)>)>>, // per block
    cur: u32,
}

impl<'m> FnC<'m> {
    fn new(m: &'m Module, id: u32) -> Self {
        FnC { m, id, regs: HashMap::new(), nregs: 0, consts: vec![], const_ix: HashMap::new(), code: vec![], edges: vec![], block_ix: HashMap::new(), block_start: vec![], phis: vec![], cur: 0 }
    }
    fn reg(&mut self, name: &str, n: u32) -> u32 {
        if let Some(&(s, k)) = self.regs.get(name) {
            assert_eq!(k, n, "slot count mismatch for %{name}");
            return s;
        }
        let s = self.nregs;
        self.nregs += n;
        self.regs.insert(name.to_string(), (s, n));
        s
    }
    fn fresh(&mut self, n: u32) -> u32 {
        let s = self.nregs;
        self.nregs += n;
        s
    }
    fn k(&mut self, w: u32, v: [u64; 4]) -> Op {
        let key = (if w <= 64 { 64 } else { w }, v);
        if let Some(&i) = self.const_ix.get(&key) {
            return i | CONST;
        }
        self.consts.push(if w <= 64 { K::Small(v[0]) } else { K::Wide(w, v) });
        let i = (self.consts.len() - 1) as u32;
        self.const_ix.insert(key, i);
        i | CONST
    }
    fn flat(&mut self, c: &C, ty: &Ty, out: &mut Vec<Op>) {
        match c {
            C::Int(w, v) => {
                let o = self.k(*w, *v);
                out.push(o)
            }
            C::Addr(a) => {
                let o = self.k(64, [*a, 0, 0, 0]);
                out.push(o)
            }
            C::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    let (_, t) = ty.field_off(i);
                    self.flat(x, &t, out)
                }
            }
            C::Zero(t) => {
                let mut l = vec![];
                t.leaves(0, &mut l);
                for (_, w) in l {
                    let o = self.k(w, [0; 4]);
                    out.push(o)
                }
            }
            C::Bytes(b) => {
                for x in b {
                    let o = self.k(8, [*x as u64, 0, 0, 0]);
                    out.push(o)
                }
            }
        }
    }
    fn val(&mut self, ps: &mut Ps, ty: &Ty) -> Vec<Op> {
        if let Some(T::L(n)) = ps.peek() {
            let n = n.clone();
            ps.i += 1;
            let k = ty.nslots();
            let s = self.reg(&n, k);
            return (s..s + k).collect();
        }
        if *ty == Ty::Other {
            // metadata / label argument: skip to , or )
            let mut d = 0;
            loop {
                match ps.peek() {
                    Some(T::P(b'(')) | Some(T::P(b'{')) => d += 1,
                    Some(T::P(b')')) | Some(T::P(b'}')) => {
                        if d == 0 {
                            break;
                        }
                        d -= 1
                    }
                    Some(T::P(b',')) if d == 0 => break,
                    None => break,
                    _ => {}
                }
                ps.i += 1;
            }
            return vec![];
        }
        let c = self.m.constant(ps, ty);
        let mut out = vec![];
        self.flat(&c, ty, &mut out);
        out
    }
    fn val1(&mut self, ps: &mut Ps, ty: &Ty) -> Op {
        let v = self.val(ps, ty);
        assert_eq!(v.len(), 1, "scalar expected {:?}", ty);
        v[0]
    }
    fn tval(&mut self, ps: &mut Ps) -> (Ty, Vec<Op>) {
        let t = ps.ty();
        let v = self.val(ps, &t);
        (t, v)
    }
    fn label(&mut self, ps: &mut Ps) -> u32 {
        assert!(ps.eat_w("label"));
        match ps.next() {
            T::L(n) => *self.block_ix.get(&n).unwrap_or_else(|| panic!("label {n}")),
            x => panic!("label {:?}", x),
        }
    }
    fn edge(&mut self, to: u32) -> u32 {
        self.edges.push((self.cur, to));
        (self.edges.len() - 1) as u32
    }
    fn go(mut self) -> Func {
        let d = &self.m.fns[self.id as usize];
        let head = self.m.line(d.start);
        // args
        let at = find_at(head);
        let mut ps = Ps::new(&head[at..]);
        let _ = ps.next();
        ps.exp_p(b'(');
        let mut args = vec![];
        let mut argslots = 0;
        let mut argn = 0;
        while !ps.eat_p(b')') {
            if matches!(ps.peek(), Some(T::Dots)) {
                ps.i += 1;
                continue;
            }
            let t = ps.ty();
            loop {
                match ps.peek() {
                    Some(T::L(_)) | Some(T::P(b',')) | Some(T::P(b')')) => break,
                    Some(T::W(w)) => {
                        let byval = *w == "byval";
                        if byval {
                            panic!("byval argument");
                        }
                        ps.i += 1;
                        if ps.is_p(b'(') {
                            ps.skip_group(b'(', b')')
                        } else if let Some(T::N(..)) = ps.peek() {
                            ps.i += 1
                        }
                    }
                    _ => ps.i += 1,
                }
            }
            let name = match ps.peek() {
                Some(T::L(n)) => {
                    let n = n.clone();
                    ps.i += 1;
                    n
                }
                _ => format!("{argn}"),
            };
            argn += 1;
            let k = t.nslots();
            let s = self.reg(&name, k);
            args.push((s, k));
            argslots += k;
            ps.eat_p(b',');
        }
        let noreturn = head.contains(" noreturn");
        // logical lines + blocks
        let mut stmts: Vec<(u32, String)> = vec![];
        let mut i = d.start + 1;
        let mut first = true;
        while i < d.end {
            let l = self.m.line(i);
            let tl = l.trim();
            if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label:  name:   ; preds
                let nm = if l.starts_with('"') {
                    let e = l[1..].find('"').unwrap();
                    l[1..1 + e].to_string()
                } else {
                    l.split(':').next().unwrap().to_string()
                };
                let b = self.block_start.len() as u32;
                self.block_ix.insert(nm, b);
                self.block_start.push(0);
                self.phis.push(vec![]);
                first = false;
                i += 1;
                continue;
            }
            if first {
                // unnamed entry block: its name is the next unnamed number
                let b = self.block_start.len() as u32;
                self.block_ix.insert(format!("{argn}"), b);
                self.block_start.push(0);
                self.phis.push(vec![]);
                first = false;
            }
            let mut s = tl.to_string();
            if (tl.starts_with("switch ") || tl.contains("= switch ")) && !tl.contains(']') {
                loop {
                    i += 1;
                    let x = self.m.line(i).trim();
                    s.push(' ');
                    s.push_str(x);
                    if x.starts_with(']') {
                        break;
                    }
                }
            } else if tl.starts_with("invoke ") || tl.contains("= invoke ") {
                i += 1;
                s.push(' ');
                s.push_str(self.m.line(i).trim());
            } else if tl.contains("= landingpad ") {
                while i + 1 < d.end {
                    let x = self.m.line(i + 1);
                    if x.starts_with("          ") && (x.trim().starts_with("cleanup") || x.trim().starts_with("catch") || x.trim().starts_with("filter")) {
                        i += 1;
                    } else {
                        break;
                    }
                }
            }
            stmts.push(((self.block_start.len() - 1) as u32, s));
            i += 1;
        }
        let mut lastb = u32::MAX;
        let mut starts = vec![0u32; self.block_start.len()];
        for (b, s) in &stmts {
            if *b != lastb {
                starts[*b as usize] = self.code.len() as u32;
                lastb = *b;
                self.cur = *b;
            }
            let before = self.code.len();
            QUIET.with(|q| q.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.stmt(s)));
            QUIET.with(|q| q.set(false));
            if let Err(e) = r {
                let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.code.truncate(before);
                self.code.push(I::Bad(format!("{msg} :: {s}").into()));
            }
        }
        // blocks that contain only phis still need an instruction
        let mut edges = vec![];
        let es = std::mem::take(&mut self.edges);
        let names: HashMap<u32, String> = self.block_ix.iter().map(|(k, v)| (*v, k.clone())).collect();
        for (from, to) in es {
            let fname = &names[&from];
            let mut copies = vec![];
            for (dst, _ty, inc) in &self.phis[to as usize] {
                let (_, ops) = inc.iter().find(|(n, _)| n == fname).unwrap_or_else(|| panic!("phi without edge {fname}"));
                for (k, o) in ops.iter().enumerate() {
                    if *o != dst + k as u32 {
                        copies.push((dst + k as u32, *o));
                    }
                }
            }
            edges.push(Edge { target: starts[to as usize], copies });
        }
        Func { name: d.name.clone(), id: self.id, code: self.code, edges, consts: self.consts, nregs: self.nregs, args, nargs_slots: argslots, noreturn }
    }
    fn stmt(&mut self, s: &str) {
        let mut ps = Ps::new(s);
        let mut dst: Option<String> = None;
        if let Some(T::L(n)) = ps.peek() {
            if matches!(ps.t.get(1), Some(T::P(b'='))) {
                dst = Some(n.clone());
                ps.i = 2;
            }
        }
        let op = match ps.next() {
            T::W(w) => w,
            x => panic!("stmt {:?}", x),
        };
        let dn = dst.clone().unwrap_or_default();
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let o = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                while !ps.try_ty() {
                    ps.i += 1
                }
                let t = ps.ty();
                let a = self.val(&mut ps, &t);
                ps.exp_p(b',');
                let b = self.val(&mut ps, &t);
                let mut l = vec![];
                t.leaves(0, &mut l);
                let d = self.reg(&dn, t.nslots());
                for k in 0..a.len() {
                    self.code.push(I::Bin { op: o, w: l[k].1, a: a[k], b: b[k], d: d + k as u32 });
                }
            }
            "icmp" => {
                ps.eat_w("samesign");
                let p = match ps.next() {
                    T::W("eq") => Pred::Eq,
                    T::W("ne") => Pred::Ne,
                    T::W("ugt") => Pred::Ugt,
                    T::W("uge") => Pred::Uge,
                    T::W("ult") => Pred::Ult,
                    T::W("ule") => Pred::Ule,
                    T::W("sgt") => Pred::Sgt,
                    T::W("sge") => Pred::Sge,
                    T::W("slt") => Pred::Slt,
                    T::W("sle") => Pred::Sle,
                    x => panic!("icmp {:?}", x),
                };
                let t = ps.ty();
                let a = self.val(&mut ps, &t);
                ps.exp_p(b',');
                let b = self.val(&mut ps, &t);
                let mut l = vec![];
                t.leaves(0, &mut l);
                let d = self.reg(&dn, t.nslots());
                for k in 0..a.len() {
                    self.code.push(I::Icmp { p, w: l[k].1, a: a[k], b: b[k], d: d + k as u32 });
                }
            }
            "select" => {
                while !ps.try_ty() {
                    ps.i += 1
                }
                let (ct, c) = self.tval(&mut ps);
                ps.exp_p(b',');
                let (t, a) = self.tval(&mut ps);
                ps.exp_p(b',');
                let (_, b) = self.tval(&mut ps);
                let mut l = vec![];
                t.leaves(0, &mut l);
                let n = t.nslots();
                let d = self.reg(&dn, n);
                if let Ty::Vec(..) = ct {
                    for k in 0..n as usize {
                        self.code.push(I::Sel { c: c[k], a: a[k], b: b[k], d: d + k as u32, ws: Rc::new([l[k].1]), ptr: false });
                    }
                } else if n == 1 {
                    self.code.push(I::Sel { c: c[0], a: a[0], b: b[0], d, ws: Rc::new([l[0].1]), ptr: t == Ty::Ptr });
                } else {
                    for k in 0..n as usize {
                        self.code.push(I::Sel { c: c[0], a: a[k], b: b[k], d: d + k as u32, ws: Rc::new([l[k].1]), ptr: l[k].1 == 64 });
                    }
                }
            }
            "load" => {
                ps.eat_w("atomic");
                ps.eat_w("volatile");
                let t = ps.ty();
                ps.exp_p(b',');
                let (_, p) = self.tval(&mut ps);
                let mut l = vec![];
                t.leaves(0, &mut l);
                let d = self.reg(&dn, t.nslots());
                if let Ty::Vec(n, e) = &t {
                    if e.bits() % 8 != 0 {
                        // packed bits in memory: load an integer and split it
                        let w = *n as u32 * e.bits();
                        assert!(w <= 64);
                        let tmp = self.fresh(1);
                        self.code.push(I::Load1 { p: p[0], d: tmp, w });
                        let tw: Vec<u32> = l.iter().map(|x| x.1).collect();
                        self.code.push(I::Cast { d, a: vec![tmp as Op].into(), fw: vec![w].into(), tw: tw.into() });
                        return;
                    }
                }
                if l.len() == 1 && l[0].0 == 0 {
                    self.code.push(I::Load1 { p: p[0], d, w: l[0].1 });
                } else {
                    self.code.push(I::Load { p: p[0], d, leaves: l.into() });
                }
            }
            "store" => {
                ps.eat_w("atomic");
                ps.eat_w("volatile");
                let (t, v) = self.tval(&mut ps);
                ps.exp_p(b',');
                let (_, p) = self.tval(&mut ps);
                let mut l = vec![];
                t.leaves(0, &mut l);
                if let Ty::Vec(n, e) = &t {
                    if e.bits() % 8 != 0 {
                        let w = *n as u32 * e.bits();
                        assert!(w <= 64);
                        let tmp = self.fresh(1);
                        let fw: Vec<u32> = l.iter().map(|x| x.1).collect();
                        self.code.push(I::Cast { d: tmp, a: v.into(), fw: fw.into(), tw: vec![w].into() });
                        self.code.push(I::Store1 { p: p[0], v: tmp as Op, w });
                        return;
                    }
                }
                if l.len() == 1 && l[0].0 == 0 {
                    self.code.push(I::Store1 { p: p[0], v: v[0], w: l[0].1 });
                } else {
                    self.code.push(I::Store { p: p[0], v: v.into(), leaves: l.into() });
                }
            }
            "alloca" => {
                ps.eat_w("inalloca");
                let t = ps.ty();
                let mut n = self.k(64, [1, 0, 0, 0]);
                let mut al = t.align();
                while ps.eat_p(b',') {
                    if ps.eat_w("align") {
                        al = ps.num() as u64;
                    } else if ps.try_ty() {
                        let nt = ps.ty();
                        n = self.val1(&mut ps, &nt);
                    } else {
                        break;
                    }
                }
                let d = self.reg(&dn, 1);
                self.code.push(I::Alloca { d, size: t.size(), align: al, n });
            }
            "getelementptr" => {
                while !ps.try_ty() {
                    ps.i += 1;
                    if ps.is_p(b'(') {
                        ps.skip_group(b'(', b')')
                    }
                }
                let t = ps.ty();
                ps.exp_p(b',');
                let bt = ps.ty();
                let base = self.val1(&mut ps, &bt);
                let mut cur = t.clone();
                let mut off: u64 = 0;
                let mut terms = vec![];
                let mut firsti = true;
                while ps.eat_p(b',') {
                    if !ps.try_ty() {
                        break;
                    }
                    let it = ps.ty();
                    let v = self.val1(&mut ps, &it);
                    let w = it.bits();
                    let cval = if v & CONST != 0 {
                        match self.consts[(v & !CONST) as usize] {
                            K::Small(x) => Some(sx(x, w)),
                            _ => panic!("wide idx"),
                        }
                    } else {
                        None
                    };
                    if firsti {
                        firsti = false;
                        match cval {
                            Some(c) => off = off.wrapping_add((c as u64).wrapping_mul(cur.size())),
                            None => terms.push((v, cur.size(), w)),
                        }
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let (o, nt) = cur.field_off(cval.unwrap() as usize);
                                off = off.wrapping_add(o);
                                cur = nt;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                match cval {
                                    Some(c) => off = off.wrapping_add((c as u64).wrapping_mul(e.size())),
                                    None => terms.push((v, e.size(), w)),
                                }
                                let nt = (**e).clone();
                                cur = nt;
                            }
                            _ => panic!("gep into scalar"),
                        }
                    }
                }
                let d = self.reg(&dn, 1);
                self.code.push(I::Gep { d, base, off, terms: terms.into() });
            }
            "zext" | "sext" | "trunc" => {
                while !ps.try_ty() {
                    ps.i += 1
                }
                let (f, a) = self.tval(&mut ps);
                assert!(ps.eat_w("to"));
                let t = ps.ty();
                let (mut lf, mut lt) = (vec![], vec![]);
                f.leaves(0, &mut lf);
                t.leaves(0, &mut lt);
                let d = self.reg(&dn, t.nslots());
                for k in 0..a.len() {
                    let (fw, tw) = (lf[k].1, lt[k].1);
                    let dd = d + k as u32;
                    self.code.push(match op {
                        "zext" => I::Zext { d: dd, a: a[k], f: fw, t: tw },
                        "sext" => I::Sext { d: dd, a: a[k], f: fw, t: tw },
                        _ => I::Trunc { d: dd, a: a[k], f: fw, t: tw },
                    });
                }
            }
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                let (f, a) = self.tval(&mut ps);
                assert!(ps.eat_w("to"));
                let t = ps.ty();
                let d = self.reg(&dn, 1);
                let (fw, tw) = (f.bits(), t.bits());
                self.code.push(if fw == tw {
                    I::Copy1 { d, a: a[0] }
                } else if fw > tw {
                    I::Trunc { d, a: a[0], f: fw, t: tw }
                } else {
                    I::Zext { d, a: a[0], f: fw, t: tw }
                });
            }
            "bitcast" => {
                let (f, a) = self.tval(&mut ps);
                assert!(ps.eat_w("to"));
                let t = ps.ty();
                let (mut lf, mut lt) = (vec![], vec![]);
                f.leaves(0, &mut lf);
                t.leaves(0, &mut lt);
                let d = self.reg(&dn, t.nslots());
                let fw: Vec<u32> = lf.iter().map(|x| x.1).collect();
                let tw: Vec<u32> = lt.iter().map(|x| x.1).collect();
                self.code.push(I::Cast { d, a: a.into(), fw: fw.into(), tw: tw.into() });
            }
            "freeze" => {
                let (t, a) = self.tval(&mut ps);
                let d = self.reg(&dn, t.nslots());
                self.copy(d, a);
            }
            "extractvalue" => {
                let (t, a) = self.tval(&mut ps);
                let mut cur = t;
                let mut s0 = 0u32;
                while ps.eat_p(b',') {
                    if !matches!(ps.peek(), Some(T::N(..))) {
                        break;
                    }
                    let k = ps.num() as usize;
                    for q in 0..k {
                        s0 += cur.field_off(q).1.nslots();
                    }
                    cur = cur.field_off(k).1;
                }
                let n = cur.nslots();
                let d = self.reg(&dn, n);
                self.copy(d, a[s0 as usize..(s0 + n) as usize].to_vec());
            }
            "insertvalue" => {
                let (t, mut a) = self.tval(&mut ps);
                ps.exp_p(b',');
                let (_, v) = self.tval(&mut ps);
                let mut cur = t.clone();
                let mut s0 = 0u32;
                while ps.eat_p(b',') {
                    if !matches!(ps.peek(), Some(T::N(..))) {
                        break;
                    }
                    let k = ps.num() as usize;
                    for q in 0..k {
                        s0 += cur.field_off(q).1.nslots();
                    }
                    cur = cur.field_off(k).1;
                }
                for (k, x) in v.iter().enumerate() {
                    a[s0 as usize + k] = *x;
                }
                let d = self.reg(&dn, t.nslots());
                self.copy(d, a);
            }
            "extractelement" => {
                let (t, a) = self.tval(&mut ps);
                ps.exp_p(b',');
                let (_, i) = self.tval(&mut ps);
                let et = t.field_off(0).1;
                let d = self.reg(&dn, et.nslots());
                if i[0] & CONST != 0 {
                    let k = match self.consts[(i[0] & !CONST) as usize] {
                        K::Small(x) => x as usize,
                        _ => panic!(),
                    };
                    self.copy(d, vec![a[k]]);
                } else {
                    self.code.push(I::ExtractEl { d, v: a.into(), i: i[0] });
                }
            }
            "insertelement" => {
                let (t, mut a) = self.tval(&mut ps);
                ps.exp_p(b',');
                let (_, v) = self.tval(&mut ps);
                ps.exp_p(b',');
                let (_, i) = self.tval(&mut ps);
                assert!(i[0] & CONST != 0, "insertelement variable index");
                let k = match self.consts[(i[0] & !CONST) as usize] {
                    K::Small(x) => x as usize,
                    _ => panic!(),
                };
                a[k] = v[0];
                let d = self.reg(&dn, t.nslots());
                self.copy(d, a);
            }
            "shufflevector" => {
                let (_, a) = self.tval(&mut ps);
                ps.exp_p(b',');
                let (_, b) = self.tval(&mut ps);
                ps.exp_p(b',');
                let mt = ps.ty();
                let c = self.m.constant(&mut ps, &mt);
                let n = mt.nslots() as usize;
                let idx: Vec<usize> = match c {
                    C::Zero(_) => vec![0; n],
                    C::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            C::Int(_, v) => v[0] as usize,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!("mask"),
                };
                let mut out = vec![];
                for k in idx {
                    out.push(if k < a.len() { a[k] } else { b[k - a.len()] });
                }
                let d = self.reg(&dn, n as u32);
                self.copy(d, out);
            }
            "phi" => {
                while !ps.try_ty() {
                    ps.i += 1
                }
                let t = ps.ty();
                let d = self.reg(&dn, t.nslots());
                let mut inc = vec![];
                loop {
                    ps.exp_p(b'[');
                    let v = self.val(&mut ps, &t);
                    ps.exp_p(b',');
                    let b = match ps.next() {
                        T::L(n) => n,
                        x => panic!("phi {:?}", x),
                    };
                    ps.exp_p(b']');
                    inc.push((b, v));
                    if !ps.eat_p(b',') || !ps.is_p(b'[') {
                        break;
                    }
                }
                let cur = self.cur as usize;
                self.phis[cur].push((d, t, inc));
            }
            "br" => {
                if ps.is_w("label") {
                    let l = self.label(&mut ps);
                    let e = self.edge(l);
                    self.code.push(I::Br { e });
                } else {
                    let (_, c) = self.tval(&mut ps);
                    ps.exp_p(b',');
                    let a = self.label(&mut ps);
                    ps.exp_p(b',');
                    let b = self.label(&mut ps);
                    let t = self.edge(a);
                    let f = self.edge(b);
                    self.code.push(I::CBr { c: c[0], t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tval(&mut ps);
                ps.exp_p(b',');
                let dl = self.label(&mut ps);
                let def = self.edge(dl);
                ps.exp_p(b'[');
                let mut cases = vec![];
                while !ps.eat_p(b']') {
                    let ct = ps.ty();
                    let c = match self.m.constant(&mut ps, &ct) {
                        C::Int(w, v) => {
                            assert!(w <= 64);
                            v[0]
                        }
                        _ => panic!("case"),
                    };
                    ps.exp_p(b',');
                    let l = self.label(&mut ps);
                    let e = self.edge(l);
                    cases.push((c, e));
                }
                self.code.push(I::Switch { v: v[0], w: t.bits(), cases: cases.into(), def });
            }
            "ret" => {
                let t = ps.ty();
                let v = if t == Ty::Void { vec![] } else { self.val(&mut ps, &t) };
                self.code.push(I::Ret { v: v.into() });
            }
            "unreachable" => self.code.push(I::Unreachable),
            "fence" => {}
            "tail" | "musttail" | "notail" | "call" | "invoke" => self.call(&mut ps, op, dst),
            "landingpad" => {
                self.code.push(I::Bad("landingpad".into()));
            }
            "resume" => self.code.push(I::Bad("resume".into())),
            "atomicrmw" => {
                ps.eat_w("volatile");
                let o = match ps.next() {
                    T::W("xchg") => 0,
                    T::W("add") => 1,
                    T::W("sub") => 2,
                    T::W("and") => 3,
                    T::W("or") => 4,
                    T::W("xor") => 5,
                    T::W("umax") => 6,
                    T::W("umin") => 7,
                    x => panic!("atomicrmw {:?}", x),
                };
                let (_, p) = self.tval(&mut ps);
                ps.exp_p(b',');
                let (t, v) = self.tval(&mut ps);
                let d = self.reg(&dn, 1);
                self.code.push(I::Rmw { op: o, p: p[0], v: v[0], d, w: t.bits() });
            }
            "cmpxchg" => {
                ps.eat_w("weak");
                ps.eat_w("volatile");
                let (_, p) = self.tval(&mut ps);
                ps.exp_p(b',');
                let (t, c) = self.tval(&mut ps);
                ps.exp_p(b',');
                let (_, n) = self.tval(&mut ps);
                let d = self.reg(&dn, 2);
                self.code.push(I::CmpXchg { p: p[0], c: c[0], n: n[0], d, w: t.bits() });
            }
            "fcmp" | "fadd" | "fsub" | "fmul" | "fdiv" | "fneg" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "frem" => {
                self.code.push(I::Bad(format!("float op {op}").into()));
            }
            _ => panic!("unsupported instruction {op}"),
        }
    }
    fn copy(&mut self, d: u32, a: Vec<Op>) {
        if a.len() == 1 {
            self.code.push(I::Copy1 { d, a: a[0] });
        } else {
            self.code.push(I::Copy { d, a: a.into() });
        }
    }
    fn call(&mut self, ps: &mut Ps, op: &str, dst: Option<String>) {
        if matches!(op, "tail" | "musttail" | "notail") {
            assert!(ps.eat_w("call"));
        }
        let is_invoke = op == "invoke";
        // cconv / flags / ret attrs until type
        while !ps.try_ty() {
            match ps.next() {
                T::W(w) => {
                    if ps.is_p(b'(') {
                        ps.skip_group(b'(', b')')
                    } else if w == "align" || w == "cc" {
                        if let Some(T::N(..)) = ps.peek() {
                            ps.i += 1
                        }
                    }
                }
                x => panic!("call {:?}", x),
            }
        }
        let rt = ps.ty();
        if ps.is_p(b'(') {
            ps.skip_group(b'(', b')');
        }
        let mut name: Rc<str> = "".into();
        let mut asm = None;
        let callee_op;
        match ps.peek().cloned() {
            Some(T::G(n)) => {
                ps.i += 1;
                name = n.as_str().into();
                callee_op = None;
            }
            Some(T::L(n)) => {
                ps.i += 1;
                callee_op = Some(self.reg(&n, 1));
            }
            Some(T::W("asm")) => {
                ps.i += 1;
                let mut body = None;
                while !ps.is_p(b'(') {
                    if let T::S(b) = ps.next() {
                        if body.is_none() {
                            body = Some(b)
                        }
                    }
                    ps.eat_p(b',');
                }
                let b = body.unwrap_or_default();
                let st = String::from_utf8_lossy(&b).into_owned();
                let tr = st.trim();
                asm = Some(tr.is_empty() || (tr.starts_with("/*") && tr.ends_with("*/")));
                callee_op = None;
            }
            Some(_) => {
                let c = self.m.constant(ps, &Ty::Ptr);
                match c {
                    C::Addr(a) => callee_op = Some(self.k(64, [a, 0, 0, 0])),
                    x => panic!("callee {:?}", x),
                }
            }
            None => panic!("callee"),
        }
        ps.exp_p(b'(');
        let mut args = vec![];
        let mut argw = vec![];
        while !ps.eat_p(b')') {
            let t = ps.ty();
            if t != Ty::Other {
                // attributes
                loop {
                    match ps.peek() {
                        Some(T::W(w)) if !is_value_word(w) => {
                            if *w == "byval" {
                                panic!("byval arg");
                            }
                            ps.i += 1;
                            if ps.is_p(b'(') {
                                ps.skip_group(b'(', b')')
                            } else if let (Some(T::N(..)), Some(T::W("align"))) = (ps.peek(), ps.t.get(ps.i - 1)) {
                                ps.i += 1
                            }
                        }
                        Some(T::S(_)) if !matches!(t, Ty::Arr(..)) => {
                            ps.i += 1;
                            if ps.eat_p(b'=') {
                                ps.i += 1
                            }
                        }
                        _ => break,
                    }
                }
            }
            let v = self.val(ps, &t);
            let mut l = vec![];
            t.leaves(0, &mut l);
            for (k, x) in v.iter().enumerate() {
                args.push(*x);
                argw.push(l[k].1);
            }
            ps.eat_p(b',');
        }
        let mut next = 0;
        if is_invoke {
            while !(ps.is_w("to") && matches!(ps.t.get(ps.i + 1), Some(T::W("label")))) {
                ps.i += 1
            }
            ps.i += 1;
            let l = self.label(ps);
            next = self.edge(l) + 1;
        }
        let n = rt.nslots();
        let d = match (&dst, n) {
            (Some(x), n) => self.reg(x, n),
            (None, 0) => 0,
            (None, n) => {
                // discarded result
                let s = self.nregs;
                self.nregs += n;
                s
            }
        };
        let mut rl = vec![];
        rt.leaves(0, &mut rl);
        let rw: Vec<u32> = rl.iter().map(|x| x.1).collect();
        if let Some(nop) = asm {
            let callee = if nop { Callee::AsmNop } else { Callee::AsmBad };
            self.code.push(I::Call(Rc::new(CallI { callee, args, argw, d, rw, next, name: "asm".into() })));
            return;
        }
        let callee = if let Some(o) = callee_op {
            Callee::Ind(o)
        } else if name.starts_with("llvm.") {
            let it = intrinsic(&name);
            // elementwise expansion of vector intrinsics
            let elementwise = matches!(it, Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax | Intr::Ctpop | Intr::Bswap | Intr::Fshl | Intr::Fshr | Intr::UsubSat | Intr::UaddSat | Intr::Cttz | Intr::Ctlz | Intr::Abs | Intr::Bitrev);
            if elementwise && n > 1 {
                let flagged = matches!(it, Intr::Cttz | Intr::Ctlz | Intr::Abs);
                let na = if flagged { (args.len() - 1) / n as usize } else { args.len() / n as usize };
                for k in 0..n as usize {
                    let mut a: Vec<Op> = (0..na).map(|q| args[q * n as usize + k]).collect();
                    let mut aw: Vec<u32> = (0..na).map(|q| argw[q * n as usize + k]).collect();
                    if flagged {
                        a.push(*args.last().unwrap());
                        aw.push(1);
                    }
                    self.code.push(I::Call(Rc::new(CallI { callee: Callee::Intr(it), args: a, argw: aw, d: d + k as u32, rw: vec![rw[k]], next: 0, name: name.clone() })));
                }
                return;
            }
            Callee::Intr(it)
        } else {
            let mut nm = name.clone();
            while let Some(t) = self.m.aliases.get(&nm) {
                nm = t.clone();
            }
            let id = *self.m.fn_ix.get(&nm).unwrap_or_else(|| panic!("callee @{nm}"));
            Callee::Fn(id)
        };
        if let Callee::Intr(Intr::Nop) = callee {
            if next != 0 {
                self.code.push(I::Br { e: next - 1 });
            }
            return;
        }
        self.code.push(I::Call(Rc::new(CallI { callee, args, argw, d, rw, next, name })));
    }
}

fn intrinsic(n: &str) -> Intr {
    let s = &n[5..];
    let p = |x: &str| s.starts_with(x);
    if p("lifetime") || p("experimental.noalias") || p("assume") || p("dbg.") || p("prefetch") || p("donothing") || p("x86.sse2.pause") || p("invariant.") || p("sideeffect") || p("pseudoprobe") {
        return Intr::Nop;
    }
    if p("memcpy") || p("memmove") {
        return Intr::Memcpy;
    }
    if p("memset") {
        return Intr::Memset;
    }
    if p("fshl") {
        return Intr::Fshl;
    }
    if p("fshr") {
        return Intr::Fshr;
    }
    if p("umin.") {
        return Intr::UMin;
    }
    if p("umax.") {
        return Intr::UMax;
    }
    if p("smin.") {
        return Intr::SMin;
    }
    if p("smax.") {
        return Intr::SMax;
    }
    if p("cttz") {
        return Intr::Cttz;
    }
    if p("ctlz") {
        return Intr::Ctlz;
    }
    if p("ctpop") {
        return Intr::Ctpop;
    }
    if p("bswap") {
        return Intr::Bswap;
    }
    if p("bitreverse") {
        return Intr::Bitrev;
    }
    if p("uadd.with") {
        return Intr::UaddO;
    }
    if p("usub.with") {
        return Intr::UsubO;
    }
    if p("umul.with") {
        return Intr::UmulO;
    }
    if p("sadd.with") {
        return Intr::SaddO;
    }
    if p("ssub.with") {
        return Intr::SsubO;
    }
    if p("smul.with") {
        return Intr::SmulO;
    }
    if p("usub.sat") {
        return Intr::UsubSat;
    }
    if p("uadd.sat") {
        return Intr::UaddSat;
    }
    if p("sadd.sat") {
        return Intr::SaddSat;
    }
    if p("ssub.sat") {
        return Intr::SsubSat;
    }
    if p("abs.") {
        return Intr::Abs;
    }
    if p("scmp") {
        return Intr::Scmp;
    }
    if p("ucmp") {
        return Intr::Ucmp;
    }
    if p("is.constant") {
        return Intr::IsConst;
    }
    if p("expect") {
        return Intr::Expect;
    }
    if p("threadlocal.address") {
        return Intr::Tls;
    }
    if p("trap") || p("ubsantrap") || p("debugtrap") {
        return Intr::Trap;
    }
    if p("vector.reduce.or") {
        return Intr::ReduceOr;
    }
    if p("vector.reduce.and") {
        return Intr::ReduceAnd;
    }
    if p("vector.reduce.add") {
        return Intr::ReduceAdd;
    }
    Intr::Bad
}
