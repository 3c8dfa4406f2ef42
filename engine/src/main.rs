//! symx: symbolic execution of LLVM IR with an SMT back end.
//!
//! usage: symx --ll FILE --entry NAME --out DIR [--jobs N] [--time SECONDS] [--seed N] [--samples N]
//!             [--dump N] [--trace]
//!
//! One process explores the path tree depth first; whenever fewer than --jobs processes are
//! active it forks (the operating system's fork) and hands half of its pending states to the child.
//! Results: DIR/result.json, DIR/viol-*.txt (inputs of violating paths), DIR/sample-*.txt.
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getpid() -> i32;
}

#[repr(C)]
struct Shared {
    active: AtomicU64,
    procs: AtomicU64,
    viol: AtomicU64,
    known: AtomicU64,
    stop: AtomicU64,
}

struct Opt {
    ll: String,
    entry: String,
    out: String,
    jobs: u64,
    time: u64,
    seed: u64,
    samples: usize,
    dump: u64,
    trace: bool,
    maxviol: u64,
    known: Vec<String>,
    prof: bool,
    max_paths: u64,
}

fn opts() -> Opt {
    let mut o = Opt {
        ll: String::new(),
        entry: String::new(),
        out: String::new(),
        jobs: 8,
        time: 600,
        seed: 1,
        samples: 3,
        dump: 0,
        trace: false,
        maxviol: 6,
        known: vec![],
        prof: false,
        max_paths: u64::MAX,
    };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("option value");
        match k.as_str() {
            "--ll" => o.ll = v(),
            "--entry" => o.entry = v(),
            "--out" => o.out = v(),
            "--jobs" => o.jobs = v().parse().unwrap(),
            "--time" => o.time = v().parse().unwrap(),
            "--seed" => o.seed = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--dump" => o.dump = v().parse().unwrap(),
            "--known" => o.known = v().split(',').filter(|s| !s.is_empty()).map(String::from).collect(),
            "--max-viol" => o.maxviol = v().parse().unwrap(),
            "--max-paths" => o.max_paths = v().parse().unwrap(),
            "--trace" => o.trace = true,
            "--prof" => o.prof = true,
            _ => panic!("unknown option {k}"),
        }
    }
    o
}

#[derive(Default)]
struct Part {
    n: BTreeMap<&'static str, u64>,
    errors: BTreeMap<String, u64>,
    reach: u64,
    viol: Vec<String>,
    prof: Vec<(String, u64)>,
}

struct Worker<'m> {
    x: Ctx<'m>,
    o: &'m Opt,
    sh: &'static Shared,
    p: Part,
    t0: Instant,
    rng: u64,
    nsample: u64,
    samples: Vec<(Vec<String>, Vec<String>, Vec<(String, String)>, String)>,
}

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 > 126 => r.push(' '),
            c => r.push(c),
        }
    }
    r
}

impl<'m> Worker<'m> {
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    fn err(&mut self, m: String) {
        *self.p.errors.entry(m.chars().take(600).collect()).or_insert(0) += 1;
    }
    fn write_case(&self, name: &str, head: &str, c: &(Vec<String>, Vec<String>, Vec<(String, String)>, String)) -> String {
        let path = format!("{}/{}", self.o.out, name);
        let mut t = String::new();
        let _ = writeln!(t, "# {}", head.replace('\n', " "));
        let _ = writeln!(t, "entry {}", self.o.entry);
        for l in &c.0 {
            let _ = writeln!(t, "{l}");
        }
        for l in &c.1 {
            let _ = writeln!(t, "o {l}");
        }
        for (a, b) in &c.2 {
            let _ = writeln!(t, "h {a} {b}");
        }
        let _ = writeln!(t, "end {}", c.3);
        std::fs::write(&path, t).expect("write case");
        path
    }
    fn violation(&mut self, s: &State, msg: &str) {
        match self.x.full_model(s, None) {
            Ok(Some(m)) => {
                let w = self.x.witness(s, &m);
                if self.o.known.iter().any(|k| msg.starts_with(&format!("assertion {k} "))) {
                    // recorded (two of them), but the search goes on
                    let k = self.sh.known.fetch_add(1, SeqCst);
                    if k < 2 {
                        let path = self.write_case(&format!("known-{k}.txt"), msg, &(w.0, w.1, w.2, "violation".into()));
                        self.p.viol.push(format!("{path}\t{}", msg.replace(['\n', '\t'], " ")));
                    }
                    return;
                }
                let k = self.sh.viol.fetch_add(1, SeqCst);
                if k < self.o.maxviol {
                    let name = format!("viol-{k}.txt");
                    let path = self.write_case(&name, msg, &(w.0, w.1, w.2, "violation".into()));
                    self.p.viol.push(format!("{path}\t{}", msg.replace(['\n', '\t'], " ")));
                }
                if k + 1 >= self.o.maxviol {
                    self.sh.stop.store(1, SeqCst);
                }
            }
            Ok(None) => self.err(format!("path condition of a violation is unsatisfiable: {msg}")),
            Err(e) => self.err(format!("{e} (for: {msg})")),
        }
    }
    fn take_soft(&mut self) {
        let v = std::mem::take(&mut self.x.violations);
        for (m, s) in v {
            let bt = self.x.backtrace(&s);
            self.violation(&s, &format!("{m} [{bt}]"));
        }
    }
    fn sample(&mut self, s: &State, how: &str) {
        self.nsample += 1;
        let k = self.samples.len();
        let slot = if k < self.o.samples {
            k
        } else {
            let r = (self.rnd() % self.nsample) as usize;
            if r >= self.o.samples {
                return;
            }
            r
        };
        match self.x.full_model(s, None) {
            Ok(Some(m)) => {
                let w = self.x.witness(s, &m);
                let c = (w.0, w.1, w.2, how.to_string());
                if slot == k {
                    self.samples.push(c)
                } else {
                    self.samples[slot] = c
                }
            }
            Ok(None) => self.err("path condition of a completed path is unsatisfiable".into()),
            Err(e) => self.err(e),
        }
    }
    fn explore(&mut self, first: State) {
        let mut stack: Vec<State> = vec![first];
        while let Some(mut s) = stack.pop() {
            // run one path to its end
            let end = loop {
                let r = self.x.run(&mut s);
                if !self.x.new.is_empty() {
                    stack.append(&mut self.x.new);
                }
                if !self.x.violations.is_empty() {
                    self.take_soft();
                }
                if self.sh.stop.load(SeqCst) != 0 {
                    break End::Infeasible;
                }
                match r {
                    None => {
                        if self.t0.elapsed().as_secs() > self.o.time {
                            break End::Error("time limit reached".into());
                        }
                        if stack.len() > 0 && self.sh.active.load(SeqCst) < self.o.jobs {
                            self.split(&mut stack);
                        }
                    }
                    Some(e) => break e,
                }
            };
            if self.sh.stop.load(SeqCst) != 0 {
                *self.p.n.entry("abandoned").or_insert(0) += 1 + stack.len() as u64;
                return;
            }
            match end {
                End::Done => {
                    if self.x.full_feasible(&s) {
                        self.x.stats.paths += 1;
                        self.p.reach |= s.reach;
                        self.sample(&s, "done");
                    }
                }
                End::Infeasible => self.x.stats.infeasible += 1,
                End::Panic(m) => {
                    if s.expect_panic {
                        self.x.stats.paths += 1;
                        self.p.reach |= s.reach;
                        *self.p.n.entry("expected_panics").or_insert(0) += 1;
                        self.sample(&s, "panic");
                    } else {
                        self.violation(&s, &m)
                    }
                }
                End::Violation(m) => self.violation(&s, &m),
                End::Error(m) => {
                    let t = m.starts_with("time limit");
                    self.err(m);
                    if t {
                        *self.p.n.entry("abandoned").or_insert(0) += 1 + stack.len() as u64;
                        return;
                    }
                }
            }
            if self.x.stats.paths >= self.o.max_paths {
                *self.p.n.entry("abandoned").or_insert(0) += stack.len() as u64;
                self.err("path limit".into());
                return;
            }
        }
    }
    fn split(&mut self, stack: &mut Vec<State>) {
        // claim a slot
        let a = self.sh.active.load(SeqCst);
        if a >= self.o.jobs || self.sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() {
            return;
        }
        self.sh.procs.fetch_add(1, SeqCst);
        let pid = unsafe { fork() };
        if pid < 0 {
            self.sh.active.fetch_sub(1, SeqCst);
            self.sh.procs.fetch_sub(1, SeqCst);
            return;
        }
        // interleave: parent keeps even positions, child takes odd ones from the old end
        let k = stack.len().div_ceil(2);
        if pid == 0 {
            stack.truncate(k);
            let mine = std::mem::take(stack);
            self.p = Part::default();
            self.x.stats = Stats::default();
            self.x.z.queries = 0;
            self.x.z.cached = 0;
            self.x.z.ns = 0;
            self.x.z.sat = 0;
            self.x.z.unsat = 0;
            self.x.fork_sites.clear();
            if let Some(d) = &mut self.x.z.dump {
                d.clear()
            }
            self.samples.clear();
            self.nsample = 0;
            self.rng ^= (unsafe { getpid() } as u64) << 20;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                for s in mine {
                    self.pending_run(s);
                }
                self.finish();
            }));
            self.sh.active.fetch_sub(1, SeqCst);
            unsafe { _exit(if r.is_ok() { 0 } else { 101 }) }
        } else {
            stack.drain(..k);
        }
    }
    fn pending_run(&mut self, s: State) {
        if self.sh.stop.load(SeqCst) != 0 {
            *self.p.n.entry("abandoned").or_insert(0) += 1;
            return;
        }
        if self.t0.elapsed().as_secs() > self.o.time {
            self.err("time limit reached".into());
            *self.p.n.entry("abandoned").or_insert(0) += 1;
            return;
        }
        self.explore(s)
    }
    fn finish(&mut self) {
        let st = self.x.stats.clone();
        let z = &self.x.z;
        let p = &mut self.p;
        for (k, v) in [
            ("paths", st.paths),
            ("forks", st.forks),
            ("assumed_away", st.assumed_away),
            ("infeasible", st.infeasible),
            ("instructions", st.instrs),
            ("symbolic_branches", st.branches),
            ("asserts", st.asserts),
            ("asserts_solver", st.asserts_solver),
            ("asserts_rewrite", st.asserts_rewrite),
            ("asserts_concrete", st.asserts_concrete),
            ("hashes", st.hashes),
            ("queries", z.queries),
            ("queries_cached", z.cached),
            ("queries_sat", z.sat),
            ("queries_unsat", z.unsat),
            ("solver_us", (z.ns / 1000) as u64),
            ("arena_nodes", self.x.ar.nodes.len() as u64),
        ] {
            *p.n.entry(k).or_insert(0) += v;
        }
        let pid = unsafe { getpid() };
        let mut t = String::new();
        for (k, v) in &p.n {
            let _ = writeln!(t, "n\t{k}\t{v}");
        }
        for (e, k) in &p.errors {
            let _ = writeln!(t, "e\t{k}\t{}", e.replace(['\n', '\t'], " "));
        }
        let _ = writeln!(t, "r\t{}", p.reach);
        for v in &p.viol {
            let _ = writeln!(t, "v\t{v}");
        }
        for (i, f) in self.x.called.iter().enumerate() {
            if *f {
                let _ = writeln!(t, "f\t{i}");
            }
        }
        for ((f, pc), k) in &self.x.fork_sites {
            let _ = writeln!(t, "k\t{f}\t{pc}\t{k}");
        }
        let smp = std::mem::take(&mut self.samples);
        for (i, c) in smp.iter().enumerate() {
            let path = self.write_case(&format!("sample-{pid}-{i}.txt"), "completed path", c);
            let _ = writeln!(t, "s\t{path}");
        }
        if let Some(d) = &self.x.z.dump {
            for (i, (q, sat)) in d.iter().enumerate() {
                let path = format!("{}/query-{pid}-{i}.{}.smt2", self.o.out, if *sat { "sat" } else { "unsat" });
                let _ = std::fs::write(path, format!("(set-logic QF_BV)\n{q}\n(check-sat)\n"));
            }
        }
        std::fs::write(format!("{}/part-{pid}.txt", self.o.out), t).expect("write part");
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(101));
}

fn real_main() -> i32 {
    let o: &'static Opt = Box::leak(Box::new(opts()));
    let t0 = Instant::now();
    std::panic::set_hook(Box::new(|i| {
        if !ir::QUIET.with(|q| q.get()) {
            eprintln!("symx: {i}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let _ = std::fs::remove_dir_all(&o.out);
    std::fs::create_dir_all(&o.out).expect("create out dir");
    let text: &'static str = Box::leak(std::fs::read_to_string(&o.ll).expect("read ll").into_boxed_str());
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(text)));
    let load_s = t0.elapsed().as_secs_f64();
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const Shared)
    };
    unsafe { prctl(36, 1, 0, 0, 0) };
    sh.active.store(1, SeqCst);
    sh.procs.store(1, SeqCst);
    let pid = unsafe { fork() };
    if pid == 0 {
        let r = std::panic::catch_unwind(|| {
            let mut x = Ctx::new(m);
            x.trace = o.trace;
            x.track_forks = o.prof;
            if o.dump > 0 {
                x.z.dump = Some(vec![]);
                x.z.dump_every = o.dump;
            }
            let mut w = Worker { x, o, sh, p: Part::default(), t0, rng: o.seed.wrapping_mul(0x9e3779b97f4a7c15) | 1, nsample: 0, samples: vec![] };
            match w.x.start(&o.entry) {
                Ok(s) => w.explore(s),
                Err(e) => w.err(e),
            }
            w.finish();
        });
        sh.active.fetch_sub(1, SeqCst);
        unsafe { _exit(if r.is_ok() { 0 } else { 101 }) }
    }
    let mut bad = 0;
    loop {
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p < 0 {
            break;
        }
        if st != 0 {
            bad += 1;
            sh.stop.store(1, SeqCst);
        }
    }
    // merge
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut errors: BTreeMap<String, u64> = BTreeMap::new();
    let mut reach = 0u64;
    let mut viol: Vec<(String, String)> = vec![];
    let mut fns: BTreeSet<usize> = BTreeSet::new();
    let mut samples = vec![];
    let mut sites: BTreeMap<(u32, u32), u64> = BTreeMap::new();
    let mut parts = 0;
    for e in std::fs::read_dir(&o.out).unwrap() {
        let p = e.unwrap().path();
        let name = p.file_name().unwrap().to_string_lossy().into_owned();
        if !name.starts_with("part-") {
            continue;
        }
        parts += 1;
        for l in std::fs::read_to_string(&p).unwrap().lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "n" => {
                    let v: u64 = f[2].parse().unwrap();
                    let q = n.entry(f[1].to_string()).or_insert(0);
                    if f[1] == "arena_nodes" {
                        *q = (*q).max(v)
                    } else {
                        *q += v
                    }
                }
                "e" => *errors.entry(f[2].to_string()).or_insert(0) += f[1].parse::<u64>().unwrap(),
                "r" => reach |= f[1].parse::<u64>().unwrap(),
                "v" => viol.push((f[1].to_string(), f[2].to_string())),
                "f" => {
                    fns.insert(f[1].parse().unwrap());
                }
                "k" => *sites.entry((f[1].parse().unwrap(), f[2].parse().unwrap())).or_insert(0) += f[3].parse::<u64>().unwrap(),
                "s" => samples.push(f[1].to_string()),
                _ => {}
            }
        }
        let _ = std::fs::remove_file(&p);
    }
    if bad > 0 || parts != sh.procs.load(SeqCst) {
        *errors.entry(format!("{bad} worker processes failed, {parts} of {} reported", sh.procs.load(SeqCst))).or_insert(0) += 1;
    }
    samples.sort();
    let mut j = String::new();
    let _ = writeln!(j, "{{\"entry\":\"{}\",\"z3\":\"{}\",\"load_s\":{:.2},\"wall_s\":{:.2},\"processes\":{},", o.entry, z3::version(), load_s, t0.elapsed().as_secs_f64(), parts);
    let _ = writeln!(j, "\"n\":{{{}}},", n.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
    let _ = writeln!(j, "\"reach\":{reach},");
    let _ = writeln!(j, "\"errors\":[{}],", errors.iter().map(|(k, v)| format!("[\"{}\",{v}]", esc(k))).collect::<Vec<_>>().join(",\n"));
    let _ = writeln!(j, "\"violations\":[{}],", viol.iter().map(|(k, v)| format!("[\"{}\",\"{}\"]", esc(k), esc(v))).collect::<Vec<_>>().join(",\n"));
    let _ = writeln!(j, "\"samples\":[{}],", samples.iter().map(|k| format!("\"{}\"", esc(k))).collect::<Vec<_>>().join(","));
    let _ = writeln!(j, "\"functions\":[{}]}}", fns.iter().map(|i| format!("\"{}\"", esc(&m.fns[*i].name))).collect::<Vec<_>>().join(",\n"));
    std::fs::write(format!("{}/result.json", o.out), &j).unwrap();
    if o.prof {
        let mut v: Vec<_> = sites.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for ((f, pc), k) in v.into_iter().take(25) {
            eprintln!("{k:8} forks at {}:{pc}", m.fns[f as usize].name);
        }
    }
    eprintln!(
        "{}: {} paths, {} forks, {} queries ({:.1} s solver), {} instrs, {} violations, {} errors, {:.1} s, {} procs, arena {}",
        o.entry,
        n.get("paths").unwrap_or(&0),
        n.get("forks").unwrap_or(&0),
        n.get("queries").unwrap_or(&0),
        *n.get("solver_us").unwrap_or(&0) as f64 / 1e6,
        n.get("instructions").unwrap_or(&0),
        viol.len(),
        errors.values().sum::<u64>(),
        t0.elapsed().as_secs_f64(),
        parts,
        n.get("arena_nodes").unwrap_or(&0),
    );
    for (e, k) in errors.iter().take(8) {
        eprintln!("  error x{k}: {e}");
    }
    for (p, v) in viol.iter().take(8) {
        eprintln!("  violation: {v} -> {p}");
    }
    if !errors.is_empty() {
        2
    } else if !viol.is_empty() {
        1
    } else {
        0
    }
}
