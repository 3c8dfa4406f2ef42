#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property by symbolic execution of the real crate.

Builds the engine (engine/), the harness crate (harness/, which depends on /repo) to LLVM IR and to
a native replay binary, runs symx on each harness entry of the property, replays sampled paths and
every counterexample natively, writes evidence/ID.json. Exit 0 held, 1 violated, 2 could not decide.
"""
import sys, os, re, json, subprocess, hashlib, time, shutil, fcntl, glob, concurrent.futures as cf

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
ENG = os.path.join(BUILD, "engine")
HAR = os.path.join(BUILD, "harness")
LL = os.path.join(BUILD, "harness.ll")
JOBS = 8
sys.path.insert(0, ROOT)

def die(m):
    print(f"ERROR: {m}", flush=True)
    sys.exit(2)

def env(target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_PROFILE_RELEASE_OPT_LEVEL"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0", RUSTFLAGS="--cfg jmt_verif")
    return e

def sh(cmd, cwd, target, what):
    r = subprocess.run(cmd, cwd=cwd, env=env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        die(f"{what} failed")
    return r.stdout

def tree_hash(dirs, files=()):
    h = hashlib.sha256()
    for d in dirs:
        for base, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(base, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0" + open(p, "rb").read() + b"\0")
    for p in files:
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()

def stamp_ok(name, h, outs):
    p = os.path.join(BUILD, name)
    return os.path.exists(p) and open(p).read() == h and all(os.path.exists(o) for o in outs)

def stamp(name, h):
    with open(os.path.join(BUILD, name), "w") as f:
        f.write(h)

def harness_bin(profile):
    return os.path.join(HAR + "-" + profile, profile, "harness")

def build(profiles=("replay",)):
    """(re)builds whatever does not match the current sources; returns seconds spent"""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        eh = tree_hash([os.path.join(ROOT, "engine")])
        symx = os.path.join(ENG, "release", "symx")
        hh = tree_hash([os.path.join(ROOT, "harness"), os.path.join(ROOT, "symrt"), os.path.join(REPO, "src")], [os.path.join(REPO, "Cargo.toml")])
        def engine():
            if not stamp_ok("engine.stamp", eh, [symx]):
                sh(["cargo", "build", "--release", "--offline", "-q"], os.path.join(ROOT, "engine"), ENG, "engine build")
                stamp("engine.stamp", eh)
        har = os.path.join(ROOT, "harness")
        def ir():
            if stamp_ok("ir.stamp", hh, [LL]):
                return
            # never trust modification times: a checkout may carry any
            subprocess.run(["cargo", "clean", "--offline", "-q", "--release", "-p", "jmt", "-p", "harness", "-p", "symrt"], cwd=har, env=env(HAR), capture_output=True)
            for f in glob.glob(os.path.join(HAR, "release", "deps", "harness-*")):
                os.remove(f)
            sh(["cargo", "rustc", "--offline", "--release", "-q", "--bin", "harness", "--", "--emit=llvm-ir", "-C", "save-temps"], har, HAR, "harness build")
            bc = glob.glob(os.path.join(HAR, "release", "deps", "harness-*.lto.input.bc"))
            if len(bc) != 1:
                die(f"expected one linked bitcode file, found {bc}")
            sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env(HAR), capture_output=True, text=True).stdout.strip()
            dis = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis")
            sh([dis, bc[0], "-o", LL + ".tmp"], ROOT, HAR, "llvm-dis")
            os.rename(LL + ".tmp", LL)
            for f in glob.glob(os.path.join(HAR, "release", "deps", "harness-*.rcgu.*")):
                os.remove(f)
            stamp("ir.stamp", hh)
        def native(profile):
            t = HAR + "-" + profile
            if stamp_ok(profile + ".stamp", hh, [harness_bin(profile)]):
                return
            subprocess.run(["cargo", "clean", "--offline", "-q", "--profile", profile, "-p", "jmt", "-p", "harness", "-p", "symrt"], cwd=har, env=env(t), capture_output=True)
            sh(["cargo", "build", "--offline", "-q", "--profile", profile], har, t, f"native {profile} build")
            stamp(profile + ".stamp", hh)
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(engine), ex.submit(ir)] + [ex.submit(native, p) for p in profiles]
            for f in fs:
                try:
                    f.result()
                except SystemExit:
                    os._exit(2)
    return time.time() - t0

def replay(profile, case, table=False, timeout=60):
    """0 as predicted, 1 reproduced violation, 3 diverged"""
    cmd = [harness_bin(profile), case] + (["table"] if table else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=BUILD)
    except subprocess.TimeoutExpired:
        return 1, "REPLAY does not end"
    out = r.stdout.decode("utf8", "replace")
    if r.returncode < 0:
        return 1, out + f"REPLAY killed by signal {-r.returncode}"
    return r.returncode, out

def main():
    from checks import CHECKS
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    if pid == "setup":
        print("built in %.1f s" % build(("replay", "replayopt")))
        return 0
    spec = CHECKS[pid]
    entries = spec["entries"][tier]
    bt = build()
    outdir = os.path.join(BUILD, "out", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    known = []
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "known"]
    total = {}
    functions, errors, ran, viol, samples = set(), [], [], [], []
    known_hit = {}
    limit = 780 if tier == "quick" else 6 * 3600
    for e in entries:
        name, opts = (e, {}) if isinstance(e, str) else e
        left = limit - (time.time() - t0)
        tl = int(min(opts.get("time", left), left))
        if tl < 5:
            errors.append(f"{name}: no time left")
            break
        out = os.path.join(outdir, name)
        cmd = [os.path.join(ENG, "release", "symx"), "--ll", LL, "--entry", name, "--out", out, "--jobs", str(JOBS), "--time", str(tl),
               "--seed", str(seed), "--samples", str(opts.get("samples", 2)), "--max-viol", "8", "--dump", str(opts.get("dump", 400)),
               "--known", ",".join(str(t) for k in known if k["entry"] == name for t in k["tags"])]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tl + 90)
            log = p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-9", "-f", os.path.join(ENG, "release", "symx")])
            errors.append(f"{name}: engine did not stop in time")
            continue
        with open(os.path.join(outdir, name + ".log"), "w") as f:
            f.write(log)
        rf = os.path.join(out, "result.json")
        if not os.path.exists(rf):
            errors.append(f"{name}: no result: {log[-400:]}")
            continue
        r = json.load(open(rf))
        for k, v in r["n"].items():
            total[k] = max(total.get(k, 0), v) if k == "arena_nodes" else total.get(k, 0) + v
        functions.update(r["functions"])
        for m, k in r["errors"]:
            errors.append(f"{name}: {m} (x{k})")
        want = opts.get("reach", 1)
        if not r["violations"] and not r["errors"] and (r["reach"] & want) != want:
            errors.append(f"{name}: vacuous: reached {r['reach']:#x}, required {want:#x}")
        ran.append(dict(entry=name, bounds=opts.get("bounds", ""), paths=r["n"].get("paths", 0), queries=r["n"].get("queries", 0),
                        solver_s=round(r["n"].get("solver_us", 0) / 1e6, 2), instructions=r["n"].get("instructions", 0),
                        asserts=r["n"].get("asserts", 0), wall_s=r["wall_s"]))
        # counterexamples: replay against the real code
        for path, msg in r["violations"]:
            k = next((k for k in known if k["entry"] == name and any(f"assertion {t} " in msg + " " for t in k["tags"])), None)
            ok, how = False, ""
            for profile in ("replay", "replayopt"):
                if profile == "replayopt":
                    build(("replay", "replayopt"))
                for table in (False, True):
                    c, o = replay(profile, path, table)
                    if c == 1:
                        ok, how = True, o
                        break
                if ok:
                    break
            if not ok:
                errors.append(f"{name}: counterexample did not reproduce natively: {msg}")
                continue
            if k:
                known_hit[k["id"]] = k
                continue
            keep = os.path.join(ROOT, "replays")
            os.makedirs(keep, exist_ok=True)
            dst = os.path.join(keep, f"{pid}-{name}-{len(viol)}.txt")
            shutil.copy(path, dst)
            viol.append((name, msg, dst, how.strip().splitlines()[0] if how.strip() else ""))
        samples += [(name, x) for x in r["samples"]]
        if viol:
            break
    # traces of completed paths, run natively
    validated, mismatch, shown = 0, [], []
    def val(x):
        name, path = x
        c, o = replay("replay", path)
        if c == 3:
            c2, o2 = replay("replay", path, True)
            if c2 == 0:
                c, o = c2, o2
        return name, path, c, o
    samples = samples[:400]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for name, path, c, o in ex.map(val, samples):
            if c == 0:
                validated += 1
                if len(shown) < 3:
                    shown.append(dict(entry=name, case=open(path).read().splitlines()[1:30], native=o.strip().splitlines()[-1]))
            else:
                mismatch.append((name, path, o.strip().splitlines()[0] if o.strip() else ""))
    for name, path, o in mismatch[:5]:
        errors.append(f"{name}: native run of a sampled path disagrees: {path}: {o}")
    # second opinion on dumped queries
    agree, disagree = second_opinion(outdir, seed, 12 if tier == "quick" else 60)
    for d in disagree:
        errors.append(f"solver disagreement on {d}")
    names = demangle(sorted(functions))
    own = [n for n in names if n.startswith(("jmt::", "<jmt::"))]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", violations=len(viol), wall_s=round(time.time() - t0, 1),
        assumptions=ASSUME + spec.get("assume", []),
        coverage=dict(states=total.get("paths", 0), transitions=total.get("instructions", 0), traces_validated_against_impl=validated,
            samples=shown or [dict(entry=n, counterexample=m) for n, m, _, _ in viol[:3]],
            explanation="states = complete symbolic paths (each stands for every input satisfying its path condition); transitions = LLVM IR instructions executed symbolically",
            symbolic_forks=total.get("forks", 0), solver_queries=total.get("queries", 0), queries_sat=total.get("queries_sat", 0),
            queries_unsat=total.get("queries_unsat", 0), queries_answered_from_cache=total.get("queries_cached", 0),
            solver_seconds=round(total.get("solver_us", 0) / 1e6, 2), assertions_checked=total.get("asserts", 0),
            assertions_by_solver=total.get("asserts_solver", 0), assertions_by_rewriting=total.get("asserts_rewrite", 0),
            assertions_concrete_on_path=total.get("asserts_concrete", 0), hash_terms=total.get("hashes", 0),
            paths_assumed_away=total.get("assumed_away", 0), expected_panics=total.get("expected_panics", 0),
            bounds=spec.get("bounds", ""), entries=ran, functions_encoded=len(names), crate_functions_encoded=own[:400],
            second_solver=dict(queries=agree + len(disagree), agree=agree), build_seconds=round(bt, 1), errors=errors[:20],
            known_findings=[k["id"] for k in known_hit.values()]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in ran:
        print(f"{r['entry']}: {r['paths']} paths, {r['queries']} queries ({r['solver_s']} s solver), {r['asserts']} assertions, {r['wall_s']} s")
    print(f"{pid}: {total.get('paths', 0)} paths, {validated} traces replayed natively, build {bt:.0f} s, total {time.time() - t0:.0f} s")
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        for name, msg, dst, how in viol[:4]:
            print(f"{name}: {msg[:600]}\n   native: {how}")
        print(f"VIOLATION property={pid} replay={viol[0][2]}")
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR:", e[:800])
        return 2
    return 0

def demangle(names):
    if not names:
        return []
    p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    # (without crate hashes)
    return [re.sub(r"\[[0-9a-f]+\]", "", n) for n in p.stdout.split("\n")[:len(names)]] if p.returncode == 0 else names

def second_opinion(outdir, seed, n):
    """a sample of the queries z3 decided, put to cvc5"""
    qs = sorted(glob.glob(os.path.join(outdir, "*", "query-*.smt2")))
    if not shutil.which("cvc5"):
        return 0, []
    import random
    random.Random(seed).shuffle(qs)
    agree, dis = 0, []
    for q in qs[:n]:
        try:
            p = subprocess.run(["cvc5", "--tlimit=10000", q], capture_output=True, text=True, timeout=20)
        except subprocess.TimeoutExpired:
            continue
        a = p.stdout.strip()
        if a not in ("sat", "unsat"):
            continue
        if a == q.split(".")[-2]:
            agree += 1
        else:
            dis.append(q)
    return agree, dis

ASSUME = [
    "the hash function is ideal: injective on the inputs that occur, and no output equals the placeholder or another constant of the program (nor, where a program compares byte by byte, the placeholder's byte at the same place)",
    "memory is never exhausted; std RandomState hashing is replaced by a constant hash (all map entries collide), so no result may depend on map order beyond what the sampled native runs show",
    "symx's semantics of LLVM IR (validated by replaying sampled paths and all counterexamples natively)",
]

if __name__ == "__main__":
    sys.exit(main())
