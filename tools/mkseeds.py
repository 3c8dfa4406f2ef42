#!/usr/bin/env python3
"""tools/mkseeds.py SEEDS.py [id...]: builds seeded/<id>/ from edit definitions and confirms each one
in private copies of /repo (mounted over /repo in a mount namespace): applies, builds, stable tests
pass, the demo passes without and fails with the change. Only used while developing."""
import sys, os, json, subprocess, shutil, importlib.util, concurrent.futures as cf
ROOT = "/verif"
W = "/tmp/w"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def ns(w, cmd, timeout=1500):
    script = f"mount --bind {W}/{w}/repo /repo && cd /repo && {cmd}"
    return subprocess.run(["unshare", "-m", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
DEMO = r'''#!/bin/bash
# Builds main.rs against the crate in the current directory (in a scratch directory) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/jmt-demo.XXXXXX) || exit 2
trap 'rm -rf "${w:?}"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$here/common.rs" "$w/src/"
cp "$here/Cargo.lock" "$w/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
jmt = { path = "$repo", features = ["mocks", "migration"] }
sha2 = "0.10"
anyhow = "1"
borsh = "1"
ics23 = "0.11"
[workspace]
T
cd "$w"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
export RUSTFLAGS=-Awarnings
cargo build -q --offline || exit 2
timeout 60 "$w/target/debug/demo"
'''
def make(s, w):
    d = f"{ROOT}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    repo = f"{W}/{w}/repo"
    sh(f"git -C {repo} checkout -q -- . ")
    for f, old, new in s["edits"]:
        p = f"{repo}/src/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            return f"edit matches {t.count(old)} times in {f}: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    diff = sh(f"git -C {repo} diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write("mod common;\n#[allow(unused_imports)]\nuse common::*;\n\n" + s["demo"].strip() + "\n")
    shutil.copy(f"{ROOT}/tools/demo_common.rs", f"{d}/common.rs")
    shutil.copy(f"{ROOT}/tools/demo_Cargo.lock", f"{d}/Cargo.lock")
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    r = ns(w, f"bash {d}/demo.sh")
    if r.returncode == 0:
        return "demo passes with the change"
    failed = r.stdout[-500:]
    if "error[" in r.stdout or "could not compile" in r.stdout:
        return "demo or crate does not compile: " + r.stdout[-1500:]
    r = ns(w, f"bash /opt/vp/build.sh >/tmp/w/{w}/b.log 2>&1 && bash /opt/vp/test.sh /tmp/w/{w}/o.json > /tmp/w/{w}/t.log 2>&1")
    try:
        o = json.load(open(f"{W}/{w}/o.json"))
    except Exception as e:
        return f"tests: {e} {r.stdout[-300:]}"
    os.remove(f"{W}/{w}/o.json")
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [t for t in stable if t not in o["passed"]]
    if bad:
        return f"tests fail: {bad[:5]}"
    sh(f"git -C {repo} checkout -q -- . ")
    r = ns(w, f"bash {d}/demo.sh")
    if r.returncode:
        return "demo fails unchanged: " + r.stdout[-800:]
    return "ok: " + failed.strip().replace("\n", " ")[-200:]
def main():
    spec = importlib.util.spec_from_file_location("s", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    todo = [s for s in m.SEEDS if not sys.argv[2:] or s["id"] in sys.argv[2:]]
    import queue
    n = int(os.environ.get("NW", "3"))
    q = queue.Queue()
    for i in range(n):
        os.makedirs(f"{W}/{i}", exist_ok=True)
        if not os.path.exists(f"{W}/{i}/repo"):
            sh(f"cp -a /repo {W}/{i}/repo")
        sh(f"git -C {W}/{i}/repo fetch -q /repo HEAD && git -C {W}/{i}/repo checkout -q -f FETCH_HEAD")
        q.put(i)
    def one(s):
        w = q.get()
        try:
            r = make(s, w)
        except Exception as e:
            r = f"exception {e!r}"
        finally:
            q.put(w)
        if not r.startswith("ok"):
            shutil.rmtree(f"{ROOT}/seeded/{s['id']}", ignore_errors=True)
        print(s["id"], "|", r, flush=True)
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, todo))
main()
