#!/usr/bin/env python3
"""Run the quick check of each planted bug's property against it, in private
mount namespaces (a copy of /repo and of /verif are bound over the originals).
usage: runseeds.py [-j N] [-t tier] [-p ID] [seed...]   (logs in /tmp/rs)"""
import sys, os, json, subprocess, shutil, threading, queue, time
a = sys.argv[1:]; J = 2; TIER = 'quick'; PROP = None
while a and a[0].startswith('-'):
    if a[0] == '-j': J = int(a[1])
    if a[0] == '-t': TIER = a[1]
    if a[0] == '-p': PROP = a[1]
    a = a[2:]
S = '/verif/seeded'
ids = a or sorted(os.listdir(S))
os.makedirs('/tmp/rs', exist_ok=True)
q = queue.Queue()
for i in ids: q.put(i)
res = {}
def work(k):
    base = f'/tmp/rs/w{k}'
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        p = PROP or json.load(open(f'{S}/{i}/meta.json'))['property']
        subprocess.run(['bash', '-c', f'mkdir -p {base}; rsync -a --delete --exclude target /repo/ {base}/repo/ && rsync -a --delete /verif/ {base}/verif/ && cd {base}/repo && git checkout -q -- . && git apply {S}/{i}/patch.diff'], check=True)
        t = time.time()
        r = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {base}/repo /repo; mount --bind {base}/verif /verif; cd /verif; VERIF_SEED=1 VERIF_TIER={TIER} timeout 900 python3-vt check.py {p} {TIER}'],
                           stdout=open(f'/tmp/rs/{i}.{p}.log', 'w'), stderr=subprocess.STDOUT)
        out = open(f'/tmp/rs/{i}.{p}.log').read()
        v = [l for l in out.splitlines() if l.startswith(f'VIOLATION property={p} ')]
        ok = r.returncode == 1 and v
        print(f'{i:32} {p} {"CAUGHT" if ok else "MISSED rc=%d" % r.returncode} {time.time()-t:.0f}s', flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
