#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (claimed properties) and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
    evidence_file=f"evidence/{i}.json", technique="symbolic execution of the crate's LLVM IR with z3 (bounded model checking)",
    level="model_checking", level_note=CHECKS[i].get("note") or CHECKS[i]["bounds"]) for i in ids if i in CHECKS]
na = [dict(property=i, reason=NA.get(i, "no check yet: the harness for it is being built")) for i in ids if i not in CHECKS]
HOOKS = dict(guard="jmt_verif", enable="RUSTFLAGS=--cfg jmt_verif (exports the exclusion proof type that get_with_exclusion_proof returns)", source_commits=["28939965a1f86936614f31dd78cb2f058dd26183"])
m = dict(version=1, setup_cmd="python3 check.py setup", hooks=HOOKS, checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed", len(na), "not")
