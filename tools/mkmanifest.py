#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vp import registry as reg
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg.CHECKS:
        c = reg.CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
            evidence_file="evidence/%s.json" % i,
            technique=c.get("technique") or "TLA+ specification checked with TLC; executions of the code validated against it as traces",
            level=c["level"], level_note=c.get("note") or "Every recorded execution of the code (ASan build, several configurations) is decided by TLC against the TLA+ specification. Inputs are bounded enumerations plus seeded random programs; trusts TLC, the harness's logging and the sanitizer."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 vp/build.py", checks=checks, not_applicable=na,
    notes="Every check compiles /repo/src/mpack from the working tree (cached under /verif/build by content hash). No hooks in /repo.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
