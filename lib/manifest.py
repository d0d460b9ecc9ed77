#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
import plan
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {}
def technique(p):
    if p == "X10":
        return "TLA+ specification of the pair-of-options algebra checked with TLC; every composition of operations replayed on the real type"
    if p == "X02":
        return "TLA+ specification; TLC-exported equality relation over all pairs of states compared with == on real maps"
    if p in ("X03", "X09"):
        return "TLA+ specification; recorded executions of the real maps validated by TLC"
    return "TLA+ specification checked with TLC; every exported transition replayed on the real maps, recorded executions validated by TLC"
NOTE = ("TLC checks the property on every state and transition of the bounded model; the real maps are driven through all of them "
        "from several histories and under several hash builders, and every result and observation must be one the specification allows. "
        "Assumes that TLC, the harness' projection and rustc are right; larger maps are sampled, not enumerated.")
checks = []
for p in plan.ALL:
    if p in SKIP:
        continue
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": technique(p), "level": "model_checking", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in SKIP.items()],
     "notes": "No hooks in /repo: the public API shows the whole abstract state. See DESIGN.md."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
