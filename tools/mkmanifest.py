#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from plan import PROPS  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = {
    "opt": "TLA+ specification checked with TLC; trace validation of the real optimizer and replay of scripts "
           "generated by TLC from the specification",
    "comp": "TLA+ specification checked with TLC; conformance of recorded calls of the real component, on inputs "
            "enumerated by TLC from the specification and on random and extreme ones",
}
TECH["both"] = TECH["opt"] + "; " + TECH["comp"]
NOTE = ("Every recorded execution must be a behaviour of the specification (decided by TLC with this property's guards "
        "in force); the specification itself is model-checked in small bounds. Executions are exhaustive only in "
        "the bounds named in DESIGN.md and sampled beyond; trusts the recording wrappers, TLC and the replacement "
        "of rand's ThreadRng by a controllable one.")
checks = []
for p in ids:
    if p not in PROPS:
        continue
    d = PROPS[p]
    checks.append({"property": p, "quick_cmd": "python3 run.py %s" % p,
                   "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": TECH[d.get("kind", "opt")], "level": "model_checking",
                   "level_note": d.get("note", NOTE)})
m = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in PROPS],
     "notes": "No hooks: every plug-in point of the library is a public trait."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
