#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and harness/steps.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "harness"))
from steps import STEPS, LEVELS, NOTES, TECHNIQUE, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in STEPS:
        tools = sorted({s["kind"] for s in STEPS[i]})
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": TECHNIQUE[i],
            "level": LEVELS.get(i, "exploration"),
            "level_note": NOTES[i],
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "All monitors observe the public API of narrow and narrow-ffi; no hooks were needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
