#!/usr/bin/env python3
# Generates MANIFEST.json from the property modules present in harness/props.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness import engine
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "harness/props/%s.py" % pid.lower())):
        pr = engine.load_prop(pid)
        checks.append({"property": pid, "quick_cmd": "./check %s quick" % pid, "thorough_cmd": "./check %s thorough" % pid,
                       "technique": getattr(pr, "technique", "property-based testing: generated C programs, differential oracle gcc, choice-sequence shrinking"),
                       "level": "exploration", "level_note": pr.rule})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
