#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
PURE = "a pure function of its arguments: no scheduling, time, I/O, allocation, sharing or resumable state for a simulator to control, and no fault to inject; checking it would be plain input generation, not deterministic simulation"
NA = {i: PURE for i in ids if i.startswith("N")}
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py --property %s --tier quick" % i, "thorough_cmd": "python3 check.py --property %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "deterministic simulation with fault injection: seeded search, reference model, replayable minimised traces"),
            "level": "exploration", "level_note": c.get("note", "Seeded random exploration: holds on every simulated run, not a proof. Trusts the reference model in /verif/sim, the compilers and the C++ runtime.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "n/a")
