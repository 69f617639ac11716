#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from lib/props.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from props import PROPS
from na import NOT_APPLICABLE

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for pid, p in PROPS.items():
        fh.write(json.dumps({"id": pid, "title": p.title, "statement": p.statement,
                             "quantifier": {"over": p.over, "text": p.text}, "why_tests_cant": p.why,
                             "anchors": {"files": p.files, "mechanism": [{"name": n, "where": w} for n, w in p.mech], "hook_needed": None}}) + "\n")
    for pid, q in NOT_APPLICABLE.items():
        fh.write(json.dumps({"id": pid, "title": q["title"], "statement": q["statement"], "quantifier": q["quantifier"],
                             "why_tests_cant": q["why"], "anchors": q["anchors"]}) + "\n")
checks = []
for pid, p in PROPS.items():
    rl = sorted({r.__name__ for r in p.rules})
    checks.append({
        "property": pid, "quick_cmd": f"python3 check.py {pid} quick", "thorough_cmd": f"python3 check.py {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "static: path-sensitive abstract interpretation of MIR, canonical effect summaries vs contract" + (" + relational rules" if rl else ""),
        "level": "other",
        "level_note": "Decides, for every feasible path of the anchored functions and each protocol version, that returned values, written state, "
                      "effects with their conditions, and the order of conflicting effects are those of the reviewed contract"
                      + (f"; relational rules: {', '.join(rl)}" if rl else "")
                      + ". Trusts the MIR extraction, the models of std/revm accessors, the behaviour of pinned upstream crates, mathematical integers."})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in NOT_APPLICABLE.items()],
     "notes": "All checks share one fact extraction (rustc driver in driver/, cached by source hash in .build/) and one engine (lib/). Contracts are in contracts/."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
