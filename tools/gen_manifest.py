#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, plan.py and the reasons below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "deterministic simulation: seeded schedules, CPU counts, map orders, clock and I/O faults over the real code; "
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        pl = PLAN[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": TECH + pl.get("oracle", "oracle over the recorded history"),
            "level": "exploration",
            "level_note": "Sampled, not exhaustive: the property held on every simulated schedule, fault sequence and input tried from this seed. " + pl.get("note", "") + " Trusts the source rewriter and the simulator (preemption between statements, sequentially consistent memory" + ("; the race-detector build covers unordered accesses" if pl["quick"]["race"] else "") + ") and the reference model in the harness.",
        })
    else:
        na.append({"property": i, "reason": NA[i]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks rewrite a scratch copy of the sources (go build -overlay). Commits in /repo are 'fix:' repairs only, listed in known_findings.json."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
