#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
T = "model-based verification: TLA+ specification checked with TLC; "
NOTES = getattr(checks, "NOTES", {})
NA = getattr(checks, "NA", {})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "none (harnesses are compiled in through go's -overlay)", "enable": "harness/build.sh", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        n = NOTES.get(i, {})
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": T + n.get("t", "behaviours generated by TLC replayed on the real code, recorded executions validated against the specification"),
            "level": n.get("level", "model_checking"), "level_note": n.get("note", "exhaustive over the bounded specification; the binding to the code is by generated behaviours and systematic schedules")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check registered yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
