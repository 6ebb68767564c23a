#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks (harness/checks.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "harness")]
import run, checks
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i not in checks.ALL():
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
        continue
    t, n = checks.TECH[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
m["notes"] = ("No hooks in /repo: every monitor observes through the public API, user-defined Factor subclasses and sanitizers. "
              "Violations that are genuine and unrepaired are listed in known_findings.json.")
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
