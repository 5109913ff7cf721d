#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN
TECH = "TLA+ specification checked with TLC; behaviours of the instrumented real code validated against it (trace validation)"
checks = []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH + ("; models checked exhaustively" if PLAN[i].get("models") else ""),
        "level": "model_checking",
        "level_note": PLAN[i].get("note") or
        ("Every recorded behaviour (deterministic scheduler over the real code: chosen interleavings, faults, inputs) is checked by TLC event by event "
         "against the TLA+ contract; coverage is the explored behaviours, not all. Trusted: the source instrumenter and scheduler, the fake network, the specification."),
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks instrument a scratch copy of the working tree", "source_commits": []},
           "notes": "See DESIGN.md. Genuine defects found and repaired are listed in known-findings.txt."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
