#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from proptable import PROPS
lines = []
checks = []
na = []
for p in PROPS:
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": None}}))
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                       "thorough_cmd": "python3 check.py " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 tools/extract.py", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of rustc MIR (dataflow, lock-set, abstract interpretation); nothing of /repo is executed. The checks need no hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
