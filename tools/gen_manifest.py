#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN, LEVEL
import manifest_notes as N
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in PLAN:
        t, note = N.NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": LEVEL.get(p, "exploration"), "level_note": note})
    else:
        na.append({"property": p, "reason": N.NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public Rust and C APIs. 'fix:' commits are listed in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
