#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and tools/claims.json"""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
claims = json.load(open(f"{H}/tools/claims.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    c = claims.get(i)
    if c and c.get("level"):
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": (c or {}).get("reason", "work in progress: no check registered yet")})
m = {"version": 1, "setup_cmd": "python3-vt -m vf.setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the contracts are sidecar files under /verif/vf/props, applied to the source of /repo"
              " read and transformed mechanically on every run (vf/pyload.py, vf/cxx.py). Repairs of genuine defects are"
              " 'fix:' commits, listed in known_findings.json."}
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
