#!/usr/bin/env python3
"""Writes ../MANIFEST.json from properties.jsonl and the table of claims below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(here, "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT.get(i, "not yet implemented")})
m = {"version": 1, "setup_cmd": "./tools/build.sh",
     "hooks": {"guard": "none", "enable": "No hooks: the checks use the crate's public API only.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.sh rebuilds the harness against /repo's working tree (content hash) and runs one property; `target/debug/vharness replay FILE` re-runs a replay file."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
