#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props_text import P, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{root}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
checks = []
na = list(NA)
for p in P:
    if p["_tech"] is None:
        na.append({"property": p["id"], "reason": p["_note"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./run.sh check {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {p['id']}",
                   "technique": p["_tech"], "level": "exploration", "level_note": p["_note"]})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hook was added to /repo: the seams used (io::Read, io::Write, files, entropy, clock) are reachable from outside; commits there are fix: commits only."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{root}/MANIFEST.json", "a").write("\n")
