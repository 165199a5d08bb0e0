#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = json.load(open(HERE + "/techniques.json"))
checks, na = [], []
for line in open(HERE + "/properties.jsonl"):
    pid = json.loads(line)["id"]
    t = TECH[pid]
    if "na" in t:
        na.append({"property": pid, "reason": t["na"]})
        continue
    checks.append({"property": pid, "quick_cmd": "python3 /verif/check.py %s" % pid,
                   "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % pid,
                   "technique": t["technique"], "level": "other", "level_note": t["note"],
                   "evidence_file": "/verif/evidence/%s.json" % pid})
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis over the type-checked program (clang 18 AST and CFG, or LLVM IR), re-read from /repo on every run. No hooks in /repo."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
