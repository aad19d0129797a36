#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from propdefs.py and the rule registry"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
sys.dont_write_bytecode = True
from propdefs import PROPS, NA, NA_REASON
from axlint import rules
from techniques import TECH, NOTE

have = set(rules.load_all())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS+NA:
        if p["id"] in have or p["id"] in NA_REASON:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p)+"\n")
checks = []
for p in PROPS:
    i = p["id"]
    if i not in have:
        print("not built:", i)
        continue
    cmd = f"python3 check.py {i} --tier "
    checks.append({"property": i, "quick_cmd": cmd+"quick", "thorough_cmd": cmd+"thorough", "evidence_file": f"evidence/{i}.json",
                   "technique": TECH[i], "level": "other", "level_note": NOTE[i]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA_REASON.items()],
     "notes": "Static analysis only: the sources under /repo/cocotbext/axi are parsed on every run, never imported or executed. Standard library of the system python3 only; nothing to build."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
