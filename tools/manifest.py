#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks registered in harness/*.cpp."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
regs = {}
for f in sorted(glob.glob(os.path.join(here, "harness", "*.cpp"))):
    for m in re.finditer(r'pbt::Reg \w+\(\s*\{\s*"(C\d+)",\s*\w+,\s*(\d+),\s*(\d+),\s*"(\w+)"', open(f).read()):
        regs[m.group(1)] = (int(m.group(2)), int(m.group(3)), m.group(4))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in regs:
        q, t, level = regs[i]
        checks.append({
            "property": i,
            "quick_cmd": "bash run.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "property-based testing",
            "level": level,
            "level_note": "%d generated cases (thorough: %d) against the oracle in DESIGN.md, under ASan and UBSan"
                          % (q, t),
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "run.sh <id> rebuilds what changed in /repo and runs one check; run.sh <id> --replay FILE repeats a "
             "failure. Known and fixed findings are listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "without")
