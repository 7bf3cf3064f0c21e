#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims the properties whose check is registered in the explorer."""
import json, re, subprocess, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = {}
for f in glob.glob(os.path.join(root, "mc/props/*.go")):
    for m in re.finditer(r'ID:\s*"([A-Z]\d\d)"', open(f).read()):
        have[m.group(1)] = f
TECH = json.load(open(os.path.join(root, "tools/techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = TECH.get(i, TECH["default"])
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t[0], "level": "model_checking", "level_note": t[1]})
    else:
        na.append({"property": i, "reason": TECH.get("na", {}).get(i, "the check is not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the explorer drives the real code through its exported API (R06 instruments a copy of it through a build overlay)."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
