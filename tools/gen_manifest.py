#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per checks/Cxx.py, the rest of properties.jsonl as not applicable (yet)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "manifest_text.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i in TECH:
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH[i], level="exploration", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
