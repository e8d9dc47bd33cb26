#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property descriptions in meta/props/*.json (run by hand after editing)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(V + "/meta/props/*.json")):
    d = json.load(open(f))
    props.append({k: d[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    if "not_applicable" in d:
        na.append({"property": d["id"], "reason": d["not_applicable"]})
    else:
        e = {"property": d["id"], "quick_cmd": "python3 rules/%s.py" % d["id"].lower(),
             "thorough_cmd": "python3 rules/%s.py" % d["id"].lower(),
             "technique": d["technique"], "level": "other", "level_note": d["level_note"]}
        checks.append(e)
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
