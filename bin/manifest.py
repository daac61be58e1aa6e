#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props/meta.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(R + "/props/meta.json"))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl") if l.strip()]
checks, na = [], []
for i in ids:
    m = meta.get(i)
    if m and os.path.exists("%s/props/%s.R" % (R, i)):
        checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="./check %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=m["technique"], level="exploration", level_note=m["note"]))
    else: na.append(dict(property=i, reason=(m or {}).get("na", "no check yet")))
json.dump(dict(version=1, setup_cmd="./bin/setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the monitors observe the exported functions, the internal functions the package's own tests use, and instrumented builds."),
          open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
