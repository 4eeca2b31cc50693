#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the registered checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import props
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
                           thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique=NOTES.get(i, {}).get("technique", "TLA+ specification checked with TLC; model-generated and random executions of the real code validated against it by TLC"),
                           level="model_checking", level_note=NOTES.get(i, {}).get("note", "")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("reason", "the specification for this property is not built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="All checks run TLC on /verif/spec and execute /repo/py through its public API; no hooks are needed."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
