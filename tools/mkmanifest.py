#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a module in checks/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --tier thorough" % i,
                           technique=n.get("technique", "property-based testing (Hypothesis), generated cases against a reference oracle"),
                           level="exploration",
                           level_note=n.get("note", "Randomised search with shrinking over real pieshell processes under PyPy, both signal back ends; shows no violation on the generated cases, never absence. Trusts the kernel, coreutils/bash and the probe program.")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "its check is not built yet")))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         notes="Each check compiles its probe program and starts PyPy fork servers that import pieshell from /repo's working tree; nothing is built ahead. Repairs of pieshell are listed in known_findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
