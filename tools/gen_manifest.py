#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py: every property with a spec there is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
allp = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in allp:
    i = p["id"]
    s = props.PROPS.get(i)
    if not s:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "no monitor built yet")))
        continue
    checks.append(dict(property=i, quick_cmd="python3 lib/check.py %s quick" % i, thorough_cmd="python3 lib/check.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=s.get("technique", props.TECH), level=s.get("level", "exploration"), level_note=s["note"]))
m = dict(version=1, setup_cmd="python3 lib/build.py asan lib", checks=checks, not_applicable=na,
         notes="Monitors run the real library, rebuilt from /repo's working tree with sanitizers; see DESIGN.md. No hooks in /repo are needed: harnesses observe through the public and internal headers.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
