#!/usr/bin/env python3
"""Maintains known_findings.json (by hand, never from a check).
kf.py fixed PROP[,PROP2] COMMIT-ish 'what failed' | kf.py finding ID PROP KEY 'what' [workload]"""
import json, sys, subprocess, os
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
L = json.load(open(P)) if os.path.exists(P) else []
if sys.argv[1] == "fixed":
    c = subprocess.run(["git", "-C", "/repo", "rev-parse", "--short=10", sys.argv[3]], capture_output=True, text=True, check=True).stdout.strip()
    for p in sys.argv[2].split(","):
        L.append(dict(status="fixed", property=p, commit=c, what=sys.argv[4], entry="fixed: property=%s %s %s" % (p, c, sys.argv[4])))
else:
    e = dict(status="finding", id=sys.argv[2], property=sys.argv[3], key=sys.argv[4], what=sys.argv[5])
    if len(sys.argv) > 6: e["workload"] = sys.argv[6]
    L.append(e)
json.dump(L, open(P, "w"), indent=1); open(P, "a").write("\n")
