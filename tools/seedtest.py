#!/usr/bin/env python3
"""seedtest.py ID...  For each planted bug: applies the patch to /repo, builds, runs the stable tests, the demo and the
check of its property, undoes the patch, and prints what happened. Also runs the demo on the unchanged tree (--base)."""
import sys, os, json, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def build(): r = sh("bash /opt/vp/build.sh"); return r.returncode, r.stdout[-1500:]
def demo(d): 
    try: r = sh("bash %s/demo.sh" % d, cwd=R, timeout=300); return r.returncode, r.stdout[-400:]
    except subprocess.TimeoutExpired: return 124, "timeout"
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
notest = "--notest" in sys.argv; nocheck = "--nocheck" in sys.argv; nodemo = "--nodemo" in sys.argv
if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is not clean")
if not nodemo:
    print("base build", build()[0])
    for i in ids:
        rc, o = demo(V + "/seeded/" + i); print("base demo %s rc=%d %s" % (i, rc, "" if rc == 0 else o))
for i in ids:
    d = V + "/seeded/" + i; m = json.load(open(d + "/meta.json"))
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); continue
        line = [i, m["property"]]
        if not (notest and nodemo):
            rc, o = build()
            if rc: print(i, "BUILD FAILS", o); continue
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/seed_o.json"); o = json.load(open("/tmp/seed_o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            base = set(b.get("passed", b.get("stable", []))) if isinstance(b, dict) else set(b)
            lost = sorted(base - set(o["passed"])); line.append("tests " + ("ok" if not lost else "LOST %d %s" % (len(lost), lost[:3])))
        if not nodemo: rc, o = demo(d); line.append("demo rc=%d" % rc + (" (NOT FAILING)" if rc == 0 else ""))
        if not nocheck:
            t = time.time(); r = sh("python3 lib/check.py %s %s" % (m["property"], os.environ.get("TIER", "quick")), cwd=V); keys = [l.strip() for l in r.stdout.split("\n") if l.startswith("  key=")]
            line.append("check rc=%d %.0fs %s" % (r.returncode, time.time() - t, "CAUGHT" if r.returncode == 1 else "MISSED")); line += keys[:3]
        print(" | ".join(line), flush=True)
    finally: sh("git -C /repo checkout -- .")
if not nodemo: build()
