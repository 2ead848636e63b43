#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough] [--replay FILE]

Rebuilds the code under test from /repo's working tree, drives the monitors of one property over
their workloads, collects what the monitors observed and gives the verdict:
exit 0  nothing but listed known findings was observed
exit 1  + 'VIOLATION property=<id> replay=<path>' for a violation that is not listed
exit 2  the machinery itself failed (no verdict)"""
import json, os, re, subprocess, sys, time, shutil, struct, tempfile, threading, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
VERIF = B.VERIF
NPROC = min(8, os.cpu_count() or 8)
CASE_LIMIT = 60          # s without progress before a case is suspected to hang
RERUN_LIMIT = 120        # s for the confirming re-run of that single case
MAX_RESUME = 12
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=1:allocator_may_return_null=0:"
                    "max_allocation_size_mb=4000:hard_rss_limit_mb=5000:detect_stack_use_after_return=0:"
                    "strict_string_checks=1:check_initialization_order=0:new_delete_type_mismatch=1:malloc_context_size=20",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0",
    "LSAN_OPTIONS": "exitcode=0:print_suppressions=0",
    "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "UIMACPP_LOGFILE": "", "TZ": "UTC",
}

class Machinery(Exception):
    pass

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        os.chmod(self.tmp, 0o755)
        self.lock = threading.Lock()
        self.viol = []          # dict(key, detail, ...)
        self.stats = {}
        self.samples = []
        self.distinct = set()
        self.dirs = {}
        self.assumptions = []
        self.hung = False       # a hang has been confirmed
    def violation(self, key, detail, **kw):
        with self.lock:
            self.viol.append(dict(key=key, detail=detail, **kw))
    def count(self, k, n=1):
        with self.lock:
            self.stats[k] = self.stats.get(k, 0) + n
    def seen(self, s):
        with self.lock:
            self.distinct.add(hash(s))
    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s[:700])
    def env(self, variant="asan", extra=None):
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR", "USER")}
        e.update(SAN_ENV)
        e.pop("UIMACPP_LOGFILE")
        if variant in self.dirs:
            e["UIMACPP_HOME"] = os.path.join(self.dirs[variant], "home")
            e["LD_LIBRARY_PATH"] = self.dirs[variant] + ":" + os.path.join(self.dirs[variant], "plugins")
        if extra:
            e.update(extra)
        return e

FRAME = re.compile(r"^\s*#(\d+) (?:0x[0-9a-f]+ )?(?:in )?(.+?) (?:\(?(/[^\s:()]+|\S+\.(?:cpp|hpp|c|h)))(?::(\d+))?", re.M)

def first_frame(text, skip_harness=True):
    """function of the innermost frame that belongs to the code under test"""
    for m in FRAME.finditer(text):
        fn, path = m.group(2), m.group(3) or ""
        if B.REPO in path:
            fn = re.sub(r"\(.*", "", fn)
            fn = re.sub(r"<.*", "", fn)
            return fn.split(" ")[-1] or "?"
    return "?"

def crash_key(err, rc):
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([A-Za-z0-9-]+)", err)
    u = re.search(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", err, re.M)
    if u and (not m or u.start() < m.start()):
        what = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", u.group(3))
        return "ub:%s:%s" % (first_frame(err[u.end():]), what[:60].strip()), err[u.start():u.start() + 3000]
    if m:
        return "crash:%s:%s" % (m.group(2), first_frame(err[m.end():])), err[m.start():m.start() + 4000]
    m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", err)
    if m and rc == 66:
        return "race:%s:%s" % (m.group(1).strip().replace(" ", "-"), first_frame(err[m.end():])), err[m.start():m.start() + 5000]
    if "hard rss limit exhausted" in err:
        return "memory-exhausted", err[-1500:]
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m:
        return "terminate:" + m.group(1), err[-2000:]
    return None, err[-3000:]

def races(err):
    """all distinct race keys of a TSan log"""
    out = {}
    for blk in re.split(r"^={18}\s*$", err, flags=re.M):
        m = re.search(r"WARNING: ThreadSanitizer: ([a-zA-Z -]+)", blk)
        if m:
            kind = m.group(1).split("(")[0].strip().replace(" ", "-")
            out.setdefault("race:%s:%s" % (kind, first_frame(blk)), blk[:5000])
    return out

def run_proc(cmd, env, out_prefix, cwd, progress=None, case_limit=CASE_LIMIT, stdin=None):
    """runs cmd; returns (rc, hung, last_case). Output in files."""
    with open(out_prefix + ".stdout", "wb") as so, open(out_prefix + ".stderr", "wb") as se:
        p = subprocess.Popen(cmd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=env, cwd=cwd, start_new_session=True)
        last, t0 = None, time.time()
        hung = False
        while True:
            try:
                p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                cur = None
                if progress:
                    try:
                        cur = open(progress).read().strip()
                    except OSError:
                        pass
                if cur != last:
                    last, t0 = cur, time.time()
                elif time.time() - t0 > case_limit:
                    hung = True
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                    break
    case = -1
    if progress:
        try:
            case = int(open(progress).read().strip() or -1)
        except (OSError, ValueError):
            pass
    return p.returncode, hung, case

def parse_out(ctx, text, base):
    done = False
    for line in text.split("\n"):
        if line.startswith("@V\t"):
            f = line.split("\t")
            ctx.violation(f[1], f[3] if len(f) > 3 else "", case=int(f[2]), trace=f[4] if len(f) > 4 else "", **base)
        elif line.startswith("@S\t"):
            f = line.split("\t")
            ctx.count(f[1], int(f[2]))
        elif line.startswith("@E\t"):
            ctx.sample(line[3:])
        elif line.startswith("@DONE"):
            done = True
    return done

def run_shard(ctx, w, shard, first, cases):
    d = ctx.dirs[w["variant"]]
    end = first + cases
    resumes = 0
    while first < end:
        if ctx.hung:
            return
        tag = "%s_%s_%d_%d" % (w["prog"], w["mode"], shard, first)
        outp = os.path.join(ctx.tmp, tag)
        scratch = outp + ".d"
        os.makedirs(scratch, exist_ok=True)
        args = [os.path.join(d, w["prog"]), w["mode"], "--seed", str(ctx.seed), "--cases", str(end - first), "--first", str(first),
                "--out", outp, "--tmp", scratch, "--data", os.path.join(VERIF, "data"), "--thorough", "1" if ctx.thorough else "0",
                "--plugins", os.path.join(d, "plugins")]
        for k, v in w.get("args", {}).items():
            args += [k, str(v)]
        env = ctx.env(w["variant"], dict(w.get("env", {})))
        for k in ("ASAN_OPTIONS", "TSAN_OPTIONS", "UBSAN_OPTIONS"):
            if w.get(k):
                env[k] = env[k] + ":" + w[k]
        base = dict(workload=w["mode"], cmd=" ".join(args), variant=w["variant"], prog=w["prog"])
        if os.path.exists(outp + ".progress"):
            os.remove(outp + ".progress")
        rc, hung, case = run_proc(args, env, outp, scratch, outp + ".progress", w.get("case_limit", CASE_LIMIT))
        text = open(outp + ".stdout", errors="replace").read()
        err = open(outp + ".stderr", errors="replace").read()
        done = parse_out(ctx, text, base)
        if os.path.exists(outp + ".distinct"):
            data = open(outp + ".distinct", "rb").read()
            with ctx.lock:
                ctx.distinct.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        shutil.rmtree(scratch, ignore_errors=True)
        if w["variant"] == "tsan":
            for k, blk in races(err).items():
                ctx.violation(k, blk, case=case, **base)
            if rc == 66 and done:
                return
        if done and rc == 0:
            return
        if rc == 3:
            raise Machinery("harness refused: " + err[-500:])
        if hung and ctx.hung:
            return              # the verdict is known already; every further hang would only cost its time limits
        if hung:
            # one confirming re-run of that single case
            a2 = list(args)
            a2[a2.index("--cases") + 1] = "1"
            a2[a2.index("--first") + 1] = str(max(case, first))
            os.makedirs(scratch, exist_ok=True)
            rc2, hung2, _ = run_proc(a2, env, outp + "_re", scratch, outp + ".progress", RERUN_LIMIT)
            shutil.rmtree(scratch, ignore_errors=True)
            if hung2:
                ctx.hung = True
                ctx.violation("hang:" + w["mode"], "case %d does not finish (twice: %ds, %ds)" % (case, CASE_LIMIT, RERUN_LIMIT), case=case, **base)
            else:
                ctx.count("slow_cases_rerun")
        else:
            key, det = crash_key(err, rc)
            if key is None:
                if rc < 0:
                    if rc == -9:
                        raise Machinery("shard killed (memory?) %s" % tag)
                    key = "signal:%d" % -rc
                elif case < 0:
                    raise Machinery("%s exited %s before its first case: %s" % (tag, rc, (err or text)[-1500:]))
                else:
                    key = "exit:%s" % rc
            ctx.violation(key, det, case=case, **base)
        if case < 0:
            return
        first = case + 1
        resumes += 1
        if resumes > MAX_RESUME:
            return

def run_workload(ctx, pool, w):
    cases = w["thorough"] if ctx.thorough else w["quick"]
    n = min(w.get("shards", NPROC), max(1, cases))
    per = (cases + n - 1) // n
    futs = []
    for i in range(n):
        f, c = i * per, min(per, cases - i * per)
        if c > 0:
            futs.append(pool.submit(run_shard, ctx, w, i, f, c))
    return futs

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    import props
    spec = props.PROPS[prop]
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    try:
        need = {}
        for w in spec.get("workloads", []):
            need.setdefault(w["variant"], set()).update([w["prog"]] + w.get("build", []))
        for v, names in spec.get("build", {}).items():
            need.setdefault(v, set()).update(names)
        for v, names in sorted(need.items()):
            ctx.dirs[v] = B.build(v, sorted(names))
        tb = time.time() - t0
        with ThreadPoolExecutor(NPROC) as pool:
            futs = []
            for w in spec.get("workloads", []):
                futs += run_workload(ctx, pool, w)
            for fn in spec.get("py", []):
                futs += fn(ctx, pool) or []
            for f in futs:
                f.result()
    except Machinery as e:
        sys.stderr.write("check.py: %s\n" % e)
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        return 2
    wall = time.time() - t0
    shutil.rmtree(ctx.tmp, ignore_errors=True)
    # ---- verdict
    known = [k for k in load_known() if k["property"] == prop and k["status"] == "finding"]
    hits, new = {}, {}
    for v in ctx.viol:
        for k in known:
            if v["key"] == k["key"] and ("workload" not in k or v.get("workload") == k["workload"]):
                hits.setdefault(k["id"], [k, 0, v])[1] += 1
                break
        else:
            new.setdefault(v["key"], []).append(v)
    evals = sum(n for k, n in ctx.stats.items() if k == "evals")
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    vlist = []
    for i, (key, vs) in enumerate(sorted(new.items())):
        safe = re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80]
        path = os.path.join(rdir, "%s-%s.json" % (prop, safe))
        v = vs[0]
        json.dump(dict(property=prop, key=key, seed=seed, tier=tier, occurrences=len(vs), first=v,
                       how="build with: python3 lib/build.py %s %s ; then run the command in first.cmd with --first <case> --cases 1 (environment: SAN_ENV in lib/check.py)" % (v.get("variant", "asan"), v.get("prog", ""))),
                  open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  key=%s occurrences=%d case=%s\n  %s" % (key, len(vs), v.get("case"), v["detail"][:800].replace("\n", "\n  ")))
        if v.get("trace"):
            print("  trace: " + v["trace"][-600:])
        vlist.append(dict(key=key, occurrences=len(vs), replay=path, detail=v["detail"][:500]))
    for kid, (k, n, v) in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s (%s, observed %d times)" % (prop, k["what"], kid, n))
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=max(evals, 0), distinct_nontrivial=len(ctx.distinct), rule=spec["rule"],
                            samples=ctx.samples[:8] or ["none"], observed=dict(sorted(ctx.stats.items()))),
              assumptions=spec.get("assumptions", []) + ctx.assumptions, wall_s=round(wall, 1), build_s=round(tb, 1), violations=vlist)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if new:
        return 1
    # a run that observed nothing decides nothing
    low = [k for k, n in spec.get("require", {}).items() if ctx.stats.get(k, 0) < n]
    if evals <= 0 or len(ctx.distinct) < spec.get("min_distinct", 50) or low:
        sys.stderr.write("check.py: inconclusive, monitors observed too little: evals=%d distinct=%d low=%s\n" % (evals, len(ctx.distinct), low))
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs (build %.1fs) %s" %
          (prop, tier, seed, evals, len(ctx.distinct), wall, tb, " ".join("%s=%d" % kv for kv in sorted(ctx.stats.items()))))
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else (sys.stderr.write(str(e.code) + "\n") and 2 or 2)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
