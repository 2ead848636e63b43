#!/usr/bin/env python3
"""Builds libuima from /repo's working tree (variant = asan | tsan | plain) and the harness
programs / plug-in annotators of /verif/harness against it.  Everything lands in
$VERIF_BUILD (default /verif/build); nothing is written below /repo."""
import os, re, subprocess, sys, glob, shlex, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")
JDK = "/usr/lib/jvm/java-17-openjdk-amd64/include"

SAN = {
    # function/vptr need RTTI across dlopen'ed plugins; alignment is relaxed because the blob
    # format is byte-packed by design (accessed through memcpy on all supported hosts).
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize=vptr,alignment -fno-sanitize-recover=undefined",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O1 -g1",
}

def sources():
    """library sources as the project's own Makefile.am lists them"""
    mk = os.path.join(REPO, "src/framework/Makefile.am")
    txt = open(mk).read()
    out = []
    for m in re.finditer(r"^libuima_la_SOURCES\s*\+?=\s*(.*?)$", txt, re.M):
        for s in m.group(1).replace("\\", " ").split():
            if s.endswith((".cpp", ".c")):
                out.append(os.path.normpath(os.path.join(REPO, "src/framework", s)))
    if not out:
        sys.exit("build.py: no sources in Makefile.am")
    return out

def ninja_escape(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def generate(variant, harness=None):
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(d, "home"), exist_ok=True)
    inc = " ".join("-I" + os.path.join(REPO, p) for p in ("src/framework", "src/cas", "src/jni"))
    inc += " -I/usr/include/apr-1.0 -I%s -I%s/linux" % (JDK, JDK)
    defs = ("-DUIMA_PREFIX=/nonexistent-uima-prefix -DUIMA_VERSION=2.4.0 -D_REENTRANT -D_GNU_SOURCE "
            "-D_LARGEFILE64_SOURCE -DNDEBUG -DTRACEOFF -DLINUX -DVP_MONITOR")
    cxx = "g++ -fPIC -w " + SAN[variant]
    cxx_plug = "g++ -fPIC -w " + SAN[variant]
    link = "-lxerces-c -lapr-1 -licuuc -licuio -licui18n -licudata -ldl -lpthread"
    ld = "-fuse-ld=gold" if os.path.exists("/usr/bin/gold") else ""
    L = ["ninja_required_version = 1.5",
         "builddir = " + d,
         "rule cc", " depfile = $out.d", " deps = gcc", " description = CC $out",
         " command = %s $extra -MMD -MF $out.d -c $in -o $out" % cxx,
         "rule ccp", " depfile = $out.d", " deps = gcc", " description = CC $out",
         " command = g++ -fPIC -w -O0 -g1 -fno-omit-frame-pointer $extra -MMD -MF $out.d -c $in -o $out",
         "rule so", " description = SO $out", " command = %s -shared $in -o $out $libs" % cxx,
         "rule exe", " description = LD $out", " command = %s $in -o $out $libs" % cxx, ""]
    objs = []
    for s in sources():
        o = os.path.join(d, "lib", os.path.relpath(s, REPO).replace("/", "_") + ".o")
        objs.append(o)
        L += ["build %s: cc %s" % (o, s), " extra = %s %s -D_UIMA_LIBRARY_" % (inc, defs)]
    so = os.path.join(d, "libuima.so")
    L += ["build %s: so %s" % (so, " ".join(objs)), " libs = %s -Wl,-soname,libuima.so" % link, ""]
    targets = {"lib": [so]}
    # harness programs: harness/h_*.cpp ; plugins: harness/p_*.cpp ; shared: harness/common*.cpp
    for s in sorted(glob.glob(os.path.join(HARN, "[hp]_*.cpp"))):
        b = os.path.basename(s)[:-4]
        o = os.path.join(d, "harness", b + ".o")
        # asan: the harness itself stays uninstrumented (faster to build) unless it asks for it
        rule = "cc" if variant != "asan" or "build: san" in open(s).readline() else "ccp"
        L += ["build %s: %s %s" % (o, rule, s), " extra = %s %s -I%s -std=c++17" % (inc, defs, HARN)]
        if b.startswith("h_"):
            e = os.path.join(d, b)
            L += ["build %s: exe %s | %s" % (e, o, so), " libs = -L%s -luima -Wl,-rpath,%s %s" % (d, d, link)]
        else:
            e = os.path.join(d, "plugins", b[2:] + ".so")
            L += ["build %s: so %s | %s" % (e, o, so), " libs = -L%s -luima -Wl,-rpath,%s %s" % (d, d, link)]
        targets[b] = [e]
    # the CLI driver of the project
    o = os.path.join(d, "runAECpp.o")
    L += ["build %s: cc %s" % (o, os.path.join(REPO, "src/utils/runAECpp.cpp")), " extra = %s %s" % (inc, defs)]
    e = os.path.join(d, "runAECpp")
    L += ["build %s: exe %s | %s" % (e, o, so), " libs = -L%s -luima -Wl,-rpath,%s %s" % (d, d, link)]
    targets["runAECpp"] = [e]
    # project annotators used as workload (examples + fvt annotators)
    seen = set()
    for s in sorted(glob.glob(os.path.join(REPO, "examples/src/*.cpp"))) + sorted(glob.glob(os.path.join(REPO, "src/test/src/*.cpp"))):
        b = os.path.basename(s)[:-4]
        if b in seen:
            continue
        seen.add(b)
        if "MAKE_AE" not in open(s, errors="replace").read():
            continue
        o = os.path.join(d, "ex", b + ".o")
        L += ["build %s: cc %s" % (o, s), " extra = %s %s -I%s" % (inc, defs, os.path.join(REPO, "src/test/src"))]
        e = os.path.join(d, "plugins", b + ".so")
        L += ["build %s: so %s | %s" % (e, o, so), " libs = -L%s -luima -Wl,-rpath,%s %s" % (d, d, link)]
        targets["ex_" + b] = [e]
    f = os.path.join(d, "build.ninja")
    txt = "\n".join(L) + "\n"
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, "w").write(txt)
    return d, targets

def build(variant, names):
    """names: harness basenames (h_x, p_x), runAECpp, ex_<Annotator>, lib. Returns build dir."""
    os.makedirs(os.path.join(BUILD, variant), exist_ok=True)
    with open(os.path.join(BUILD, variant, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d, targets = generate(variant)
        want = []
        for n in names:
            if n not in targets:
                raise SystemExit("build.py: unknown target " + n)
            want += targets[n]
        env = dict(os.environ)
        env.setdefault("CCACHE_DISABLE", "1")
        r = subprocess.run(["ninja", "-C", d, "-f", os.path.join(d, "build.ninja")] + want,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:])
            raise SystemExit("build.py: build of %s failed" % variant)
        home = os.path.join(d, "home")
        os.makedirs(os.path.join(home, "data"), exist_ok=True)
        sch = os.path.join(REPO, "data/resourceSpecifierSchema.xsd")
        if os.path.exists(sch):
            open(os.path.join(home, "data/resourceSpecifierSchema.xsd"), "wb").write(open(sch, "rb").read())
    return d

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:] or ["lib"]))
