#!/usr/bin/env python3
"""Builds the harnesses in /verif/build from /verif/src and the current sources of /repo.

Incremental by content (not by time stamp): an object is reused only if its
command line and the contents of every file it was compiled from are the same.
Usage: build.py TARGET...     (targets: see TARGETS; 'all')
Environment: VERIF_REPO (default /repo), VERIF_BUILD (default /verif/build)
"""
import glob, hashlib, json, os, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SRC = os.path.join(REPO, "src")
CORE = ["utils", "value", "expr", "intfc", "exec"]
PARSER = CORE + ["xml-parser"]
APP = PARSER + ["app-framework"]
# the same for every target, so that they can share objects
INC = ["interfaces/UdpAdapter", "interfaces/LuvListener", "interfaces/Sockets", "apps/StandAloneSimulator"]
SKIP = {"JNIHelper.cc", "JNIUtils.cc", "analyzePlan.cc",
        "DispatchTimebase.cc", "ItimerTimebase.cc", "PosixTimebase.cc"}  # the last three are #included by Timebase.cc
ASAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fwrapv", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr",
        "-fno-sanitize-recover=all"]
TSAN = ["-O1", "-g1", "-fsanitize=thread"]
FLAGS = {"asan": ASAN, "tsan": TSAN}
TARGETS = {}  # name -> (variant, harness sources, repo dirs, extra include dirs, extra repo sources, link flags)

def target(name, variant, srcs, dirs, inc=(), extra=(), link=()):
    TARGETS[name] = (variant, srcs, dirs, list(inc), list(extra), list(link))

exec(open(os.path.join(HERE, "targets.py")).read())

COMMON = ["-DHAVE_CONFIG_H", "-DPLEXIL_WITH_THREADS=1", "-w"]
CXX = ["g++", "-std=c++14", "-include", "cstdint", "-include", "cstring"]

_h = {}
def fhash(p):
    if p not in _h:
        try:
            with open(p, "rb") as f: _h[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError: _h[p] = "missing"
    return _h[p]

def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(f"{what} failed:\n{r.stdout[-6000:]}")

def compile_one(src, obj, cmd):
    meta = obj + ".json"
    try:
        m = json.load(open(meta))
        if m["cmd"] == cmd and os.path.exists(obj) and all(fhash(p) == h for p, h in m["deps"].items()):
            return False
    except (OSError, ValueError, KeyError): pass
    dep = obj + ".d"
    run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", obj], "compiling " + src)
    txt = open(dep).read().split(":", 1)[1].replace("\\\n", " ")
    deps = [d for d in txt.split() if not d.startswith("/usr/")]
    json.dump({"cmd": cmd, "deps": {d: fhash(d) for d in deps}}, open(meta, "w"))
    return True

def build(names):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    # generated header of the plan parser
    gperf = os.path.join(SRC, "xml-parser", "ExpressionMap.gperf")
    out = os.path.join(gen, "ExpressionMap.hh")
    if os.path.exists(gperf):
        tmp = out + ".tmp"
        run(["gperf", "-m", "8", "--output-file=" + tmp, gperf], "gperf")
        if fhash(tmp) != fhash(out):
            os.replace(tmp, out); _h.pop(out, None)
        else: os.unlink(tmp)
    jobs, links = {}, []
    for n in names:
        variant, srcs, dirs, inc, extra, link = TARGETS[n]
        od = os.path.join(BUILD, variant)
        os.makedirs(od, exist_ok=True)
        incs = ["-I" + os.path.join(HERE, "src"), "-I" + gen] + ["-I" + os.path.join(SRC, d) for d in APP + INC]
        files = [os.path.join(HERE, "src", s) for s in srcs]
        for d in dirs:
            files += sorted(f for f in glob.glob(os.path.join(SRC, d, "*.cc")) + glob.glob(os.path.join(SRC, d, "*.c")) + glob.glob(os.path.join(SRC, d, "*.cpp"))
                            if os.path.basename(f) not in SKIP)
        files += [os.path.join(SRC, e) for e in extra]
        objs = []
        for f in files:
            obj = os.path.join(od, f.replace("/", "_")[1:] + ".o")
            cmd = (["gcc"] if f.endswith(".c") else CXX) + COMMON + FLAGS[variant] + incs
            jobs[obj] = (f, obj, cmd)
            objs.append(obj)
        links.append((n, objs, FLAGS[variant] + link))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        # longest first is not known; big files first is a fair guess
        todo = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[0]))
        rebuilt = sum(ex.map(lambda j: compile_one(*j), todo))
    for n, objs, fl in links:
        exe = os.path.join(BUILD, n)
        key = hashlib.sha256((" ".join(fl) + "".join(o + fhash(o) for o in objs)).encode()).hexdigest()
        kf = exe + ".key"
        if os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key: continue
        run(["g++"] + fl + ["-o", exe + ".tmp"] + objs + ["-lpugixml", "-ldl", "-lpthread", "-lrt"], "linking " + n)
        os.replace(exe + ".tmp", exe)
        open(kf, "w").write(key)
    return rebuilt, len(jobs)

if __name__ == "__main__":
    names = sys.argv[1:] or ["all"]
    if names == ["all"]: names = list(TARGETS)
    try:
        r, t = build(names)
        print(f"build: {r} of {t} objects compiled")
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
