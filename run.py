#!/usr/bin/env python3
"""run.py PROPERTY [TIER]: builds what the property's check needs from /repo's working tree and runs it.

Exit 0: held on everything explored; 1: VIOLATION line; 2: the check could not run.
"""
import json, os, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    target = None
    for t, ps in B.CHECKS.items():
        if prop in ps: target = t
    if target is None:
        print("unknown property " + prop); return 2
    t0 = time.time()
    try:
        r, n = B.build([target])
    except RuntimeError as e:
        print(e); return 2
    print(f"{prop}: built {target} ({r} of {n} objects compiled) in {time.time() - t0:.1f} s", flush=True)
    known, lines = [], []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        l = l.strip()
        if l.startswith("known: ") and ("property=" + prop + " ") in l:
            f = dict(w.split("=", 1) for w in l[7:].split() if "=" in w)
            if f.get("property") != prop: continue
            known.append(f["signature"])
            what = l.split("what=", 1)[1] if "what=" in l else f["signature"]
            lines.append(f"KNOWN-FINDING: property={prop} {f['signature']}: {what}")
    with tempfile.TemporaryDirectory(prefix="verif-") as scratch:
        kf = os.path.join(scratch, "known")
        open(kf, "w").write("".join(f"{prop} {s}\n" for s in known))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cmd = [os.path.join(B.BUILD, target), "--prop", prop, "--tier", tier, "--seed", seed, "--known", kf, "--scratch", scratch,
               "--jobs", str(os.cpu_count() or 4),
               "--out", os.path.join(HERE, "evidence", prop + ".json"), "--replay-dir", os.path.join(HERE, "replay")]
        cmd += sys.argv[3:]
        rc = subprocess.run(cmd).returncode
    for l in lines: print(l)
    return rc if rc in (0, 1) else 2

if __name__ == "__main__":
    sys.exit(main())
