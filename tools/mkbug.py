"""bug(id, property, needs, breaks, edits, demo): writes /verif/seeded/<id>/ from edits [(file, old, new)] of /repo."""
import difflib, json, os, shutil, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(HERE, "tools", "demokit")
def bug(id, prop, needs, breaks, edits, demo, kit=True, extra=None):
    d = os.path.join(HERE, "seeded", id); os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        t = files.get(f) or [open("/repo/" + f).read()] * 2
        assert t[1].count(old) == 1, (id, f, t[1].count(old), old)
        files[f] = [t[0], t[1].replace(old, new)]
    p = ""
    for f, (a, b) in files.items():
        p += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(p)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if kit:
        shutil.copy(os.path.join(KIT, "demo.sh"), d)
        if '"mini.hh"' in demo: shutil.copy(os.path.join(KIT, "mini.hh"), d)
        open(os.path.join(d, "demo.cc"), "w").write(demo)
    else:
        open(os.path.join(d, "demo.sh"), "w").write(demo); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, t in (extra or {}).items(): open(os.path.join(d, n), "w").write(t)
