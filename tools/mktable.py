#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md, between its two markers."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# What the first run against each said, where it was not simply caught.
NOTE = {
 "failed-reload-unloads": "missed at first; C14 now reloads libraries after a refusal",
 "deeper-than-children": "missed at first; C14 now names nodes which exist but are not in scope",
 "repeated-update-name": "missed at first; C14 now repeats names which are not neighbours",
 "telemetry-for-good": "missed at first; C26 now writes its sections in both orders",
}
try:
    NOTE.update(json.load(open(os.path.join(HERE, "tools/bugnotes.json"))))
except FileNotFoundError:
    pass
rows = []
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    rows.append((m["property"], b, m["needs"].replace("|", "/").replace("\n", " "), NOTE.get(b, "caught")))
rows.sort()
t = "| Change | Property | Needs | By the check |\n|---|---|---|---|\n"
t += "".join(f"| {b} | {p} | {n} | {c} |\n" for p, b, n, c in rows)
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", "<!-- bugs -->\n<!-- end -->")
s = re.sub(r"<!-- bugs -->.*?<!-- end -->", lambda m: "<!-- bugs -->\n\n" + t + "\n<!-- end -->", s, flags=re.S)
open(f, "w").write(s)
