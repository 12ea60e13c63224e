#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md (run by hand)."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "DESIGN.md")
s = open(p).read().split("<!-- seeds -->")[0].rstrip() + "\n\n<!-- seeds -->\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
c = {}
f = os.path.join(R, "tools", "caught.txt")
if os.path.exists(f):
    for l in open(f):
        a = l.split(None, 1)
        if len(a) == 2: c[a[0]] = a[1].strip()
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    s += f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c.get(i, '?')} |\n"
open(p, "w").write(s)
