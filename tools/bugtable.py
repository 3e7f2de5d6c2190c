#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
h = "| bug | property | needs |\n|---|---|---|\n"
t0 = s.index(h) + len(h)
t1 = s.index("\n\n", t0) + 1
rows = []
for d in os.listdir(os.path.join(V, "seeded")):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"]))
open(p, "w").write(s[:t0] + "".join("| %s | %s | %s |\n" % (d, q, n.replace("|", "/")) for q, d, n in sorted(rows)) + s[t1:])
