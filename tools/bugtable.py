#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and a trybugs.py result."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(sys.argv[1]))
rows = ["| bug | what it breaks | needs | check: verdict at seed 1 (seconds, build included) |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m, r = json.load(open(f"{V}/seeded/{i}/meta.json")), res.get(i)
    cell = lambda t: t.replace("|", "/").replace("\n", " ")
    verdict = "not run" if not r else f"{r['property']}: {'caught' if r['caught'] else 'MISSED'} ({r['seconds']})"
    rows.append(f"| {i} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {verdict} |")
p = V + "/DESIGN.md"
s = open(p).read()
mark = "<!-- planted bugs -->\n"
head = s.split(mark)[0]
open(p, "w").write(head + mark + "\n".join(rows) + "\n")
