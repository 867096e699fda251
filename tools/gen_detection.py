#!/usr/bin/env python3
"""Rewrites the table at the end of DESIGN.md from a list of results.

gen_detection.py RESULTS: lines "id property rc=N ..."; the last one counts."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
res = {}
for l in open(sys.argv[1]):
    w = l.split()
    if len(w) > 2:
        res[w[0]] = (w[1], w[2])
d = open("DESIGN.md").read()
mark = "<!-- detection -->\n"
head = d[:d.index(mark) + len(mark)]
rows = ["| planted bug | what breaks | check | result |", "|---|---|---|---|"]
for b in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % b))
    p, r = res.get(b, (m["property"], "rc=?"))
    r = {"rc=1": "caught", "rc=0": "missed"}.get(r, "not run")
    rows.append("| %s | %s (needs %s) | %s | %s |" % (b, m["what_it_breaks"], m["needs"], p, r))
open("DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
