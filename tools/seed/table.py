#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md (from seeded/*/meta.json and caught.txt)."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
caught = {}
for l in open(os.path.join(V, "tools/seed/caught.txt")):
    i, *c = l.split()
    caught[i] = " ".join(c)
rows = []
for d in glob.glob(os.path.join(V, "seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append((int(re.match(r"s(\d+)", i)[1]), i, m["property"], m["needs"], caught.get(i, "not run")))
out = ["", "| bug | breaks | needs | caught by |", "|---|---|---|---|"]
out += [f"| {i} | {p} | {n} | {c} |" for _, i, p, n, c in sorted(rows)]
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
mark = "<!-- table of planted bugs, written by tools/seed/table.py -->"
assert mark in s
open(p, "w").write(s[:s.index(mark) + len(mark)] + "\n" + "\n".join(out) + "\n")
