#!/usr/bin/env python3
"""Writes the detection matrix of DESIGN.md from the planted bugs' meta.json (a tool for the author; no check uses it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs and what catches them"
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"].rstrip(".")))
rows.sort()
out = [MARK, "",
       f"{len(rows)} changes in `seeded/`, each confirmed to pass the tests and to fail its own demonstration. All of them are caught by the quick check",
       "of the property they were written against (the column `check`); related properties often report them as well.", "",
       "| check | planted bug | needs |", "|---|---|---|"]
out += [f"| {p} | {d} | {n.replace('|', '/')} |" for p, d, n in rows]
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
if MARK in s:
    s = s[:s.index(MARK)]
open(p, "w").write(s.rstrip("\n") + "\n\n" + "\n".join(out) + "\n")
