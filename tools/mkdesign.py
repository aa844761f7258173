#!/usr/bin/env python3
"""Writes the table of planted changes at the end of DESIGN.md (marker: '## Planted changes')."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(ROOT, "tools/first_missed.txt")).read().split())
t = open(os.path.join(ROOT, "DESIGN.md")).read()
i = t.index("| change |") if "| change |" in t else len(t)
rows = ["| change | breaks | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    d = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append("| %s%s | %s | %s |" % (n, "*" if n in MISSED else "", d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/")))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t[:i].rstrip() + "\n\n" + "\n".join(rows) + "\n")
