#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/seeded_notes.txt."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "<!-- seeded table: tools/seeded_table.py -->"
notes = {}
for l in open(V + "/tools/seeded_notes.txt"):
    if ":" in l and not l.startswith("#"): k, v = l.split(":", 1); notes[k.strip()] = v.strip()
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f)); rows.append((m["property"], i, m["needs"], notes.get(i, "caught")))
o = ["Each lives in `seeded/<id>/` (patch, demonstration, what it needs). \"caught\": the quick check of the same property, seed 1, exits 1 on it;",
     "\"strengthened\": missed at first, caught after the check was extended as stated; \"missed\": not caught.", "",
     f"{len(rows)} bugs, {sum('missed;' not in r[3] and not r[3].startswith('missed') for r in rows)} caught.", "", "| check | bug | needs | outcome |", "|---|---|---|---|"]
o += ["| %s | %s | %s | %s |" % tuple(c.replace("|", "\\|") for c in r) for r in rows]
s = open(V + "/DESIGN.md").read(); s = s[:s.index(M)] + M + "\n" + "\n".join(o) + "\n"
open(V + "/DESIGN.md", "w").write(s)
