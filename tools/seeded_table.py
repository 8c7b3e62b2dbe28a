#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (between the markers, with -w)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
S = os.path.join(V, "seeded")
for b in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, b, "meta.json")))
    rows.append("| %s | %s | %s |" % (b, m["property"], m["needs"]))
text = "\n".join(rows)
if "-w" in sys.argv:
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(p, "w").write(s[:i] + text + "\n" + s[j:])
else:
    print(text)
