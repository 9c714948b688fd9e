#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in open(V + "/tools/caught.txt"):
    w = l.split(None, 4)
    if len(w) >= 3:
        got[w[0]] = "caught" if w[2] == "rc=1" else "MISSED"
        if len(w) == 5 and w[4].startswith("FAIL "):
            got[w[0]] += " (%s)" % w[4][5:].strip()
s = open(V + "/DESIGN.md").read().split("<!-- seeds -->")[0] + "<!-- seeds -->\n| planted bug | needs | check |\n|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    s += "| %s: %s | %s | %s: %s |\n" % (i, d["what_it_breaks"], d["needs"], d["property"], got.get(i, "not run"))
open(V + "/DESIGN.md", "w").write(s)
