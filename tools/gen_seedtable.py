#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (between the markers)."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f)); i = f.split("/")[-2]
    cell = lambda s: re.sub(r"\s+", " ", s).replace("|", "/")
    rows.append((d["property"], i, cell(d["what_it_breaks"]), cell(d["needs"])))
rows.sort()
t = "<!-- seeds -->\n| caught by | planted bug | what it breaks | needs |\n|---|---|---|---|\n" + \
    "".join("| %s | %s | %s | %s |\n" % r for r in rows) + "<!-- /seeds -->"
p = R + "/DESIGN.md"; s = open(p).read()
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
