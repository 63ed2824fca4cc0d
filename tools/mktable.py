#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | caught by | what it needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d[:-1]), m["property"], m.get("caught_by", "check " + m["property"]), m["needs"].replace("|", "/").replace("\n", " ")))
p = R + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", "\n\n" + t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
