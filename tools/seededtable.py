#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["<!-- seeded:begin -->", "| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    clean = lambda s: str(s).replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (f.split("/")[1], m["property"], clean(m["what_it_breaks"]), clean(m["needs"]), m.get("caught_by", "`check %s`" % m["property"])))
rows.append("<!-- seeded:end -->")
s = open("DESIGN.md").read()
t = "\n".join(rows)
if "SEEDED_TABLE" in s:
    s = s.replace("SEEDED_TABLE", t)
else:
    s = re.sub(r"<!-- seeded:begin -->.*<!-- seeded:end -->", lambda _: t, s, flags=re.S)
open("DESIGN.md", "w").write(s)
