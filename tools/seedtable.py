#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"], m["needs"]))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(\| bug \| caught by .*\n\|---.*\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
open(V + "/DESIGN.md", "w").write(s)
