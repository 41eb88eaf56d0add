#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it needs to show | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append("| %s: %s | %s | %s | own check |" % (n, m["what_it_breaks"].replace("|", "/"), m["property"], m["needs"].replace("|", "/")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(?s)(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), s)
open(p, "w").write(s)
