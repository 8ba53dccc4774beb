#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"]))
s = open(root + "/DESIGN.md").read()
t = "<!-- bugs -->\n| bug (all caught by the check of the property) | check | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /bugs -->"
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: t, s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
print(len(rows))
