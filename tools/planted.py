#!/usr/bin/env python3
"""planted.py: writes the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
rows = ["| check | catches |", "|---|---|"] + [f"| {p} | {', '.join(x.split('-', 1)[1] for x in by[p])} |" for p in sorted(by)]
t = open(V + "/DESIGN.md").read()
t = re.sub(r"<!-- planted -->.*?<!-- /planted -->", lambda m: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
