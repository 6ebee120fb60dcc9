#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
t = open(os.path.join(here, "DESIGN.md")).read()
new = "<!-- planted -->\n| bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /planted -->"
assert "<!-- planted -->" in t
t = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: new, t, flags=re.S)
open(os.path.join(here, "DESIGN.md"), "w").write(t)
