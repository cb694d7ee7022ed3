#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED_FIRST = set("""c03-rake-updip c04-small-n c05-dof c13-sorted-axes c16-elliptical-tol c16-int-translate c19-tiny-polygon""".split())
EXTRA = os.path.join(HERE, "tools", "missed_first.txt")
MISSED_FIRST |= set(open(EXTRA).read().split()) if os.path.exists(EXTRA) else set()
s = open(os.path.join(HERE, "DESIGN.md")).read()
s = s[:s.index("<!-- seeds -->")] + "<!-- seeds -->\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    s += "| %s | %s | %s | %s%s |\n" % (d, m["property"], m["needs"], m["property"], " (missed first)" if d in MISSED_FIRST else "")
open(os.path.join(HERE, "DESIGN.md"), "w").write(s)
