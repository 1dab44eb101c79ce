#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one paragraph per property (props_table.py, HOW below) + design_tail.md."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from props_table import PROPS, NA
from design_how import HOW
D = open(H + "/design_head.md").read()
for p in sorted(PROPS, key=lambda p: p["id"]): D += "**%s — %s.** %s\nBounds: %s.\n\n" % (p["id"], p["title"], HOW[p["id"]], p["bounds"])
D += "## Not applicable\n\n"
for p in NA: D += "* **%s — %s.** %s\n" % (p["id"], p["title"], p["reason"])
D += open(H + "/design_tail.md").read()
import glob
MISSED = set()
for m in sorted(glob.glob(H + "/../seeded/*/meta.json")):
    j = json.load(open(m)); b = m.split("/")[-2]
    D += "| %s | %s | %s | %s |\n" % (b, j["property"], j["what_it_breaks"].replace("|", "/"), "missed" if b in MISSED else j["property"])
open(H + "/../DESIGN.md", "w").write(D)
