#!/usr/bin/env python3
"""prints the DESIGN.md table of planted bugs (development aid)"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(V, "DESIGN.md")).read()
head = s.split("### Planted bugs and the checks that catch them")[0] + "### Planted bugs and the checks that catch them\n\n| bug | caught by | breaks | needs |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    head += "| %s | %s | %s | %s |\n" % (d.split("/")[-2], m.get("caught_by", m["property"]), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))
open(os.path.join(V, "DESIGN.md"), "w").write(head)
