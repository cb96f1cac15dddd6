#!/usr/bin/env python3
"""Write the table of the planted bugs into DESIGN.md (between the markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s |\n" % (d, m["needs"].replace("|", "\\|"), m["property"]))
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"(\|---\|---\|---\|\n)(@@TABLE@@\n|(?:\| c\d\d-.*\n)+)", lambda k: k.group(1) + "".join(rows), s)
open(p, "w").write(s)
