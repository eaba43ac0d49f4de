#!/usr/bin/env python3
# seedtable.py < output of seeds.sh: writes the table of planted changes into DESIGN.md (between the markers)
import sys, json, re
rows = ["| change | property | needs | result |", "|---|---|---|---|"]
for l in sys.stdin:
    if l.count("|") < 2: continue
    i, p, r = [x.strip() for x in l.split("|", 2)]
    m = json.load(open(f"seeded/{i}/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, p, re.sub(r"\s+", " ", m["needs"])[:160], re.sub(r"\s*\[.*", "", r.replace("|", "/"))[:90]))
s = open("DESIGN.md").read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
if a not in s: s = s.replace("SEEDTABLE", a + b)
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open("DESIGN.md", "w").write(s)
