#!/usr/bin/env python3
# Rewrites section 7 of DESIGN.md from seeded/*/meta.json and tools/caught.txt ("id check ..." lines).
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {l.split()[0]: l.split()[1:] for l in open(os.path.join(here, "tools", "caught.txt")) if l.strip()}
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
i = s.index("## 7. Planted bugs")
rows = ["## 7. Planted bugs (seeded/) and the checks that catch them",
        "Each was written from a property's text and the code alone.  \"quick\" is the quick tier of that check.", "",
        "| id | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), ", ".join(c + " quick" for c in caught.get(d, [])) or "nothing yet"))
missed = [l.strip() for l in open(os.path.join(here, "tools", "missed.txt"))]
rows += ["", "Strengthened after a miss (each was missed when first planted): "] + ["* " + l for l in missed if l]
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
