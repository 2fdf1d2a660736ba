#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed at first: what was strengthened
MISSED = {
    "c03-slack": "populations above one hundred in `ga` with the shipped limit",
    "c13-late-inertia": "`pso-rules`: inertia of a rule that is kept over searches",
    "c24-ragged-convergence": "`aggregates`: more runs, of different lengths",
    "c25-first-coordinates": "`rates`: long points",
    "c28-far-coordinates": "`func`: points far away (`Far`)",
    "c22-long-stagnation": "`stop-long`, `marathon`: run-length coded questions",
}
if os.path.exists(os.path.join(ROOT, "tools", "missed.json")):
    MISSED.update(json.load(open(os.path.join(ROOT, "tools", "missed.json"))))
rows = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s%s |" % (d, m["what_it_breaks"], m["needs"], m["property"],
                                         "; strengthened: " + MISSED[d] if d in MISSED else ""))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2)
