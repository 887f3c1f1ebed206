#!/usr/bin/env python3
"""Writes the table of planted bugs (from seeded/*/meta.json) between the markers in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    c = lambda s: s.replace("|", "\\|").replace("\n", " ").strip()
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], c(m["needs"]), c(m["what_it_breaks"])))
t = "| bug | caught by | needs | effect |\n|---|---|---|---|\n" + "\n".join(rows)
f = V + "/DESIGN.md"
s = open(f).read()
s = re.sub(r"(<!-- matrix -->\n).*?(\n<!-- /matrix -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(f, "w").write(s)
print(len(rows), "planted bugs")
