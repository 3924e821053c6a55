#!/usr/bin/env python3
# Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
also = {"C08-lost-wakeup": "C05, C08", "C14-slice-ring": "C14, C15", "C16-time-memo": "C14, C16", }
rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    p = f"{V}/seeded/{d}/meta.json"
    if not os.path.exists(p):
        continue
    m = json.load(open(p))
    rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {also.get(d, m['property'])} |")
s = open(V + "/DESIGN.md").read()
i = s.index("## Planted bugs\n")
s = s[:i] + "## Planted bugs\nAll are caught by the quick check of their property.\n\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)
