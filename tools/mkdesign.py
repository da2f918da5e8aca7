#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json")); c = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    rows.append(f"| {d} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
t = open(V + "/DESIGN.md").read(); a, b = "<!-- plants -->\n", "<!-- /plants -->"
i, j = t.index(a) + len(a), t.index(b)
open(V + "/DESIGN.md", "w").write(t[:i] + f"All {len(rows) - 2} are reported by the quick check of the property they are listed under.\n\n" + "\n".join(rows) + "\n" + t[j:])
