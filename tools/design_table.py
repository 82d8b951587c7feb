#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json {id: [checks]}."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
c = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(c.get(i, [])) or 'not caught'} |")
s = open(V + "/DESIGN.md").read(); a, b = "<!-- seeds -->", "<!-- /seeds -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)
