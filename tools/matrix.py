#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
s = open("DESIGN.md").read()
a = s.index("<!-- matrix")
a = s.index("\n", a) + 1
b = s.index("<!-- end of matrix")
open("DESIGN.md", "w").write(s[:a] + "| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[b:])
