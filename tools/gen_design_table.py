#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = "<!-- table of planted bugs: tools/gen_design_table.py -->\n"
text = open(f"{root}/DESIGN.md").read()
rows = []
for name in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{name}/meta.json"))
    rows.append((m["property"], name, m["needs"].replace("|", "/")))
rows.sort()
out = f"\n{len(rows)} planted bugs, each caught by the check of the property in the first column.\n\n| caught by | planted bug | needs |\n|---|---|---|\n"
out += "".join(f"| {p} | {n} | {w} |\n" for p, n, w in rows)
open(f"{root}/DESIGN.md", "w").write(text[: text.index(mark) + len(mark)] + out)
