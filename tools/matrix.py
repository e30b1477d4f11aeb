#!/usr/bin/env python3
"""matrix.py: rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json
({id: {"checks": [...], "note": "..."}})."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    p = [x[6:].split("fixedIncome/src/")[-1] for x in open(os.path.dirname(f) + "/patch.diff") if x.startswith("+++ b/")]
    c = caught.get(i, {})
    rows.append(f"| {i} | {', '.join(c.get('checks', [m['property']]))} | {', '.join(os.path.basename(x.strip()) for x in p)} | "
                f"{m['what_it_breaks']} | {m['needs']} | {c.get('note', '')} |")
head = "## 7. Planted bugs and which checks catch them"
t = open(V + "/DESIGN.md").read()
t = t[:t.index(head)] + head + """

Each lives in `seeded/<id>/` (patch, demonstration, meta). The column *caught by* names the check of the property the bug was
written against; "missed first" marks those which the check did not see when they were written, and what was added.

| id | caught by | file | what it breaks | needs | note |
|---|---|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(t)
