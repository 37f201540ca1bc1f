#!/usr/bin/env python3
"""Write DESIGN.md: the body (tools/design_body.md) plus the table of planted bugs.
Results of the trials (tools/trials.txt: 'id PROP caught|missed note') fill the last columns."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
tr = {}
f = root / "tools/trials.txt"
for l in f.read_text().splitlines() if f.exists() else []:
    a = l.split(None, 3)
    if len(a) >= 3:
        tr[a[0]] = (a[2], a[3] if len(a) > 3 else "")
out = (root / "tools/design_body.md").read_text().rstrip() + "\n\n| id | property | what it breaks / needs | quick | strengthened |\n|---|---|---|---|---|\n"
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    t = tr.get(d.name, ("?", ""))
    s = (m["what_it_breaks"].strip().rstrip(".") + "; needs: " + m["needs"].strip()).replace("|", "/").replace("\n", " ")
    out += f"| {d.name} | {m['property']} | {s} | {t[0]} | {t[1]} |\n"
(root / "DESIGN.md").write_text(out)
