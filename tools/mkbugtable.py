#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/caught.txt (lines: <bug id> <property> <finding class>)."""
import json
from pathlib import Path
H = Path(__file__).resolve().parent.parent
caught = {}
for l in (H / "tools/caught.txt").read_text().splitlines():
    w = l.split()
    if len(w) >= 3:
        caught.setdefault(w[0], []).append("%s (%s)" % (w[1], w[2]))
rows = ["| planted bug | what it breaks | caught by |", "|---|---|---|"]
for d in sorted([*(H / "seeded").iterdir(), *(H / "uncounted").iterdir()], key=lambda d: d.name):
    if not (d / "meta.json").exists():
        continue
    m = json.loads((d / "meta.json").read_text())
    rows.append("| %s | %s | %s |" % (d.name, m["what_it_breaks"].rstrip("."), ", ".join(caught.get(d.name, ["not caught"]))))
t = (H / "DESIGN.md").read_text()
a, b = t.split("<!-- bugs -->\n")[0], t.split("<!-- /bugs -->\n")[1]
(H / "DESIGN.md").write_text(a + "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->\n" + b)
