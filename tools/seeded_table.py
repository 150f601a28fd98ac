#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md (section 6) from seeded/*/meta.json (documentation only: no check reads it)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | reported by | needs |", "|----|----|----|"]
for d in sorted([*(root / "seeded").iterdir(), *(root / "seeded_more").iterdir()], key=lambda d: d.name):
    m = json.loads((d / "meta.json").read_text())
    rows.append("| %s | %s | %s |" % (d.name, m.get("reported_by", m["property"]), m["needs"].replace("|", "/")))
p = root / "DESIGN.md"
t = p.read_text()
t = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", t, flags=re.S)
p.write_text(t)
