#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    caught = d.get("caught_by") or [d["property"]]
    rows.append("| %s | %s | %s | %s |" % (m.parent.name, ", ".join(caught),
                d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/")))
table = "\n".join(["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"] + rows)
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + table + "\n" + m[2], s, flags=re.S)
p.write_text(s)
print(len(rows), "rows")
