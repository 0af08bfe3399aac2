#!/usr/bin/env python3
"""table.py: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json (catch.py)."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
res = json.load(open(V / "tools/caught.json"))
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    c = [p for p, v in sorted(res.get(d.name, {}).items()) if v == "caught"]
    cell = lambda t: str(t).replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {d.name} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {', '.join(c) or 'missed'} |")
p = V / "DESIGN.md"
s = p.read_text()
p.write_text(s[:s.index("<!-- TABLE -->")] + "<!-- TABLE -->\n\n" + "\n".join(rows) + "\n")
