#!/usr/bin/env python3
"""Regenerates the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
notes = json.loads((root / "tools" / "catch.json").read_text()) if (root / "tools" / "catch.json").exists() else {}
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append("| %s | %s | %s | %s | %s |" % (d.name, m["property"], m["needs"].replace("|", "/"),
                m["what_it_breaks"].replace("|", "/"), notes.get(d.name, m["property"] + " quick")))
f = root / "DESIGN.md"
t = f.read_text()
mark = "<!-- table -->"
f.write_text(t[:t.index(mark)] + mark + "\n" + "\n".join(rows) + "\n")
