#!/usr/bin/env python3
"""Fills the table of seeded bugs and the list of unclaimed properties into DESIGN.md from design.in.md."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(root, "tools", "caught.json")))
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, "not yet run")))
man = json.load(open(os.path.join(root, "MANIFEST.json")))
na = ["* **%s** - %s" % (n["property"], n["reason"]) for n in man["not_applicable"]] or ["Every property in properties.jsonl is claimed."]
s = open(os.path.join(root, "tools", "design.in.md")).read()
open(os.path.join(root, "DESIGN.md"), "w").write(s.replace("SEEDTABLE", "\n".join(rows)).replace("NOTCLAIMED", "\n".join(na)))
