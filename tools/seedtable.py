"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json
(id -> result of the property's own check on the tree with the bug, as tools/plantrun.py recorded it)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted -->"
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
rows = []
base = os.path.join(ROOT, "seeded")
for i in sorted(os.listdir(base)):
    m = json.load(open(os.path.join(base, i, "meta.json")))
    rows.append("| {} | {} | {} | {} | {} |".format(i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), caught.get(i, "not run")))
path = os.path.join(ROOT, "DESIGN.md")
head = open(path).read().split(MARK)[0]
with open(path, "w") as f:
    f.write(head + MARK + "\n\n| bug | property | what it breaks | what it needs | own check (quick, seed 1) |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
