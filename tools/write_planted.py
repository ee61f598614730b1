"""Rewrites the table of planted changes at the end of ../DESIGN.md."""
import glob
import json
import os

root = os.path.join(os.path.dirname(__file__), "..")
rows = []
for f in glob.glob(os.path.join(root, "seeded", "*", "meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"], m.get("caught_by", m["property"])))
p = os.path.join(root, "DESIGN.md")
s = open(p).read().split("<!-- planted -->")[0]
s += "<!-- planted -->\n| change | property | needs | caught by |\n|---|---|---|---|\n"
for c, i, n, by in sorted(rows):
    s += f"| {i} | {c} | {n.replace('|', '/')} | {by} |\n"
open(p, "w").write(s)
print(len(rows))
