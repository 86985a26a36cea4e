#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, a section per property, design_tail.md and the table of planted bugs.
Which bugs are caught is read from tools/caught.txt (output of trybugs.sh)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props_data import PROPS, NA      # noqa: E402

ROOT = os.path.dirname(HERE)
na = {n["property"] for n in NA}
out = [open(os.path.join(HERE, "design_head.md")).read().rstrip() + "\n"]
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["id"] in na:
        continue
    mech = "; ".join(f"{m['name']} ({m['where']})" for m in p["anchors"]["mechanism"])
    out.append(f"### {p['id']} {p['title']}\n\n"
               f"*Over:* {p['quantifier']['text']}.\n"
               f"*Anchored in:* {', '.join(p['anchors']['files'])} ({mech}).\n"
               f"*Decided by:* {p['level_note']}\n"
               f"*Why not tests:* {p['why_tests_cant']}\n")
out.append(open(os.path.join(HERE, "design_tail.md")).read().rstrip() + "\n")
caught = {}
f = os.path.join(HERE, "caught.txt")
if os.path.exists(f):
    for line in open(f):
        w = line.split()
        if len(w) > 1 and w[0] in ("caught", "MISSED"):
            caught[w[1]] = w[0]
out.append("| planted bug | property | what it breaks | needs | its property's check |\n|---|---|---|---|---|")
for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
    cell = [x.replace("|", "\\|").replace("\n", " ") for x in (m["what_it_breaks"], m["needs"])]
    out.append(f"| {s} | {m['property']} | {cell[0]} | {cell[1]} | {caught.get(s, '?')} |")
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
