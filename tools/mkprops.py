#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_data.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props_data import PROPS, NA, NOTE      # noqa: E402

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        q = dict(p)
        q.pop("technique", None)
        q.pop("level_note", None)
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
na = {n["property"] for n in NA}
m = {
    "version": 1,
    "setup_cmd": "mkdir -p evidence",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": p["technique"],
        "level": "other",
        "level_note": p["level_note"],
    } for p in sorted(PROPS, key=lambda p: p["id"]) if p["id"] not in na],
    "not_applicable": NA,
    "notes": NOTE,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
