#!/usr/bin/env python3
"""Writes MANIFEST.json from table.py and na.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.path.insert(0, HERE)
from table import PROPS, LEVEL  # noqa: E402
from na import NA  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("Sound for every input and every reader or writer behavior the specification roots admit, up to the trusted "
        "base: rustc's MIR, the abstract interpreter in engine/, its models of std and pix, and the specification roots. ")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "python3 check.py " + i,
        "technique": PROPS[i].get("technique", "abstract interpretation of MIR from specification roots"),
        "level": LEVEL,
        "level_note": NOTE + PROPS[i].get("note", ""),
    } for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in PROPS],
    "notes": "Static analysis only; see DESIGN.md. known-findings.txt lists the defects repaired in /repo.",
}
for x in m["checks"] + m["not_applicable"]:
    for k in x:
        x[k] = x[k].strip()
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
