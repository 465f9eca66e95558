#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from plans import PLANS, NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
m = {"version": 1, "setup_cmd": "python3 run.py build", "checks": [], "not_applicable": []}
for i in ids:
    if i in PLANS:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "technique": "TLA+ specification checked with TLC; behaviours of it run on the library and the recorded traces validated against it",
                            "level": "model_checking", "level_note": NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "the specification module and its conformance check are not written yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
