#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that check.py knows."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
sys.argv = ["x"]
import check
try:
    from special import register
    register(check)
except ImportError:
    pass
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = [p for p in props if p in check.PROPS or p in check.SPECIAL]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in have:
    t, note = NOTES[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                        "technique": t, "level": "exploration", "level_note": note})
for p in props:
    if p not in have:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(have), "checks")
