#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks and the list of properties."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                                technique=c.get("technique", "runtime monitoring: instrumented runs, " + c["oracle"]), level=c["level"], level_note=c["rule"]))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE[p]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
