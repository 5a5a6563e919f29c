#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 -c 'import registry'", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                                technique=c["technique"], level=c["level"], level_note=c["level_note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason="check under construction; not claimed yet"))
m["notes"] = "All checks mirror /repo's working tree and rebuild their harnesses from it; see DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
