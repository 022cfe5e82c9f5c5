#!/usr/bin/env python3
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
from props import PROPS, NOT_APPLICABLE
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "sh replay/build.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": "python3 check.py %s quick" % p,
            "thorough_cmd": "python3 check.py %s thorough" % p,
            "technique": c.get("technique", "contract-based deductive verification (Verus) of the functions extracted from /repo on every run"),
            "level": c.get("level", "proof"),
            "level_note": c["note"],
            **({"theorems": c["theorems"]} if "theorems" in c else {}),
        }
        for p, c in PROPS.items()
    ],
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "no contract built for it yet")} for p in allp if p not in PROPS],
    "notes": "See DESIGN.md. Each check verifies, with Verus, the functions it needs as extracted from /repo's current tree, and runs a replay harness on the real crate that turns failed obligations into failing inputs and validates the assumed contracts.",
}
if "--hooks" in sys.argv or os.path.exists(os.path.join(V, "hooks.json")):
    m["hooks"] = json.load(open(os.path.join(V, "hooks.json")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
