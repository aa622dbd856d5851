#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the registry of checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from mv import registry
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
M = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in registry.CHECKS:
        t, note = registry.TECHNIQUE[p] if p in registry.TECHNIQUE else registry.DEFAULT
        M["checks"].append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                            "technique": t, "level": "model_checking", "level_note": note})
    else:
        M["not_applicable"].append({"property": p, "reason": registry.NA.get(p, "no check built yet")})
M["notes"] = "TLA+ specification in spec/, checked with TLC; conformance harness in harness/; see DESIGN.md."
json.dump(M, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
