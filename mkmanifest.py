#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that exist."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "analysis"))
import rules
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Static: decided from the type-checked MIR of the current tree on every run, without executing it. Constructs the analysis cannot interpret "
        "are reported as undecided obligations in the evidence, never as violations.")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in rules.RULES:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py --tier quick {i}", "thorough_cmd": f"python3 check.py --tier thorough {i}",
                            "technique": rules.TECH[i], "level": "other", "level_note": rules.EXPLAIN[i] + ". " + NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": rules.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
