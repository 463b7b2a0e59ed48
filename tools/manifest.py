#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that a check module claims, the rest under not_applicable."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.environ["VERIF_DIR"] = V; sys.path.insert(0, V); sys.dont_write_bytecode = True
import checks
claimed = checks.all_ids()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    if p["id"] in claimed:
        t, note = claimed[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py check %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
                            "technique": t, "level": "model_checking", "level_note": note})
    else: m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "machinery not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
