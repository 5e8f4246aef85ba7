#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/properties_src.py and tools/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from properties_src import P
from registry import CHECKS, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
                 "evidence_file": f"evidence/{i}.json", "technique": CHECKS[i]["technique"], "level": CHECKS[i].get("level", "model_checking"),
                 "level_note": CHECKS[i]["level_note"]} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in CHECKS],
     "notes": "Everything is built by tools/vb.py from /repo's working tree; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
