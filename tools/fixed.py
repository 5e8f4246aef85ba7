#!/usr/bin/env python3
"""fixed.py PROP COMMIT 'what failed' : record a repaired defect in known_findings.json
   fixed.py --known PROP KEY 'what fails' : record a defect that is not repaired"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
if sys.argv[1] == "--known":
    pr, key, what = sys.argv[2:5]
    d["findings"].append({"property": pr, "status": "open", "key": key, "what": what})
else:
    pr, co, what = sys.argv[1:4]
    d["findings"].append({"property": pr, "status": "fixed", "commit": co, "what": f"fixed: property={pr} {co} {what}"})
json.dump(d, open(p, "w"), indent=1)
