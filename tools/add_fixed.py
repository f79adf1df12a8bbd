#!/usr/bin/env python3
"""add_fixed.py PROP COMMIT WHAT: records a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
l = json.load(open(p)) if os.path.exists(p) else []
prop, commit, what = sys.argv[1:4]
l.append({"id": f"F{len(l)+1:02d}", "property": prop, "status": f"fixed: property={prop} {commit} {what}"})
json.dump(l, open(p, "w"), indent=1)
