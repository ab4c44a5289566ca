"""tools/add_fixed.py PROP MECH COMMIT TEXT : record a repaired defect."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, mech, commit, text = sys.argv[1:5]
d["findings"].append({"property": prop, "mechanism": mech, "status": "fixed", "commit": commit, "what": f"fixed: property={prop} {commit} {text}"})
json.dump(d, open(p, "w"), indent=1)
