"""kf.py fixed PROP COMMIT TEXT | finding PROP FACET SIG ID CASE_JSON_OR_REPLAY TEXT"""
import json
import os
import sys
p = "/verif/known_findings.json"
d = json.load(open(p))
if sys.argv[1] == "fixed":
    d["fixed"].append(f"fixed: property={sys.argv[2]} {sys.argv[3]} {sys.argv[4]}")
else:
    _, _, prop, facet, sig, id, case, text = sys.argv
    case = json.load(open(case))["case"] if os.path.exists(case) else json.loads(case)
    d["findings"].append({"id": id, "property": prop, "facet": facet, "sig": sig, "case": case, "what": text})
json.dump(d, open(p, "w"), indent=1)
