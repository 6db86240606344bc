"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and checks/."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P  # noqa: E402

NA = {}  # id -> reason (genuinely not applicable)

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")

checks, na = [], []
for p in P:
    path = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
    if os.path.exists(path):
        src = open(path).read()
        m = re.search(r'^TECHNIQUE = (.+?)\n(?=[A-Z\n])', src, re.S | re.M)
        technique = eval(m.group(1)) if m else "property-based testing (Hypothesis) against an explicit oracle"
        m = re.search(r'^NOTE = (\(.+?\)|".+?")\n', src, re.S | re.M)
        note = eval(m.group(1)) if m else "Exploration of generated inputs; establishes no absence of violations."
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": technique, "level": "exploration", "level_note": note})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "Every check runs generated-input search (Hypothesis) through check.sh -> vlib/run.py; see DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
