"""Writes MANIFEST.json from properties.jsonl and the plan."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN
root = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i,
                       "quick_cmd": f"python3 /verif/lib/run.py {i} --tier quick",
                       "thorough_cmd": f"python3 /verif/lib/run.py {i} --tier thorough",
                       "technique": PLAN[i].get("technique", "TLA+ specification checked with TLC; behaviours generated "
                                    "by TLC from the specification are replayed into the real code and the recorded "
                                    "traces are validated against the specification by TLC"),
                       "level": PLAN[i]["level"],
                       "level_note": PLAN[i].get("note", "")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 /verif/lib/run.py setup", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
