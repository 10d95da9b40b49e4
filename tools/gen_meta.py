#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__)); sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from properties_src import PROPS
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [p["id"] for p in PROPS]; assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps(p) + "\n")
try:
    from registry import CHECKS, NOT_CLAIMED
except ImportError:
    CHECKS, NOT_CLAIMED = {}, {}
checks, na = [], []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if c:
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
            thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        na.append(dict(property=p["id"], reason=NOT_CLAIMED.get(p["id"], "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
  notes="All checks: explicit TLA+ specification checked with TLC, bound to the code by TLC trace validation of runs of the real code (specs/, harness/, see DESIGN.md).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")
