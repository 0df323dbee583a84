#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from mmv/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.dont_write_bytecode = True
from mmv.props import PROPS
try:
    from mmv.props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(ROOT, "mmv/checks", p["id"].lower() + ".py")) or p["id"] in dict(NOT_APPLICABLE):
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick", "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                   "technique": "property-based testing: Hypothesis-generated cases against an independent oracle, failures shrunk to a replay file",
                   "level": "exploration",
                   "level_note": p["note"] or "Generated-input search; decides the property on the explored cases only. Bounds of the generators are in the evidence (rule, assumptions) and in DESIGN.md."})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import hypothesis, numpy'", "checks": checks,
           "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
           "notes": "run.py ID --replay FILE re-runs a replay file. Checks import the code of /repo's working tree; when the compiled extensions there do not match the Cython sources they rebuild them in a scratch copy."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")
