#!/usr/bin/env python3
"""Writes known_findings.jsonl: one line per repaired defect (from FIXED and /repo's log) and per open finding (open_findings.jsonl, by hand)."""
import json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = dict(l.rsplit("|", 1) for l in open(os.path.join(ROOT, "tools", "fixed.txt")).read().split("\n") if "|" in l)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
out, missing = [], []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = FIXED.get(s)
    if p is None:
        missing.append(s)
        continue
    was = s if p.endswith("!") else "it did not hold that " + s
    p = p.rstrip("!")
    out.append({"property": p, "id": "fixed-" + h, "status": "fixed", "what": "fixed: property=%s %s before: %s" % (p, h, was)})
op = os.path.join(ROOT, "tools", "open_findings.jsonl")
if os.path.exists(op):
    out += [json.loads(l) for l in open(op) if l.strip()]
with open(os.path.join(ROOT, "known_findings.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out), "findings;", "unassigned:", missing)
