#!/usr/bin/env python3
"""Writes DESIGN.md: the text of tools/design_text.py, and for each property what its check module says about itself."""
import ast, glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, "tools")); sys.dont_write_bytecode = True
from mmv.props import PROPS
try:
    from mmv.props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
import design_text as T

def module(pid):
    t = ast.parse(open(f"{ROOT}/mmv/checks/{pid.lower()}.py").read())
    out = {"facets": [], "RULE": "", "ASSUMPTIONS": []}
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("RULE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "facet":
                    num = [a.value for a in d.args[2:] if isinstance(a, ast.Constant)]
                    out["facets"].append((n.name, " ".join((ast.get_docstring(n) or "").split()), num[0], num[1] if len(num) > 1 else num[0] * 10))
    return out

known = [json.loads(l) for l in open(f"{ROOT}/known_findings.jsonl")]
caught = json.load(open(f"{ROOT}/tools/caught.json")) if os.path.exists(f"{ROOT}/tools/caught.json") else {}
L = [T.HEAD]
L.append("## The properties\n")
for p in sorted(PROPS, key=lambda p: p["id"]):
    i = p["id"]
    if not os.path.exists(f"{ROOT}/mmv/checks/{i.lower()}.py"):
        continue
    m = module(i)
    L.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    L.append(f"*Specified and checked* (facet: cases quick / thorough):\n")
    for n, d, q, t in m["facets"]:
        L.append(f"- `{n}` ({q} / {t}): {d}")
    L.append(f"\n*Generated:* {m['RULE']}\n\n*Oracle:* {T.ORACLE[i]}\n")
    L.append("*Bounds and assumptions:* " + "; ".join(a.rstrip(".") for a in m["ASSUMPTIONS"]) + ".\n")
    L.append(f"*Why the tests cannot settle it:* {p['why_tests_cant']}.\n")
    nf = [k for k in known if k["property"] == i]
    fx, op = [k for k in nf if k["status"] == "fixed"], [k for k in nf if k["status"] == "open"]
    if fx or op:
        L.append(f"*Defects this search found:* {len(fx)} repaired" + (f", {len(op)} recorded as known findings ({', '.join(k['id'] for k in op)})" if op else "") + ".\n")
L.append("## Not applicable\n")
L.append("\n".join(f"- {a}: {b}" for a, b in NOT_APPLICABLE) or "None: every listed property is decided by generated-input search.")
L.append("\n" + T.TAIL)
L.append("## Known findings\n\nGenuine defects that are recorded rather than repaired; each is identified by its facet and case in `known_findings.jsonl`, which the check replays and reports as `KNOWN-FINDING`.\n")
for k in known:
    if k["status"] == "open":
        L.append(f"- **{k['id']}** ({k['property']}): {k['what']}")
L.append("\n## Planted changes and what catches them\n\nEach is in `seeded/<id>/` with its patch and demonstration; `needs` says what it takes to show.\n\n| change | property | needs | caught by (quick tier) |\n|---|---|---|---|")
for d in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    L.append(f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, '?')} |")
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(L) + "\n")
print(len(PROPS), "sections")
