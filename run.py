#!/usr/bin/env python3
"""run.py ID [--replay FILE] [--facet NAME] [--examples N]     (VERIF_SEED, VERIF_TIER in the environment)"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from mmv import tree  # noqa: E402


def worker(root, scratch, name, job, wall):
    jp, op = os.path.join(scratch, name + ".job"), os.path.join(scratch, name + ".out")
    json.dump(job, open(jp, "w"))
    cwd = os.path.join(scratch, name + ".cwd")
    os.makedirs(cwd, exist_ok=True)
    env = {**os.environ, **tree.ENV, "MMV_TREE": root, "PYTHONPATH": HERE}
    log = open(os.path.join(scratch, name + ".log"), "ab")
    p = subprocess.Popen([tree.PY, "-m", "mmv.worker", jp, op], env=env, cwd=cwd, stdout=subprocess.DEVNULL, stderr=log,
                         start_new_session=True)
    try:
        rc = p.wait(timeout=wall)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = "wall"
    out = json.load(open(op)) if os.path.exists(op) else None
    if os.path.exists(op):
        os.remove(op)
    last = None
    try:
        with open(op + ".case", "rb") as f:
            n = int.from_bytes(f.read(8), "big")
            last = json.loads(f.read(n))
    except (OSError, ValueError):
        pass
    err = open(log.name, "rb").read()[-4000:].decode(errors="replace")
    return rc, out, last, err


def describe(rc):
    if rc == -signal.SIGPROF:
        return "a generated case does not terminate (CPU limit)"
    if isinstance(rc, int) and rc < 0:
        return f"the process is killed by {signal.Signals(-rc).name} on a generated case"
    return f"the worker ended with {rc}"


def run_facet(root, scratch, base, f, wall):
    """-> dict(result) with either failure or harness set"""
    rc, out, last, err = worker(root, scratch, f["facet"], {**base, **f}, wall)
    if out is not None:
        return out
    if rc == "wall" or not (isinstance(rc, int) and rc < 0) or rc == -signal.SIGKILL:
        return {"facet": f["facet"], "harness": f"worker: {rc}\n{err}"}
    # the code under test crashed or hung: look for the case, each one in a process of its own
    why = describe(rc)
    if last is not None:
        rc1, out1, _, _ = worker(root, scratch, f["facet"] + "-r", {**base, **f, "mode": "cases", "cases": [last]}, wall)
        confirmed = out1 is None and isinstance(rc1, int) and rc1 < 0
        if out1 is not None and out1.get("failure"):
            confirmed = True
        if confirmed:
            small = {**base, **f, "isolate": True, "budget": 150, "shrink": 60, "examples": min(f["examples"], 4000)}
            _, out2, _, _ = worker(root, scratch, f["facet"] + "-i", small, 400)
            if out2 is not None and out2.get("failure"):
                return out2
            return {"facet": f["facet"], "evaluations": 1, "distinct_nontrivial": 1, "samples": [],
                    "failure": {"case": last, "message": why}}
    rc3, out3, last3, err3 = worker(root, scratch, f["facet"] + "-2", {**base, **f}, wall)
    if out3 is None and isinstance(rc3, int) and rc3 < 0 and rc3 != -signal.SIGKILL:
        return {"facet": f["facet"], "evaluations": 1, "distinct_nontrivial": 1, "samples": [],
                "failure": {"case": last3, "message": why + " (only after the cases before it: replay runs the whole facet)",
                            "whole_facet": True}}
    if out3 is not None and out3.get("failure"):
        return out3
    return {"facet": f["facet"], "harness": f"worker ended with {rc} once, not reproduced\n{err}"}


def read_jsonl(path):
    if not os.path.exists(path):
        return []
    return [json.loads(line) for line in open(path) if line.strip() and not line.startswith("#")]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "big")
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="mmv-run-")
    cleanup = lambda: None
    try:
        root, cleanup = tree.prepare()
        return check(a, tier, seed, root, scratch, t0)
    except tree.BuildError as e:
        print(e, file=sys.stderr)
        return 3
    finally:
        cleanup()
        shutil.rmtree(scratch, ignore_errors=True)


def save_replay(prop, failure, facet, seed, examples):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    body = {"property": prop, "facet": facet, "message": failure["message"], "case": failure["case"]}
    if failure.get("whole_facet"):
        body["whole_facet"] = {"seed": seed, "examples": examples}
    h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(HERE, "replays", f"{prop}-{facet}-{h}.json")
    json.dump(body, open(path, "w"), indent=1)
    return path


def facet_list(root, prop):
    code = ("import sys,json,os,warnings; warnings.simplefilter('ignore'); sys.path.insert(0,os.environ['MMV_TREE'])\n"
            "from mmv import core; m=core.load(sys.argv[1])\n"
            "sys.__stdout__.write('\\nFACETS='+json.dumps({'rule':getattr(m,'RULE',''),'assumptions':getattr(m,'ASSUMPTIONS',[]),"
            "'f':[[f.name,f.quick,f.thorough,f.rule,f.cpu] for f in m.FACETS]})+'\\n')")
    env = {**os.environ, **tree.ENV, "MMV_TREE": root, "PYTHONPATH": HERE}
    r = subprocess.run([tree.PY, "-c", code, prop], env=env, capture_output=True, text=True)
    for line in r.stdout.splitlines():
        if line.startswith("FACETS="):
            return json.loads(line[7:])
    raise SystemExit("harness: cannot load the check\n" + r.stderr[-4000:])


def check(a, tier, seed, root, scratch, t0):
    prop = a.property
    meta = facet_list(root, prop)
    cpu = {f[0]: f[4] for f in meta["f"]}
    base = {"property": prop, "seed": seed, "mode": "search", "budget": 420 if tier == "quick" else 5400, "shrink": 40}
    wall = base["budget"] + 120 + (0 if tier == "quick" else 1200)
    if a.replay:
        rep = json.load(open(a.replay))
        job = {**base, "facet": rep["facet"], "mode": "cases", "cases": [rep["case"]], "examples": 1}
        if rep.get("whole_facet"):
            job.update(mode="search", **rep["whole_facet"])
        rc, out, _, err = worker(root, scratch, rep["facet"], job, wall)
        if out is None and isinstance(rc, int) and rc < 0:
            print(describe(rc))
        elif out is None or out.get("harness"):
            print("harness:", out and out["harness"], err)
            return 3
        elif out["failure"]:
            print(out["failure"]["message"])
        else:
            print("the replayed case holds")
            return 0
        print(f"VIOLATION property={prop} replay={os.path.abspath(a.replay)}")
        return 1

    known = [k for k in read_jsonl(os.path.join(HERE, "known_findings.jsonl")) if k.get("property") == prop and k.get("status") == "open"]
    regress = [r for r in read_jsonl(os.path.join(HERE, "regress", prop + ".jsonl"))]
    facets = [f for f in meta["f"] if not a.facet or f[0] in a.facet.split(",")]
    jobs = []
    with ThreadPoolExecutor(max_workers=max(1, min(a.jobs, 8))) as pool:
        for k in known:
            j = {**base, "mode": "cases", "cases": [k["case"]], "facet": k["facet"], "examples": 1}
            jobs.append(("known", k, pool.submit(worker, root, scratch, "known-" + k["id"], j, 300)))
        for name, *_ in facets:
            cases = [r["case"] for r in regress if r["facet"] == name]
            if cases:
                j = {**base, "mode": "cases", "cases": cases, "facet": name, "examples": 1}
                jobs.append(("regress", (name, cases), pool.submit(worker, root, scratch, "regress-" + name, j, 300)))
        for name, quick, thorough, rule, _ in facets:
            n = a.examples or (quick if tier == "quick" else thorough)
            jobs.append(("facet", (name, n, rule), pool.submit(run_facet, root, scratch, base, {"facet": name, "examples": n}, wall)))
        results = [(kind, what, fut.result()) for kind, what, fut in jobs]

    harness, failures, cover, samples = [], [], [], []
    evaluations = distinct = 0
    for kind, what, r in results:
        if kind == "known":
            rc, out, _, err = r
            still = (out is not None and out.get("failure")) or (out is None and isinstance(rc, int) and rc < 0)
            if still:
                print(f"KNOWN-FINDING: property={prop} {what['what']}")
            continue
        if kind == "regress":
            rc, out, last, err = r
            name, cases = what
            if out is None and isinstance(rc, int) and rc < 0 and last is not None:
                failures.append((name, {"case": last, "message": describe(rc)}, 1))
            elif out is None or out.get("harness"):
                harness.append(f"regress {name}: {rc} {out and out['harness']} {err}")
            elif out["failure"]:
                failures.append((name, out["failure"], 1))
            if out is not None:
                evaluations += out["evaluations"]
            continue
        name, n, rule = what
        if r.get("harness"):
            harness.append(f"{name}: {r['harness']}")
        if r.get("failure"):
            failures.append((name, r["failure"], n))
        evaluations += r.get("evaluations", 0)
        distinct += r.get("distinct_nontrivial", 0)
        samples += r.get("samples", [])[:2]
        cover.append({"facet": name, "checks": rule, "evaluations": r.get("evaluations", 0),
                      "distinct_nontrivial": r.get("distinct_nontrivial", 0), "classes": r.get("labels", {}),
                      "cut_by_budget": r.get("cut", False), "wall_s": round(r.get("wall_s", 0), 1)})
    while len(json.dumps(samples)) > 40000:
        samples.pop()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": distinct,
                       "rule": meta["rule"] or "Hypothesis-generated cases; a case is non-trivial unless its facet marks it trivial.",
                       "samples": samples, "facets": cover},
          "assumptions": meta["assumptions"], "wall_s": round(time.monotonic() - t0, 2), "violations": len(failures)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.facet:
        tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    if a.v or a.facet:
        for c in cover:
            print(json.dumps({k: v for k, v in c.items() if k != "checks"}))
    for h in harness:
        print("HARNESS:", h, file=sys.stderr)
    seen = set()
    for name, failure, n in failures:
        if name in seen:
            continue
        seen.add(name)
        path = save_replay(prop, failure, name, seed, n)
        print(f"{name}: {failure['message']}")
        print(f"VIOLATION property={prop} replay={path}")
    if failures:
        return 1
    if harness:
        return 3
    print(f"{prop}: held on {evaluations} cases ({distinct} distinct non-trivial), {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
