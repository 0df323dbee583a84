"""Runs one facet of one property in its own process: python -m mmv.worker JOB.json OUT.json"""
import hashlib
import json
import os
import resource
import signal
import sys
import time

import warnings


class StopShrinking(KeyboardInterrupt):
    pass


def seed_of(seed, name):
    return int.from_bytes(hashlib.sha256(f"{seed}/{name}".encode()).digest()[:6], "big")


def canon(case):
    return json.dumps(case, sort_keys=True)


def limit_cpu(seconds):
    signal.setitimer(signal.ITIMER_PROF, seconds)  # CPU time, not wall time: a loaded machine changes nothing


def main(job_path, out_path):
    warnings.simplefilter("ignore")
    job = json.load(open(job_path))
    sys.path.insert(0, os.environ["MMV_TREE"])
    sys.setrecursionlimit(3000)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    from mmv import core
    import mmcore
    tree = os.path.realpath(os.environ["MMV_TREE"])
    assert os.path.realpath(mmcore.__file__).startswith(tree + os.sep), (mmcore.__file__, tree)
    mod = core.load(job["property"])
    f = {x.name: x for x in mod.FACETS}[job["facet"]]
    out = {"facet": f.name, "evaluations": 0, "labels": {}, "samples": [], "failure": None, "harness": None, "cut": False}
    distinct = set()
    lastcase = os.open(out_path + ".case", os.O_CREAT | os.O_RDWR | os.O_TRUNC)
    started = time.monotonic()
    best = [None, None, None]  # size, case, message
    first_failure = [None]

    def note(case):
        data = json.dumps(case).encode()
        os.pwrite(lastcase, len(data).to_bytes(8, "big") + data, 0)

    def execute(case):
        note(case)
        if job.get("isolate"):
            return isolated(case)
        limit_cpu(f.cpu)
        try:
            return core.run_case(f, case)
        finally:
            limit_cpu(0)

    def isolated(case):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                limit_cpu(f.cpu if not first_failure[0] else max(5, f.cpu / 4))
                try:
                    msg, ctx = core.run_case(f, case)
                    res = [msg, ctx.labels, ctx.nontrivial, None]
                except BaseException as e:  # noqa
                    res = [None, [], False, str(e)]
                os.write(w, json.dumps(res)[:60000].encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        ctx = core.Ctx()
        if os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            if sig == signal.SIGPROF:
                return f"does not terminate within {f.cpu} s of CPU time", ctx
            return f"the process is killed by {signal.Signals(sig).name}", ctx
        msg, ctx.labels, ctx.nontrivial, harness = json.loads(data)
        if harness:
            raise core.HarnessError(harness)
        return msg, ctx

    def finish():
        out["distinct_nontrivial"] = len(distinct)
        out["wall_s"] = time.monotonic() - started
        if best[1] is not None:
            out["failure"] = {"case": best[1], "message": best[2]}
        with open(out_path + ".tmp", "w") as g:
            json.dump(out, g)
        os.rename(out_path + ".tmp", out_path)

    if job["mode"] == "cases":  # plain replay, no library
        try:
            for i, case in enumerate(job["cases"]):
                out["evaluations"] += 1
                msg, ctx = execute(case)
                if msg is not None:
                    best[:] = [0, case, msg]
                    out["index"] = i
                    break
        except core.HarnessError as e:
            out["harness"] = str(e)
        finish()
        return

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    def body(case):
        if first_failure[0] is None and time.monotonic() - started > job["budget"]:
            out["cut"] = True
            raise StopShrinking
        msg, ctx = execute(case)
        if first_failure[0] is None:
            out["evaluations"] += 1
            for x in set(ctx.labels):
                out["labels"][x] = out["labels"].get(x, 0) + 1
            if ctx.nontrivial:
                c = canon(case)
                distinct.add(hashlib.md5(c.encode()).digest())
                if len(out["samples"]) < 3 and len(c) < 2500 and (out["evaluations"] > 10 or job["examples"] < 40):
                    out["samples"].append({"facet": f.name, "case": case, "labels": ctx.labels})
        if msg is not None:
            size = len(canon(case))
            if best[0] is None or size <= best[0]:
                best[:] = [size, case, msg]
            if first_failure[0] is None:
                first_failure[0] = time.monotonic()
        if first_failure[0] is not None and time.monotonic() - first_failure[0] > job["shrink"]:
            raise StopShrinking
        if msg is not None:
            raise core.Violation(msg)

    test = given(f.strategy())(body)
    test = settings(
        max_examples=job["examples"], database=None, deadline=None, report_multiple_bugs=False,
        phases=[Phase.explicit, Phase.generate, Phase.shrink],
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
        print_blob=False,
    )(test)
    test = hypothesis.seed(seed_of(job["seed"], job["property"] + "/" + f.name))(test)
    try:
        test()
    except core.HarnessError as e:
        out["harness"] = str(e)
    except StopShrinking:
        pass
    except BaseException as e:  # noqa
        if best[1] is None:
            import traceback
            out["harness"] = "".join(traceback.format_exception(e))[-6000:]
    if out["harness"] and best[1] is not None:
        out["harness"] = None
    finish()


if __name__ == "__main__":
    main(*sys.argv[1:])
