"""Histories of edits, copies and round trips on curves, against a plain model."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve
from ..strat import curve_labels, extent, far_inside, mult

FACETS = []
RULE = ("Random NURBS curves with histories of up to 12 operations (evaluate, replace control points / weights / knots, insert a knot, normalise, copy, deep copy, "
        "pickle, serialise, change the arrays handed in or out); a case is trivial when no operation changes or copies anything.")
ASSUMPTIONS = ["after every operation every live curve is compared with its model at fixed parameters (so evaluation caches are warm) within 1e-8",
               "a curve given its points or knots through `set` may keep the arrays it is given (they are handed over)"]


@st.composite
def history(draw):
    c = draw(gen.curve(max_degree=4, max_extra=4))
    n, p = len(c["points"]), c["degree"]
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        op = draw(st.sampled_from(["points", "weights", "knots", "insert", "normalize", "copy", "deepcopy", "pickle", "serialize", "spoil-input", "spoil-output", "set", "evaluate"]))
        arg = None
        if op in ("points", "spoil-output"):
            arg = draw(st.integers(0, 10 ** 6))
        elif op in ("weights", "knots", "set"):
            arg = draw(st.integers(0, 10 ** 6))
        elif op == "insert":
            arg = [draw(st.integers(1, 99)) / 100.0, draw(st.integers(1, 2))]
        elif op == "evaluate":
            arg = draw(gen.unit())
        ops.append([op, draw(st.integers(0, 5)), arg])
    return {"c": c, "ops": ops}


class Model:
    def __init__(self, c):
        self.p = c["degree"]
        self.pts = [list(x) for x in c["points"]]
        self.w = list(c["weights"]) if c["weights"] else [1.0] * len(c["points"])
        self.k = list(gen.curve_knots(c))

    def clone(self):
        return copy.deepcopy(self)

    def curve(self):
        return {"degree": self.p, "points": self.pts, "weights": self.w, "knots": self.k}

    def params(self):
        a, b = self.k[0], self.k[-1]
        return [a, b] + [gen.snap(self.k, a + (b - a) * f, 1e-7) for f in (0.21, 0.5, 0.83)]


def from_seed(seed, n, m):
    r = np.random.RandomState(seed)
    return (r.randint(-400, 400, size=(n, m)) / 64.0).tolist()


def verify(crv, m, msg):
    c = m.curve()
    scale = extent(m.pts) * max(m.w) / min(m.w)
    require(list(crv.interval()) == [m.k[0], m.k[-1]], "%s: interval %s, expected %s", msg, crv.interval(), [m.k[0], m.k[-1]])
    require(np.array_equal(np.asarray(crv.knots), m.k), "%s: knots %s, expected %s", msg, list(crv.knots), m.k)
    require(oracle.close(np.asarray(crv.control_points), m.pts, 1e-9, scale), "%s: control points %s, expected %s", msg, np.asarray(crv.control_points).tolist(), m.pts)
    require(oracle.close(np.asarray(crv.weights), m.w, 1e-9, max(m.w)), "%s: weights %s, expected %s", msg, np.asarray(crv.weights).tolist(), m.w)
    g = [float(np.mean(m.k[i + 1:i + 1 + m.p])) for i in range(len(m.pts))]
    require(oracle.close(np.asarray(crv.greville_abscissae), g, 1e-9, max(abs(x) for x in m.k)), "%s: Greville abscissae %s, expected %s", msg, np.asarray(crv.greville_abscissae).tolist(), g)
    ts = m.params()
    for t in ts:
        got, want = crv.evaluate(t), oracle.curve_point(c, m.k, t)
        require(oracle.close(got, want, 1e-8, scale), "%s: evaluate(%r) = %s, expected %s", msg, t, list(got), want.tolist())
    got = np.asarray(crv.evaluate_multi(np.array(ts)))
    require(oracle.close(got, [oracle.curve_point(c, m.k, t) for t in ts], 1e-8, scale), "%s: evaluate_multi differs from the definition", msg)


@facet(FACETS, history, 500, 8000, cpu=120)
def histories(case, ctx):
    """every curve of a pool stays equal to its model through edits, copies and round trips of any of them"""
    from mmcore.geom.nurbs import NURBSCurve
    c = case["c"]
    curve_labels(ctx, c)
    pts = np.array([p + ([w] if c["weights"] else []) for p, w in zip(c["points"], c["weights"] or [1.0] * len(c["points"]))])
    kn = None if c["knots"] is None else np.array(c["knots"])
    pool = [(NURBSCurve(pts, c["degree"], kn), Model(c))]
    verify(*pool[0], "at first")
    changed = False
    for op, who, arg in case["ops"]:
        crv, m = pool[who % len(pool)]
        msg = "after %s on curve %d of %d" % (op, who % len(pool), len(pool))
        n = len(m.pts)
        changed |= op not in ("evaluate",)
        ctx.label(op)
        if op == "points":
            m.pts = from_seed(arg, n, 3)
            new = np.array([p + [w] for p, w in zip(m.pts, m.w)])
            crv.control_points = new
            new[:] = 7.0
        elif op == "weights":
            m.w = [0.25 + abs(x[0]) for x in from_seed(arg, n, 1)]
            new = np.array(m.w)
            crv.weights = new
            new[:] = 3.0
        elif op == "knots":
            r = np.random.RandomState(arg)
            inner = sorted((r.randint(1, 15, size=n - m.p - 1) / 4.0).tolist())
            out = []
            for x in inner:
                while mult(out, x) >= m.p:
                    x += 0.25
                out.append(x)
            m.k = [0.0] * (m.p + 1) + sorted(out) + [16.0] * (m.p + 1)
            new = np.array(m.k)
            crv.knots = new
            new[:] = -1.0
        elif op == "set":
            m.pts = from_seed(arg, n + 1, 3)
            m.w = [0.5 + abs(x[0]) for x in from_seed(arg + 1, n + 1, 1)]
            m.k = [0.0] * (m.p + 1) + [float(i) for i in range(1, n + 1 - m.p)] + [float(n + 1 - m.p)] * (m.p + 1)
            crv.set(np.array([p + [w] for p, w in zip(m.pts, m.w)]), np.array(m.k))
        elif op == "insert":
            t = gen.snap(m.k, m.k[0] + arg[0] * (m.k[-1] - m.k[0]), 1e-3)
            cnt = min(arg[1], m.p - mult(m.k, t))
            if cnt < 1 or not far_inside(m.k, t):
                continue
            ref = m.clone()
            crv.insert_knot(t, cnt)
            m.k = sorted(m.k + [t] * cnt)
            cp, w = np.asarray(crv.control_points), np.asarray(crv.weights)
            require(cp.shape == (n + cnt, 3), "%s: %d control points", msg, len(cp))
            m.pts, m.w = cp.tolist(), w.tolist()
            for t2 in ref.params():
                require(oracle.close(oracle.curve_point(m.curve(), m.k, t2), oracle.curve_point(ref.curve(), ref.k, t2), 1e-8, extent(ref.pts) * max(ref.w) / min(ref.w)),
                        "%s: the shape changed at %r", msg, t2)
        elif op == "normalize":
            a, b = m.k[0], m.k[-1]
            crv.normalize_knots()
            want = [(x - a) / (b - a) for x in m.k]
            got = [float(x) for x in crv.knots]
            require(oracle.close(got, want, 1e-12), "%s: knots %s, expected %s", msg, got, want)
            m.k = got
        elif op in ("copy", "deepcopy", "pickle", "serialize"):
            if len(pool) >= 5:
                continue
            if op == "copy":
                new = crv.copy()
            elif op == "deepcopy":
                new = copy.deepcopy(crv)
            elif op == "pickle":
                new = pickle.loads(pickle.dumps(crv))
            else:
                data = crv.serialize()
                new = NURBSCurve.deserialize(data)
                require(new.serialize() == data, "%s: serialising again gives other bytes", msg)
            require(new == crv and hash(new) == hash(crv), "%s: the copy is not equal to the curve", msg)
            require(new.degree == m.p, "%s: degree %s", msg, new.degree)
            require(bool(new.is_periodic()) == bool(crv.is_periodic()), "%s: periodicity changed", msg)
            pool.append((new, m.clone()))
        elif op == "spoil-input":
            pts[:] = 99.0
            if kn is not None:
                kn[:] = 99.0
        elif op == "spoil-output":
            t = m.params()[arg % 5]
            crv.evaluate(t)[:] = 55.0
            np.asarray(crv.evaluate_multi(np.array([t])))[:] = 55.0
            np.asarray(crv.start())[:] = 55.0
        elif op == "evaluate":
            t = gen.snap(m.k, m.k[0] + arg * (m.k[-1] - m.k[0]))
            got, want = crv.evaluate(min(t, m.k[-1])), oracle.curve_point(m.curve(), m.k, min(t, m.k[-1]))
            require(oracle.close(got, want, 1e-8, extent(m.pts) * max(m.w) / min(m.w)), "evaluate(%r) = %s, expected %s", t, list(got), want.tolist())
        for i, (x, y) in enumerate(pool):
            verify(x, y, msg + ", curve %d" % i)
    if not changed:
        ctx.trivial()


@facet(FACETS, lambda: st.tuples(gen.curve(), st.integers(0, 10 ** 6)), 300, 3000)
def equality(case, ctx):
    """curves built alike are equal with equal hashes; curves that differ in one coordinate, weight, knot or degree are not"""
    c, seed = case
    curve_labels(ctx, c)
    x, y = mk_curve(c), mk_curve(c)
    require(x == y and hash(x) == hash(y), "two curves of the same data differ")
    r = np.random.RandomState(seed)
    i = r.randint(len(c["points"]))
    pts = [list(p) for p in c["points"]]
    pts[i][r.randint(3)] += 0.5
    require(not (x == mk_curve(dict(c, points=pts))), "equal although control point %d differs", i)
    w = list(c["weights"] or [1.0] * len(pts))
    w[i] += 0.5
    require(not (x == mk_curve(dict(c, weights=w))), "equal although weight %d differs", i)
    k = [q * 2 + 1 for q in gen.curve_knots(c)]
    require(not (x == mk_curve(dict(c, knots=k))), "equal although the knots differ")
