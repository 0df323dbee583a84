"""The NURBSpline class, and periodic curves of both classes."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st
from mmcore.geom.curves.bspline import NURBSpline

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve
from ..strat import curve_labels, curve_samples, curve_ts, extent, mult

FACETS = []
RULE = "Random splines as in C01, periodic ones made from random control points; trivial when all points coincide or the cut is at an end."
ASSUMPTIONS = ["control points, knots and weights are changed through the setters",
               "parameters outside of a periodic curve's domain are at most three periods away"]


def mk(c):
    pts = np.array(c["points"], dtype=float)
    if c["weights"]:
        pts = np.c_[pts, c["weights"]]
    return NURBSpline(pts, c["degree"], None if c["knots"] is None else np.array(c["knots"], dtype=float))


def spread(c):
    return max(c["weights"]) / min(c["weights"]) if c["weights"] else 1.0


@facet(FACETS, curve_ts, 500, 8000)
def evaluate(case, ctx):
    """points, derivatives, tangent and domain of a NURBSpline are those of the spline"""
    c = case["c"]
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    s = mk(c)
    scale = extent(c["points"]) * spread(c)
    require(tuple(s.interval()) == (k[0], k[-1]), "interval %s, expected %s", tuple(s.interval()), (k[0], k[-1]))
    require(oracle.close(s.greville_abscissae, [sum(k[i + 1:i + 1 + c["degree"]]) / c["degree"] for i in range(len(c["points"]))], 1e-12, max(map(abs, k))), "Greville abscissae %s", s.greville_abscissae)
    many = np.asarray(s.evaluate_multi(np.array(case["t"])))
    call = np.asarray(s(np.array(case["t"])))
    for i, t in enumerate(case["t"]):
        e = oracle.curve_point(c, k, t)
        for name, got in (("evaluate", s.evaluate(t)), ("evaluate_multi", many[i]), ("call", call[i]), ("call of a number", s(t)), ("evaluate4d", s.evaluate4d(t)[:3])):
            require(oracle.close(got, e, 1e-9, scale), "%s at %r: %s, expected %s", name, t, np.asarray(got).tolist(), e.tolist())
        o = min(c["degree"], 3)
        D = oracle.curve_derivs(c, k, t, o)
        m = max(scale, max(float(np.abs(d).max()) for d in D))
        for name, got in (("derivatives1", s.derivatives1(t, o)), ("derivatives2", s.derivatives2(t, o))):
            require(len(got) == o + 1, "%s(%r, %s): %s derivatives", name, t, o, len(got))
            for j in range(o + 1):
                require(oracle.close(got[j], D[j], 1e-7, m), "%s[%d] at %r: %s, expected %s", name, j, t, np.asarray(got[j]).tolist(), D[j].tolist())
        require(oracle.close(s.derivative(t), D[1], 1e-7, m), "derivative at %r: %s, expected %s", t, s.derivative(t), D[1])
        n = float(np.linalg.norm(D[1]))
        if n > 1e-3 * m:
            require(oracle.close(s.tangent(t), D[1] / n, 1e-6), "tangent at %r: %s, expected %s", t, s.tangent(t), D[1] / n)


@st.composite
def cut(draw):
    c = draw(gen.curve())
    return {"c": c, "t": draw(gen.inside(gen.curve_knots(c)))}


@facet(FACETS, cut, 300, 5000)
def split(case, ctx):
    """the two halves of a split NURBSpline are its parts, weights included; it stays as it was"""
    c, t = case["c"], case["t"]
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    if not k[0] < t < k[-1] or any(0 < abs(t - x) < 1e-3 for x in k) or mult(k, t) > c["degree"]:
        ctx.trivial()
        return
    ctx.label("at-knot" if t in k else "between")
    s = mk(c)
    a, b = s.split(t)
    require(tuple(a.interval()) == (k[0], t) and tuple(b.interval()) == (t, k[-1]), "parts over %s and %s, cut at %r of %s", tuple(a.interval()), tuple(b.interval()), t, (k[0], k[-1]))
    scale = extent(c["points"]) * spread(c)
    for x in curve_samples(c) + [t]:
        e = oracle.curve_point(c, k, x)
        for part in ([a] if x <= t else []) + ([b] if x >= t else []):
            require(oracle.close(part.evaluate(x), e, 1e-8, scale), "cut at %r: at %r the part gives %s, the curve %s", t, x, part.evaluate(x), e)
        require(oracle.close(s.evaluate(x), e, 1e-9, scale), "the curve itself changed: at %r it gives %s", x, s.evaluate(x))


@st.composite
def history(draw):
    c = draw(gen.curve(max_degree=3, max_extra=4))
    n = len(c["points"])
    k = gen.curve_knots(c)
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(["points", "weights", "knots", "set", "deepcopy", "pickle", "touch", "evaluate"]))
        if op == "points":
            ops.append([op, draw(gen.points(n))])
        elif op == "weights":
            ops.append([op, draw(st.lists(gen.weight(), min_size=n, max_size=n))])
        elif op == "knots":
            ops.append([op, draw(gen.clamped_knots(c["degree"], n))])
        elif op == "set":
            ops.append([op, [draw(gen.points(n)), draw(st.one_of(st.none(), gen.clamped_knots(c["degree"], n)))]])
        else:
            ops.append([op, draw(gen.param(k))])
    return {"c": c, "ops": ops, "f": draw(st.lists(gen.unit(), min_size=2, max_size=2))}


@facet(FACETS, history, 400, 6000)
def edits(case, ctx):
    """after any history of assignments, copies and evaluations the spline evaluates to what it was last told"""
    c = copy.deepcopy(case["c"])
    curve_labels(ctx, c)
    s = mk(c)
    kn = np.array(gen.curve_knots(c))
    others = []  # earlier splines and what they were when copied
    for op, x in case["ops"]:
        ctx.label(op)
        k = gen.curve_knots(c)
        if op == "points":
            s.control_points = np.array(x)
            c["points"], c["weights"] = x, None
        elif op == "weights":
            s.weights = np.array(x)
            c["weights"] = x
        elif op == "knots":
            kn = np.array(x)
            s.knots = kn
            c["knots"] = list(x)
        elif op == "set":
            kn = np.array(k if x[1] is None else x[1])
            s.set(np.hstack([x[0], np.ones((len(x[0]), 1))]), kn.copy())
            c["points"], c["weights"], c["knots"] = x[0], None, kn.tolist()
        elif op in ("deepcopy", "pickle"):
            others.append((s, copy.deepcopy(c)))
            s = copy.deepcopy(s) if op == "deepcopy" else pickle.loads(pickle.dumps(s))
        elif op == "touch":  # what evaluation returned, and what was handed in, belongs to the caller
            s.evaluate(k[0])[:] = 99.0
            kn[:] = 7.0
        else:
            s.evaluate(min(max(x, k[0]), k[-1]))
        for z, d in others + [(s, c)]:
            kk = gen.curve_knots(d)
            require(tuple(z.interval()) == (kk[0], kk[-1]), "after %s: interval %s, expected %s", op, tuple(z.interval()), (kk[0], kk[-1]))
            for f in case["f"] + [0.0]:
                t = gen.snap(kk, kk[0] + (kk[-1] - kk[0]) * f)
                e = oracle.curve_point(d, kk, t)
                require(oracle.close(z.evaluate(t), e, 1e-9, extent(d["points"]) * spread(d)), "after %s: at %r the %s gives %s, expected %s", op, t, "spline" if z is s else "copied spline",
                        z.evaluate(t), e)


@st.composite
def periodic_case(draw):
    p = draw(st.integers(1, 5))
    n = p + 1 + draw(st.integers(0, 6))
    w = draw(st.one_of(st.none(), st.lists(gen.weight(), min_size=n, max_size=n)))
    return {"degree": p, "points": draw(gen.points(n)), "weights": w, "knots": None, "x": draw(st.lists(gen.unit(), min_size=2, max_size=3)), "wrap": draw(st.integers(-3, 3)),
            "cls": draw(st.sampled_from(["NURBSpline", "NURBSCurve"])), "ctor": draw(st.booleans()), "copy": draw(st.sampled_from(["none", "deepcopy", "pickle"]))}


@facet(FACETS, periodic_case, 500, 8000)
def periodic(case, ctx):
    """a curve made periodic is the uniform closed spline of its control points, repeats outside of its domain, and opens to the curve it was"""
    from mmcore.geom.nurbs import NURBSCurve
    c, p, n = case, case["degree"], len(case["points"])
    w = c["weights"] or [1.0] * n
    ctx.label(c["cls"], "degree%d" % p, "rational" if c["weights"] else "polynomial", c["copy"])
    rows = [tuple(x) + (y,) for x, y in zip(c["points"], w)]
    wrapped = rows[:p] == rows[-p:]
    if wrapped or len(set(rows)) == 1:
        ctx.trivial()
        return
    pts = np.array(rows) if c["weights"] else np.array(c["points"], dtype=float)
    cls = NURBSpline if c["cls"] == "NURBSpline" else NURBSCurve
    if c["ctor"]:
        s = cls(pts, p, None, True)
    else:
        s = cls(pts, p)
        require(not s.is_periodic(), "the open curve %s calls itself periodic", rows)
        s.make_periodic()
    if c["copy"] != "none":
        s = copy.deepcopy(s) if c["copy"] == "deepcopy" else pickle.loads(pickle.dumps(s))
    require(s.is_periodic() and s.periodic, "a curve made periodic is not")
    U = [float(i) for i in range(-p, n + p + 1)]
    require(np.asarray(s.knots).tolist() == U, "knots %s, expected %s", np.asarray(s.knots).tolist(), U)
    require(tuple(s.interval()) == (0.0, float(n)), "domain %s, expected (0, %s)", tuple(s.interval()), n)
    require(np.asarray(s.control_points).tolist() == [list(r[:3]) for r in rows + rows[:p]], "control points %s", np.asarray(s.control_points).tolist())
    H = oracle.homog([list(r[:3]) for r in rows + rows[:p]], w + w[:p])
    scale = extent(c["points"]) * spread(c)
    for f in c["x"] + [0.0, 1.0]:
        t = gen.snap(U, f * n)
        kk = min(max(int(np.floor(t)), 0), n - 1) + p
        d = min(p, 2)
        v = [[float(y) for y in r] for r in oracle.homog_derivs_in(U, p, H, t, kk, d)]
        e = np.array(v[0][:3]) / v[0][3]
        d1 = (np.array(v[1][:3]) - e * v[1][3]) / v[0][3]
        for z in [t] + ([t + c["wrap"] * n] if t not in (0.0, float(n)) else []):
            got = s.evaluate(z)
            require(oracle.close(got, e, 1e-8, scale), "at %r the periodic curve gives %s, expected %s", z, got, e)
            m = np.asarray(s.evaluate_multi(np.array([z])))[0]
            require(oracle.close(m, e, 1e-8, scale), "evaluate_multi at %r: %s, expected %s", z, m, e)
            if t != int(t) or p > 1:
                g = s.derivative(z)
                require(oracle.close(g, d1, 1e-6, max(scale, float(np.abs(d1).max()))), "at %r the derivative of the periodic curve is %s, expected %s", z, g, d1)
    require(oracle.close(s.start(), s.end(), 1e-9, scale) and s.is_closed(), "a periodic curve is not closed")
    s.make_open()
    require(not s.periodic and tuple(s.interval()) == (0.0, float(n - p)), "opened: periodic %s, domain %s", s.periodic, tuple(s.interval()))
    require(np.asarray(s.control_points).tolist() == [list(r[:3]) for r in rows], "opened: control points %s", np.asarray(s.control_points).tolist())
    o = {"degree": p, "points": [list(r[:3]) for r in rows], "weights": w}
    k = gen.default_knots(n, p)
    for f in c["x"]:
        t = gen.snap(k, f * (n - p))
        e = oracle.curve_point(o, k, t)
        require(oracle.close(s.evaluate(t), e, 1e-9, scale), "opened: at %r the curve gives %s, expected %s", t, s.evaluate(t), e)


@st.composite
def circ(draw):
    return {"o": draw(st.lists(gen.coord(), min_size=3, max_size=3)), "r": draw(st.integers(1, 4000)) / 500.0, "t": draw(st.lists(gen.unit(), min_size=3, max_size=4))}


@facet(FACETS, circ, 200, 2000)
def circle(case, ctx):
    """a circle has every point at the radius from its centre, in its plane"""
    s = NURBSpline.create_circle(case["o"], case["r"])
    o, r = np.array(case["o"]), case["r"]
    require(oracle.close(list(s.interval()), [0.0, 2 * np.pi], 1e-12), "domain %s", s.interval())
    prev = -1.0
    for f in sorted(case["t"]):
        v = s.evaluate(min(f * 2 * np.pi, s.interval()[1])) - o
        require(abs(v[2]) <= 1e-9 * max(1, np.abs(o).max()) and abs(np.hypot(v[0], v[1]) - r) <= 1e-9 * max(r, np.abs(o).max()), "the point %s is not on the circle %s %s", v + o, case["o"], r)
        a = np.arctan2(v[1], v[0]) % (2 * np.pi)
        if 1e-6 < f < 1 - 1e-6:
            require(a > prev - 1e-9, "the circle does not run counter-clockwise")
            prev = a
    for q, w in enumerate(([1, 0], [0, 1], [-1, 0], [0, -1])):
        require(oracle.close(s.evaluate(q * np.pi / 2)[:2], o[:2] + r * np.array(w), 1e-9, max(r, float(np.abs(o).max()))), "quarter %s at %s", q, s.evaluate(q * np.pi / 2))
