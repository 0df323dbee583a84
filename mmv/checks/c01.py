"""Curve evaluation against exact rational arithmetic."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve
from ..strat import curve_labels, curve_ts, extent

FACETS = []
RULE = ("Random clamped B-spline/NURBS curves (degree 1-5, up to 12 control points, interior knots of any multiplicity up to the "
        "degree, positive weights, arbitrary domains) with parameters that hit knots and domain ends often; a case is trivial when "
        "all control points coincide.")
ASSUMPTIONS = ["the reference is de Boor's recurrence in exact rational arithmetic; agreement within 1e-9 relative to the size of the control net"]


@facet(FACETS, lambda: curve_ts(4), 1500, 20000)
def value(case, ctx):
    """evaluate, evaluate_multi, call and points give the point of the B-spline definition"""
    c = case["c"]
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    crv = mk_curve(c)
    scale = extent(c["points"])
    want = [oracle.curve_point(c, k, t) for t in case["t"]]
    for t, w in zip(case["t"], want):
        require(oracle.close(crv.evaluate(t), w, 1e-9, scale), "evaluate(%r) = %s, the definition gives %s", t, list(crv.evaluate(t)), w.tolist())
        require(oracle.close(np.asarray(crv(t)).reshape(-1), w, 1e-9, scale), "curve(%r) = %s, the definition gives %s", t, np.asarray(crv(t)).tolist(), w.tolist())
    got = np.asarray(crv.evaluate_multi(np.array(case["t"])))
    require(oracle.close(got, np.array(want), 1e-9, scale), "evaluate_multi(%s) = %s, the definition gives %s", case["t"], got.tolist(), np.array(want).tolist())
    got = np.asarray(crv(np.array(case["t"])))
    require(oracle.close(got, np.array(want), 1e-9, scale), "curve(%s) = %s, the definition gives %s", case["t"], got.tolist(), np.array(want).tolist())


@facet(FACETS, lambda: st.tuples(gen.curve(), st.integers(2, 9)), 400, 5000)
def whole(case, ctx):
    """the interval is the knot domain, start/end/points are evaluations, is_closed tells whether the ends meet"""
    c, n = case
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    crv = mk_curve(c)
    scale = extent(c["points"])
    require(list(crv.interval()) == [k[0], k[-1]], "interval() = %s, the domain is %s", crv.interval(), [k[0], k[-1]])
    a, b = oracle.curve_point(c, k, k[0]), oracle.curve_point(c, k, k[-1])
    require(oracle.close(crv.start(), a, 1e-9, scale), "start() = %s, the curve starts at %s", list(crv.start()), a.tolist())
    require(oracle.close(crv.end(), b, 1e-9, scale), "end() = %s, the curve ends at %s", list(crv.end()), b.tolist())
    gap = float(np.max(np.abs(a - b)))
    if gap < 5e-8 or gap > 2e-7:
        require(bool(crv.is_closed()) == (gap < 1e-7), "is_closed() = %s, but the ends are %g apart", crv.is_closed(), gap)
        require(bool(crv.is_open()) != (gap < 1e-7), "is_open() = %s, but the ends are %g apart", crv.is_open(), gap)
    got = np.asarray(crv.points(n))
    ts = [k[0] + (k[-1] - k[0]) * i / (n - 1) for i in range(n)]
    ts[-1] = k[-1]
    ts = [gen.snap(k, t, 1e-9) for t in ts]
    want = np.array([oracle.curve_point(c, k, t) for t in ts])
    require(oracle.close(got, want, 1e-6, scale), "points(%d) = %s, expected %s", n, got.tolist(), want.tolist())
    require(np.array_equal(np.asarray(crv.knots), np.array(k)), "knots = %s, expected %s", np.asarray(crv.knots).tolist(), k)
    require(crv.degree == c["degree"], "degree = %s, expected %s", crv.degree, c["degree"])
    require(oracle.close(np.asarray(crv.control_points)[:, :3], np.array(c["points"]), 1e-12, scale), "control points changed")


@facet(FACETS, lambda: st.tuples(curve_ts(2), gen.points(4)), 500, 5000)
def affine(case, ctx):
    """evaluating commutes with affine maps of the control points (metamorphic; weights unchanged)"""
    cc, m = case
    c = cc["c"]
    curve_labels(ctx, c)
    A, b = np.array(m[:3]), np.array(m[3])
    c2 = dict(c, points=[(A @ np.array(p) + b).tolist() for p in c["points"]])
    x, y = mk_curve(c), mk_curve(c2)
    scale = extent(c["points"]) * max(1.0, float(np.abs(A).max())) * 3 + float(np.abs(b).max())
    for t in cc["t"]:
        want = A @ np.asarray(x.evaluate(t)) + b
        require(oracle.close(y.evaluate(t), want, 1e-9, scale), "at %r: image of the point %s, point of the image %s", t, want.tolist(), list(y.evaluate(t)))
