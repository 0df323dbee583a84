"""Building curves and surfaces: interpolation, degree elevation, joining, composition, ruled construction."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st
from mmcore.construction.ruled import ruled as make_ruled
from mmcore.geom.curves import knot as K
from mmcore.geom.curves.bspline import interpolate_nurbs_curve

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve
from ..strat import curve_labels, curve_samples, extent

FACETS = []
RULE = "Random point rows and random pairs of NURBS curves of different degree, knots and weights; trivial when all points coincide."
ASSUMPTIONS = ["curves are compared at every knot and three points of every span, within 1e-8 of the control net (times the spread of the weights)",
               "for the ruled surface knots of the two curves, mapped to [0,1], coincide exactly or differ by more than 1e-3",
               "points to interpolate are either equal to their neighbour or at least 0.01 apart, and more distinct points than the degree are given"]


def spread(*cs):
    m = 1.0
    for c in cs:
        if c.get("weights"):
            m *= max(c["weights"]) / min(c["weights"])
    return m


def same_part(crv, f, c, rev, msg, scale):
    """crv(f(t)) is the curve c (reversed: at the mirrored parameter)."""
    k = gen.curve_knots(c)
    for t in curve_samples(c):
        got = np.asarray(crv.evaluate(float(f(t))))
        want = oracle.curve_point(c, k, t)
        require(oracle.close(got, want, 1e-8, scale), "%s: at %r (parameter %r of the original) the curve gives %s, expected %s", msg, float(f(t)), t, got.tolist(), want.tolist())


@st.composite
def elev(draw):
    return {"c": draw(gen.curve(max_degree=4, max_extra=5)), "n": draw(st.integers(1, 3))}


@facet(FACETS, elev, 300, 4000)
def elevate(case, ctx):
    """degree elevation raises the degree and keeps every point; the original stays as it was"""
    c, n = case["c"], case["n"]
    curve_labels(ctx, c)
    crv = mk_curve(c)
    before = np.array(crv.control_pointsw), np.array(crv.knots)
    e = K.degree_elevate_curve(crv, n)
    k = gen.curve_knots(c)
    require(e.degree == c["degree"] + n, "degree %s after elevating %s by %s", e.degree, c["degree"], n)
    require(len(e.knots) == len(np.asarray(e.control_points)) + e.degree + 1, "%d knots for %d control points", len(e.knots), len(np.asarray(e.control_points)))
    require(oracle.close(list(e.interval()), [k[0], k[-1]], 1e-12, max(map(abs, k))), "domain %s, expected %s", e.interval(), [k[0], k[-1]])
    same_part(e, lambda t: t, c, False, "elevated by %d" % n, extent(c["points"]) * spread(c))
    require((np.array(crv.control_pointsw) == before[0]).all() and (np.array(crv.knots) == before[1]).all(), "elevation changed the original curve")


@st.composite
def bez(draw):
    p = draw(st.integers(1, 7))
    return {"p": p, "pts": draw(gen.points(p + 1, draw(st.integers(1, 4)))), "n": draw(st.integers(1, 5)), "t": draw(st.lists(gen.unit(), min_size=2, max_size=2))}


@facet(FACETS, bez, 400, 8000)
def elevate_bezier(case, ctx):
    """elevating a Bezier control polygon gives the control points of the same polynomial"""
    from fractions import Fraction as F
    p, n = case["p"], case["n"]
    ctx.label("degree%d" % p, "by%d" % n)
    if len(set(map(tuple, case["pts"]))) == 1:
        ctx.trivial()
    q, d = K.degree_elevation_bez(np.array(case["pts"]), p, num=n)
    require(d == p + n and len(q) == d + 1, "degree %s with %s control points after elevating %s by %s", d, len(q), p, n)
    for t in case["t"] + [0.0, 1.0]:
        a = oracle.de_boor([0.0] * (p + 1) + [1.0] * (p + 1), p, case["pts"], t)
        b = oracle.de_boor([0.0] * (d + 1) + [1.0] * (d + 1), d, np.asarray(q).tolist(), t)
        require(oracle.close([float(x) for x in b], [float(x) for x in a], 1e-11, extent(case["pts"])), "at %r: %s, expected %s", t, [float(x) for x in b], [float(x) for x in a])


@st.composite
def rows(draw):
    dim = draw(st.sampled_from([3, 3, 3, 2]))
    d = draw(st.integers(1, 4))
    n = draw(st.integers(d + 1, 9))
    pts = [[float(draw(st.integers(-5, 5))) for _ in range(dim)]]
    step = st.integers(-400, 400).map(lambda i: i / 100.0)
    while len(pts) < n:
        s = draw(st.lists(step, min_size=dim, max_size=dim))
        if draw(st.integers(0, 3)) == 0:
            # straight along one axis
            k = draw(st.integers(0, dim - 1))
            s = [x if i == k else 0.0 for i, x in enumerate(s)]
            s[k] = s[k] or 0.5
        if not any(s):
            s[0] = 1.0
        pts.append([round(a + b, 2) for a, b in zip(pts[-1], s)])
    dup = draw(st.lists(st.integers(0, n - 1), max_size=2)) if draw(st.integers(0, 3)) == 0 else []
    return {"pts": pts, "degree": d, "centripetal": draw(st.booleans()), "dup": dup, "closed": draw(st.integers(0, 4)) == 0}


@facet(FACETS, rows, 500, 8000)
def interpolate(case, ctx):
    """an interpolated curve passes through every point, in order, at its chord-length parameter; the ends are its ends"""
    pts = [list(p) for p in case["pts"]]
    if case["closed"] and pts[-1] != pts[0]:
        pts.append(list(pts[0]))
    uniq = np.array(pts)
    for i in sorted(case["dup"], reverse=True):
        pts.insert(i, list(pts[i]))
    ctx.label("degree%d" % case["degree"], "dim%d" % uniq.shape[1], "centripetal" if case["centripetal"] else "chord", "with-duplicates" if case["dup"] else "distinct")
    a = np.array(pts)
    keep = a.copy()
    cp, kn, d = K.interpolate_curve(a, case["degree"], use_centripetal=case["centripetal"])
    require((a == keep).all(), "interpolate_curve changed the points handed in")
    require(d == case["degree"] and len(cp) == len(uniq) and len(kn) == len(cp) + d + 1, "degree %s, %s control points, %s knots for %s points", d, len(cp), len(kn), len(uniq))
    require(all(x <= y for x, y in zip(kn, kn[1:])) and kn[0] == 0.0 and kn[-1] == 1.0, "the knots %s are not those of a curve over [0,1]", kn)
    # the standard parameters
    ch = np.linalg.norm(np.diff(uniq, axis=0), axis=1)
    if case["centripetal"]:
        ch = np.sqrt(ch)
    u = np.concatenate([[0.0], np.cumsum(ch)]) / ch.sum()
    u[-1] = 1.0
    got = np.asarray(K.compute_params_curve(uniq, case["centripetal"]))
    require(oracle.close(got, u, 1e-9), "parameters %s, expected %s", got.tolist(), u.tolist())
    crv = interpolate_nurbs_curve(a, case["degree"], case["centripetal"])
    require(list(crv.interval()) == [0.0, 1.0] and crv.degree == min(len(pts) - 1, case["degree"]), "domain %s, degree %s", crv.interval(), crv.degree)
    size = max(extent(np.asarray(cp).tolist()), extent(pts))
    for t, p in zip(got, uniq):
        t = min(float(t), 1.0)
        v = np.asarray(crv.evaluate(t))
        w = np.zeros(3)
        w[:len(p)] = p
        require(oracle.close(v, w, 1e-7, size), "at %r the curve gives %s, the point is %s", t, v.tolist(), w.tolist())
    for t, p in ((0.0, uniq[0]), (1.0, uniq[-1])):
        v = np.asarray(crv.evaluate(t))[:len(p)]
        require(oracle.close(v, p, 1e-7, size), "the end at %r is %s, expected %s", t, v.tolist(), p.tolist())


@st.composite
def pair(draw, **kw):
    a = draw(gen.curve(max_degree=4, max_extra=4, **kw))
    b = draw(gen.curve(max_degree=4, max_extra=4, **kw))
    return {"a": a, "b": b, "ends": draw(st.sampled_from([[1, 0], [0, 0], [0, 1], [1, 1]]))}


@facet(FACETS, pair, 300, 4000)
def join(case, ctx):
    """two curves that share an end point are joined, whichever way round, into one that runs through both"""
    a, b, (i, j) = dict(case["a"]), dict(case["b"]), case["ends"]
    pb = [list(p) for p in b["points"]]
    pa = a["points"]
    pb[-j] = list(pa[-i])
    b["points"] = pb
    ends = [pa[0], pa[-1], pb[0], pb[-1]]
    ctx.label("ends%d%d" % (i, j), "degrees-%s" % ("equal" if a["degree"] == b["degree"] else "differ"), "rational" if a["weights"] or b["weights"] else "polynomial")
    gap = min(max(abs(x - y) for x, y in zip(p, q)) for p, q in ((pa[-1 + i], pb[-1 + j]), (pa[-1 + i], pb[-j]), (pa[-i], pb[-1 + j])))
    if gap < 1e-3:  # more than one pair of ends meets: which one is used is not specified
        ctx.trivial()
        return
    A, B = mk_curve(a), mk_curve(b)
    with contextlib.redirect_stdout(io.StringIO()):
        J = K.join_two_curves(A, B)
    ka, kb = gen.curve_knots(a), gen.curve_knots(b)
    p = max(a["degree"], b["degree"])
    require(J.degree == p, "degree %s, expected %s", J.degree, p)
    require(len(J.knots) == len(np.asarray(J.control_points)) + p + 1, "%d knots for %d control points of degree %d", len(J.knots), len(np.asarray(J.control_points)), p)
    s, e = J.interval()
    la, lb = ka[-1] - ka[0], kb[-1] - kb[0]
    require(oracle.close([e - s], [la + lb], 1e-9, max(map(abs, ka + kb))), "domain %s for curves of domain lengths %r and %r", [s, e], la, lb)
    scale = max(extent(pa), extent(pb)) * spread(a, b)
    mid = s + la
    same_part(J, (lambda t: min(max(s + t - ka[0], s), mid)) if i == 1 else (lambda t: min(max(s + ka[-1] - t, s), mid)), a, i == 0, "first part", scale)
    same_part(J, (lambda t: max(min(mid + t - kb[0], e), mid)) if j == 0 else (lambda t: max(min(mid + kb[-1] - t, e), mid)), b, j == 1, "second part", scale)


@st.composite
def chain(draw):
    p = draw(st.integers(1, 4))
    out = []
    rat = draw(st.booleans())
    for _ in range(draw(st.integers(1, 4))):
        c = draw(gen.curve(min_degree=p, max_degree=p, max_extra=3, rational=rat))
        out.append(c)
    for c, d in zip(out, out[1:]):
        d["points"] = [list(c["points"][-1])] + d["points"][1:]
        if c["weights"] or d["weights"]:  # weights that agree at the joint, as after splitting
            c["weights"] = list(c["weights"] or [1.0] * len(c["points"]))
            d["weights"] = list(d["weights"] or [1.0] * len(d["points"]))
            d["weights"][0] = c["weights"][-1]
    return {"cs": out}


@facet(FACETS, chain, 250, 3000)
def compose(case, ctx):
    """composing touching curves of one degree gives the knots and control points of a curve that runs through each over one unit of parameter"""
    from mmcore.geom.nurbs import NURBSCurve
    cs = case["cs"]
    ctx.label("n%d" % len(cs), "rational" if any(c["weights"] for c in cs) else "polynomial")
    A = [mk_curve(c) for c in cs]
    before = [(np.array(x.control_pointsw), np.array(x.knots)) for x in A]
    kv, cp, con = K.compose_curves(A)
    require(all((np.array(x.control_pointsw) == y[0]).all() and (np.array(x.knots) == y[1]).all() for x, y in zip(A, before)), "composing changed a curve handed in")
    p = cs[0]["degree"]
    require(len(kv) == len(cp) + p + 1, "%d knots for %d control points", len(kv), len(cp))
    require(oracle.close(np.asarray(con, float), [float(i) for i in range(1, len(cs))], 1e-12), "joints %s", list(con))
    J = NURBSCurve(np.array(cp), p, np.array(kv))
    scale = max(extent(c["points"]) for c in cs) * spread(*cs)
    for i, c in enumerate(cs):
        k = gen.curve_knots(c)
        same_part(J, lambda t: i + (t - k[0]) / (k[-1] - k[0]), c, False, "part %d" % i, scale)


@facet(FACETS, pair, 250, 3000)
def ruled(case, ctx):
    """the ruled surface of two curves has them as its two edges at equal relative parameter, and straight lines between"""
    a, b = case["a"], case["b"]
    ka, kb = gen.curve_knots(a), gen.curve_knots(b)
    na, nb = ([(x - k[0]) / (k[-1] - k[0]) for x in k] for k in (ka, kb))
    if any(0 < abs(x - y) < 1e-3 for x in na for y in nb):
        ctx.trivial()
        return
    ctx.label("degrees-%s" % ("equal" if a["degree"] == b["degree"] else "differ"), "rational%d" % (bool(a["weights"]) + bool(b["weights"])),
              "knots-equal" if na == nb else "knots-shared" if set(na[a["degree"] + 1:-a["degree"] - 1]) & set(nb) else "knots-differ")
    A, B = mk_curve(a), mk_curve(b)
    S = make_ruled(A, B)
    (u0, u1), (v0, v1) = S.interval()
    require((u0, u1, v0, v1) == (0.0, 1.0, 0.0, 1.0), "domain %s", S.interval())
    require(tuple(S.degree) == (max(a["degree"], b["degree"]), 1), "degree %s", S.degree)
    scale = max(extent(a["points"]), extent(b["points"])) * spread(a) * spread(b)
    us = sorted({(t - ka[0]) / (ka[-1] - ka[0]) for t in curve_samples(a)} | {(t - kb[0]) / (kb[-1] - kb[0]) for t in curve_samples(b)})
    for u in us:
        ends = []
        for c, k, v in ((a, ka, 0.0), (b, kb, 1.0)):
            want = oracle.curve_point(c, k, min(max(k[0] + u * (k[-1] - k[0]), k[0]), k[-1]))
            got = np.asarray(S.evaluate(np.array([u, v])))
            require(oracle.close(got, want, 1e-8, scale), "at (%r, %r) the surface gives %s, the curve %s", u, v, got.tolist(), want.tolist())
            ends.append(want)
        m = np.asarray(S.evaluate(np.array([u, 0.4])))
        d = ends[1] - ends[0]
        L = float(d @ d)
        off = m - ends[0] - d * (float((m - ends[0]) @ d) / L if L else 0.0)
        t = float((m - ends[0]) @ d) / L if L > 1e-12 else 0.5
        require(oracle.close(off, np.zeros(3), 1e-7, scale) and -1e-6 <= t <= 1 + 1e-6, "the point %s at (%r, 0.4) is not on the segment %s %s", m.tolist(), u, ends[0].tolist(), ends[1].tolist())
    require(list(A.interval()) == [ka[0], ka[-1]] and list(B.interval()) == [kb[0], kb[-1]], "the construction changed the domain of a curve handed in")
