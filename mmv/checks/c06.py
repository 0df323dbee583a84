"""Splitting, decomposing, trimming and reversing curves."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve
from ..strat import SCALES, curve_labels, extent, far_inside, same_scaled, scaled

FACETS = []
RULE = ("Random NURBS curves as in C01 with one or more cut parameters; a case is trivial when no cut lies inside the domain or all control points coincide.")
ASSUMPTIONS = ["cuts closer than 1e-4 to a domain end are left out: the split refuses cuts within its tolerance of the ends",
               "two curves are the same when they agree within 1e-8 (relative to the control net)"]


@st.composite
def cut(draw, n=1, **kw):
    c = draw(gen.curve(**kw))
    k = gen.curve_knots(c)
    return {"c": c, "t": [draw(gen.inside(k)) for _ in range(n)]}


def check(piece, c, a, b, f, msg):
    """`piece` over [a, b] of c, re-parametrised by f."""
    k = gen.curve_knots(c)
    w = c.get("weights") or [1.0]
    scale = extent(c["points"]) * max(w) / min(w)
    inner = [x for x in set(k) if a < x < b]
    for t in [a + (b - a) * j / 8 for j in range(8)] + [b] + inner:
        got, want = piece.evaluate(f(t)), oracle.curve_point(c, k, t)
        require(oracle.close(got, want, 1e-8, scale), "%s: at %r (parameter %r of the curve) it gives %s, the curve %s", msg, f(t), t, list(got), want.tolist())
    require(len(piece.knots) == len(piece.control_points) + piece.degree + 1, "%s: %d knots, %d points", msg, len(piece.knots), len(piece.control_points))
    require(piece.degree == c["degree"], "%s: degree %s", msg, piece.degree)


def iv(piece, a, b, msg, tol=1e-9):
    i = piece.interval()
    require(abs(i[0] - a) <= tol * max(1, abs(a)) and abs(i[1] - b) <= tol * max(1, abs(b)), "%s: interval %s, expected %s", msg, tuple(i), (a, b))


@facet(FACETS, lambda: cut(), 800, 9000)
def split(case, ctx):
    """both split functions give the two parts, on their own intervals or normalised, and leave the curve alone"""
    from mmcore.geom import nurbs
    c = case["c"]
    t = case["t"][0]
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    a, b = k[0], k[-1]
    if not far_inside(k, t):
        ctx.trivial()
        return
    ctx.label("at-knot" if t in k else "between")
    crv = mk_curve(c)
    for name, kw in (("split_curve", {}), ("split_curve2", {}), ("split_curve", {"normalize_knots": True})):
        x, y = getattr(nurbs, name)(crv, t, **kw)
        if kw:
            iv(x, 0.0, 1.0, "left part")
            iv(y, 0.0, 1.0, "right part")
            check(x, c, a, t, lambda s: min(1.0, (s - a) / (t - a)), name + " left part, normalised")
            check(y, c, t, b, lambda s: min(1.0, (s - t) / (b - t)), name + " right part, normalised")
        else:
            iv(x, a, t, "left part")
            iv(y, t, b, "right part")
            check(x, c, a, t, lambda s: s, name + " left part")
            check(y, c, t, b, lambda s: s, name + " right part")
        check(crv, c, a, b, lambda s: s, "the curve after " + name)
        require([float(z) for z in crv.knots] == k, "%s changed the knots of the curve: %s", name, list(crv.knots))


@facet(FACETS, lambda: cut(3), 400, 4000)
def split_many(case, ctx):
    """splitting at several parameters gives the consecutive parts"""
    from mmcore.geom import nurbs
    c = case["c"]
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    ts = []
    for t in sorted(set(case["t"])):
        if far_inside(k, t) and all(abs(t - x) > 1e-3 * (k[-1] - k[0]) for x in ts):
            ts.append(t)
    if not ts:
        ctx.trivial()
        return
    crv = mk_curve(c)
    parts = list(nurbs.split_curve_multiple(crv, np.array(ts)))
    u = [k[0]] + ts + [k[-1]]
    require(len(parts) == len(ts) + 1, "%d parts for %d cuts", len(parts), len(ts))
    for x, a, b in zip(parts, u, u[1:]):
        iv(x, a, b, "part of [%r, %r]" % (a, b))
        check(x, c, a, b, lambda s: s, "part over [%r, %r]" % (a, b))
    check(crv, c, k[0], k[-1], lambda s: s, "the curve after splitting")


@facet(FACETS, lambda: gen.curve(), 500, 6000)
def decompose(case, ctx):
    """decomposition gives one Bezier piece per knot span, in order, together the curve"""
    from mmcore.geom import nurbs
    c = case
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    crv = mk_curve(c)
    parts = list(nurbs.decompose_curve(crv))
    u = sorted(set(k))
    require(len(parts) == len(u) - 1, "%d pieces for %d spans", len(parts), len(u) - 1)
    for x, a, b in zip(parts, u, u[1:]):
        require(len(x.control_points) == c["degree"] + 1, "a piece has %d control points, degree %d", len(x.control_points), c["degree"])
        iv(x, a, b, "piece of [%r, %r]" % (a, b))
        check(x, c, a, b, lambda s: s, "piece over [%r, %r]" % (a, b))
    check(crv, c, k[0], k[-1], lambda s: s, "the curve after decomposition")


@facet(FACETS, lambda: gen.curve(), 500, 6000)
def reverse(case, ctx):
    """reversing runs the same points backwards; twice restores the curve; the original is left alone"""
    from mmcore.geom import nurbs
    c = case
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    a, b = k[0], k[-1]
    crv = mk_curve(c)
    for name, r in (("reverse_curve", nurbs.reverse_curve), ("flip", lambda z: z.flip())):
        y = r(crv)
        iv(y, a, b, name)
        mirrored = sorted(a + b - x for x in k)
        require(oracle.close(np.asarray(y.knots), mirrored, 1e-9), "%s: knots %s, expected %s", name, list(y.knots), mirrored)
        kk = [float(z) for z in y.knots]
        check(y, c, a, b, lambda s: gen.snap(kk, min(max(a + b - s, a), b), 1e-10), name)
        z = r(y)
        check(z, c, a, b, lambda s: gen.snap([float(q) for q in z.knots], s, 1e-10), name + " twice")
        check(crv, c, a, b, lambda s: s, "the curve after " + name)


@facet(FACETS, lambda: cut(2), 700, 8000)
def trim(case, ctx):
    """trimming gives exactly the part between the two parameters and leaves the curve alone"""
    c = case["c"]
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    a, b = sorted(case["t"])
    L = k[-1] - k[0]
    ends = [x for x in (a, b) if x not in (k[0], k[-1])]
    if b - a < 1e-3 * L or any(not far_inside(k, x) for x in ends):
        ctx.trivial()
        return
    ctx.label("%d-cuts" % len(ends))
    crv = mk_curve(c)
    y = crv.trim(a, b)
    i = y.interval()
    require(abs((i[1] - i[0]) - (b - a)) < 1e-9 * max(1, abs(a), abs(b)), "trim(%r, %r) has interval %s", a, b, tuple(i))
    kk = [float(q) for q in y.knots]
    check(y, c, a, b, lambda s: gen.snap(kk, min(max(i[0] + (s - a), i[0]), i[1]), 1e-9), "trim(%r, %r)" % (a, b))
    check(crv, c, k[0], k[-1], lambda s: s, "the curve after trim")


@facet(FACETS, lambda: gen.curve(), 300, 3000)
def normalize(case, ctx):
    """normalising the knots maps the domain to [0, 1] affinely"""
    c = case
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    a, b = k[0], k[-1]
    crv = mk_curve(c)
    crv.evaluate(a + 0.3 * (b - a))
    crv.normalize_knots()
    iv(crv, 0.0, 1.0, "normalised")
    kk = [float(q) for q in crv.knots]
    require(oracle.close(kk, [(x - a) / (b - a) for x in k], 1e-12), "knots %s", kk)
    check(crv, c, a, b, lambda s: gen.snap(kk, min(1.0, (s - a) / (b - a)), 1e-12), "normalised")


@facet(FACETS, lambda: st.tuples(cut(2), st.sampled_from(SCALES)), 400, 6000)
def units(case, ctx):
    """splitting, decomposing, trimming and reversing do not depend on the unit of the parameter: over a domain stretched by a power of two the parts have the same control points"""
    from mmcore.geom import nurbs
    case, h = case
    c = case["c"]
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    scale = extent(c["points"]) * max(c.get("weights") or [1]) / min(c.get("weights") or [1])
    a, b = sorted(case["t"])
    x, y = mk_curve(c), mk_curve(scaled(c, h))
    ops = [("decompose_curve", nurbs.decompose_curve, ()), ("reverse_curve", lambda q: [nurbs.reverse_curve(q)], ())]
    near = any(0 < abs(t - q) < 1e-3 for q in k for t in (a, b))
    if far_inside(k, a) and not near:
        ops += [("split_curve", nurbs.split_curve, (a,)), ("split_curve2", nurbs.split_curve2, (a,))]
        if far_inside(k, b) and b - a > 2e-3 * (k[-1] - k[0]):
            ops.append(("trim", lambda q, t, u: [q.trim(t, u)], (a, b)))
    ctx.label("%d-operations" % len(ops))
    for name, f, args in ops:
        u, v = list(f(x, *args)), list(f(y, *[t * h for t in args]))
        require(len(u) == len(v), "%s: %d parts over a domain %s times as long, and otherwise %d", name, len(v), h, len(u))
        for p, q in zip(u, v):
            same_scaled(q, p, h, scale, name)
