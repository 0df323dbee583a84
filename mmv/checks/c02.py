"""Surface evaluation against exact rational arithmetic."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve, mk_surf
from ..strat import extent, surf_labels, surf_uvs

FACETS = []
RULE = ("Random clamped B-spline/NURBS surfaces (degrees 1-3, up to 7x7 points, interior knots of any multiplicity up to the degree, "
        "positive weights, arbitrary domains), ruled, bilinear and cylinder surfaces, with parameters that hit knots and domain ends often; "
        "a case is trivial when all control points coincide.")
ASSUMPTIONS = ["the reference is de Boor's recurrence in exact rational arithmetic; agreement within 1e-9 relative to the size of the control net"]


@facet(FACETS, lambda: surf_uvs(3), 800, 10000)
def value(case, ctx):
    """evaluate, evaluate_v2 and evaluate_multi give the point of the tensor-product definition"""
    s = case["s"]
    surf_labels(ctx, s)
    ku, kv = gen.surf_knots(s)
    srf = mk_surf(s)
    scale = extent(s["points"])
    want = [oracle.surf_point(s, ku, kv, u, v) for u, v in case["uv"]]
    for uv, w in zip(case["uv"], want):
        got = srf.evaluate(np.array(uv))
        require(oracle.close(got, w, 1e-9, scale), "evaluate(%s) = %s, the definition gives %s", uv, list(got), w.tolist())
        got = srf.evaluate_v2(*uv)
        require(oracle.close(got, w, 1e-9, scale), "evaluate_v2(%s) = %s, the definition gives %s", uv, list(got), w.tolist())
    got = np.asarray(srf.evaluate_multi(np.array(case["uv"])))
    require(oracle.close(got, np.array(want), 1e-9, scale), "evaluate_multi(%s) = %s, the definition gives %s", case["uv"], got.tolist(), np.array(want).tolist())


@facet(FACETS, lambda: gen.surface(), 300, 3000)
def whole(case, ctx):
    """interval, shape, degree, knots and the corners of a clamped surface"""
    s = case
    surf_labels(ctx, s)
    ku, kv = gen.surf_knots(s)
    srf = mk_surf(s)
    iv = [list(x) for x in srf.interval()]
    require(iv == [[ku[0], ku[-1]], [kv[0], kv[-1]]], "interval() = %s, the domain is %s", iv, [[ku[0], ku[-1]], [kv[0], kv[-1]]])
    require(list(srf.degree) == s["degree"], "degree = %s, expected %s", srf.degree, s["degree"])
    require(np.array_equal(np.asarray(srf.knots_u), ku) and np.array_equal(np.asarray(srf.knots_v), kv), "knots changed: %s %s", list(srf.knots_u), list(srf.knots_v))
    require(list(srf.shape)[:2] == [len(s["points"]), len(s["points"][0])], "shape = %s", srf.shape)
    scale = extent(s["points"])
    for u, i in ((ku[0], 0), (ku[-1], -1)):
        for v, j in ((kv[0], 0), (kv[-1], -1)):
            got = srf.evaluate_v2(u, v)
            require(oracle.close(got, s["points"][i][j], 1e-9, scale), "corner (%r, %r) = %s, expected %s", u, v, list(got), s["points"][i][j])


@facet(FACETS, lambda: st.tuples(gen.curve(rational=True), gen.curve(rational=True), st.lists(st.tuples(gen.unit(), gen.unit()), min_size=3, max_size=3)), 400, 4000)
def ruled(case, ctx):
    """a ruled surface joins the points of equal relative parameter by segments"""
    from mmcore.geom.parametric import Ruled
    c0, c1, uvs = case
    k0, k1 = gen.curve_knots(c0), gen.curve_knots(c1)
    srf = Ruled(mk_curve(c0), mk_curve(c1))
    scale = max(extent(c0["points"]), extent(c1["points"]))
    require([list(x) for x in srf.interval()] == [[0, 1], [0, 1]], "interval %s", srf.interval())
    for u, v in uvs:
        t0, t1 = k0[0] + u * (k0[-1] - k0[0]), k1[0] + u * (k1[-1] - k1[0])
        t0, t1 = min(t0, k0[-1]), min(t1, k1[-1])
        a, b = oracle.curve_point(c0, k0, gen.snap(k0, t0, 1e-12)), oracle.curve_point(c1, k1, gen.snap(k1, t1, 1e-12))
        want = a * (1 - v) + b * v
        got = srf.evaluate(np.array([u, v]))
        require(oracle.close(got, want, 1e-6, scale), "ruled surface at (%r, %r) = %s, expected %s", u, v, list(got), want.tolist())


@facet(FACETS, lambda: st.tuples(gen.points(4), gen.unit(), gen.unit()), 200, 2000)
def bilinear(case, ctx):
    """a bilinear surface interpolates its four corners a (0,0), b (1,0), c (1,1), d (0,1) bilinearly"""
    from mmcore.geom.parametric import BiLinear
    (a, b, c, d), u, v = case
    srf = BiLinear(a, b, c, d)
    a, b, c, d = map(np.array, (a, b, c, d))
    want = (1 - u) * (1 - v) * a + u * (1 - v) * b + u * v * c + (1 - u) * v * d
    got = srf.evaluate(np.array([u, v]))
    require(oracle.close(got, want, 1e-12, 100), "bilinear at (%r, %r) = %s, expected %s", u, v, list(got), want.tolist())


@facet(FACETS, lambda: st.tuples(gen.points(2), st.integers(1, 100), gen.unit(), gen.unit()), 200, 2000)
def cylinder(case, ctx):
    """a point of a cylinder surface is at the radius from the axis and at the given height along it"""
    from mmcore.geom.primitives import Cylinder
    (a, b), r, u, v = case
    r = r / 10.0
    a, b = np.array(a), np.array(b)
    h = float(np.linalg.norm(b - a))
    if h < 0.1:
        ctx.trivial()
        return
    d = (b - a) / h
    if 1 - 1e-3 < abs(d[0]):
        ctx.label("near-x")
    srf = Cylinder(a, b, r)
    p = np.asarray(srf.evaluate(np.array([u * 2 * np.pi, v * h]))) - a
    along = float(p @ d)
    require(abs(along - v * h) < 1e-9 * (1 + h + r), "height %r, expected %r", along, v * h)
    rad = float(np.linalg.norm(p - along * d))
    require(abs(rad - r) < 1e-9 * (1 + h + r), "distance from the axis %r, radius %r", rad, r)
    q = np.asarray(srf.evaluate(np.array([0.0, v * h]))) - a - v * h * d
    w = p - along * d
    ang = float(np.arctan2(np.cross(q, w) @ d, q @ w)) % (2 * np.pi)
    err = abs(ang - u * 2 * np.pi) % (2 * np.pi)
    require(min(err, 2 * np.pi - err) < 1e-6, "angle %r around the axis, expected %r", ang, u * 2 * np.pi)
