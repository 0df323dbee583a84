"""Surfaces made from boundary curves, curves on surfaces."""
import numpy as np
from hypothesis import strategies as st
from mmcore.geom import surfaces as ms

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve
from ..strat import extent, far_inside

FACETS = []
RULE = "Boundary curves of degree 1 to 5, rational or not, on any domain (of a length and a start other than 0 and 1 included), joined at the corners; trivial when all curves are straight."
ASSUMPTIONS = ["the four curves of a Coons patch meet at its corners; difference quotients are judged away from knots and domain ends"]

UV = st.tuples(gen.unit(), gen.unit())

def at(c, s):
    """point at relative parameter s"""
    k = gen.curve_knots(c)
    t = min(k[0] + s * (k[-1] - k[0]), k[-1])
    return np.array(oracle.curve_point(c, k, gen.snap(k, t, 1e-12)))

def clear(c, s, margin):
    k = gen.curve_knots(c)
    L = k[-1] - k[0]
    return all(abs(k[0] + s * L - x) > margin * L for x in set(k))

@st.composite
def frames(draw):
    cs = [draw(gen.curve(max_degree=3, max_extra=3)) for _ in range(4)]
    # some corners of the patch are on straight edges
    corners = cs[0]["points"][0], cs[0]["points"][-1], cs[2]["points"][-1], cs[2]["points"][0]
    cs[1]["points"][0], cs[1]["points"][-1] = corners[1], corners[2]
    cs[3]["points"][0], cs[3]["points"][-1] = corners[0], corners[3]
    return {"c": cs, "uv": [list(t) for t in draw(st.lists(UV, min_size=2, max_size=5))], "iso": [draw(gen.unit()) for _ in range(4)], "s": draw(gen.unit())}

def coons_at(c, u, v):
    c1, d1, c2, d2 = c
    p00, p10, p11, p01 = at(c1, 0), at(c1, 1), at(c2, 1), at(c2, 0)
    return (1 - v) * at(c1, u) + v * at(c2, u) + (1 - u) * at(d2, v) + u * at(d1, v) - ((1 - u) * (1 - v) * p00 + u * (1 - v) * p10 + u * v * p11 + (1 - u) * v * p01)

def labels(ctx, cs):
    ctx.label("rational" if any(c["weights"] for c in cs) else "polynomial", "domains start at 0" if all(gen.curve_knots(c)[0] == 0 for c in cs) else "domains anywhere")
    if all(c["degree"] == 1 and len(c["points"]) == 2 for c in cs):
        ctx.trivial()

def agree(got, want, tol, scale, what, *args):
    got = np.asarray(got, float)
    require(got.shape == np.shape(want) and bool(np.all(np.abs(got - want) <= tol * max(1.0, scale))), what + " = %s, expected %s", *args, got.tolist(), np.asarray(want).tolist())

@facet(FACETS, frames, 350, 4000)
def coons(case, ctx):
    """a Coons patch passes through its four boundary curves at equal relative parameters, and blends them bilinearly inside; asked twice it says the same, whatever became of the first answer"""
    labels(ctx, case["c"])
    curves = [mk_curve(c) for c in case["c"]]
    s = ms.Coons(*curves)
    scale = max(extent(c["points"]) for c in case["c"])
    require(tuple(map(tuple, s.interval())) == ((0.0, 1.0), (0.0, 1.0)), "its domain is %s", s.interval())
    t = case["s"]
    for (u, v), c in [((t, 0), 0), ((1, t), 1), ((t, 1), 2), ((0, t), 3)]:
        agree(s.evaluate(np.array([u, v], float)), at(case["c"][c], t), 1e-7, scale, "the edge of a Coons patch at (%s, %s)", u, v)
    uvs = np.array(case["uv"], float)
    want = np.array([coons_at(case["c"], u, v) for u, v in case["uv"]])
    for (u, v), w in zip(case["uv"], want):
        for _ in range(2):
            p = s.evaluate(np.array([u, v]))
            agree(p, w, 1e-7, scale, "a Coons patch at (%s, %s)", u, v)
            p += 1.0  # the point is the caller's own
        agree(s.evaluate_v2(u, v), w, 1e-7, scale, "evaluate_v2 of a Coons patch at (%s, %s)", u, v)
    agree(s(uvs), want, 1e-7, scale, "a Coons patch at %s", uvs.tolist())

@facet(FACETS, frames, 350, 4000)
def ruled(case, ctx):
    """a ruled surface joins points of equal relative parameter on its two curves, whatever their domains; its derivatives are those of the surface"""
    labels(ctx, case["c"][:2])
    a, b = case["c"][:2]
    s = ms.Ruled(mk_curve(a), mk_curve(b))
    scale = max(extent(c["points"]) for c in case["c"][:2])
    for u, v in case["uv"] + [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]]:
        want = (1 - v) * at(a, u) + v * at(b, u)
        x = np.array([u, v])
        agree(s.evaluate(x), want, 1e-7, scale, "a ruled surface at (%s, %s)", u, v)
        agree(s.evaluate_v2(u, v), want, 1e-7, scale, "evaluate_v2 of a ruled surface at (%s, %s)", u, v)
        agree(s.derivative_v(x), at(b, u) - at(a, u), 1e-7, scale, "derivative_v of a ruled surface at (%s, %s)", u, v)
        agree(s.second_derivative_vv(x), np.zeros(3), 1e-9, scale, "second_derivative_vv of a ruled surface at (%s, %s)", u, v)
        ds = []
        for c in (a, b):
            k = gen.curve_knots(c)
            L = k[-1] - k[0]
            t = gen.snap(k, min(k[0] + u * L, k[-1]), 1e-12)
            if not clear(c, u, 1e-4):
                break
            d = oracle.curve_derivs(c, k, t, 2)
            ds.append([np.array(d[1]) * L, np.array(d[2]) * L * L])
        if len(ds) == 2:
            big = 1 + max(float(np.abs(d).max()) for p in ds for d in p)
            agree(s.derivative_u(x), (1 - v) * ds[0][0] + v * ds[1][0], 1e-6, big, "derivative_u of a ruled surface at (%s, %s)", u, v)
            agree(s.second_derivative_uu(x), (1 - v) * ds[0][1] + v * ds[1][1], 1e-6, big, "second_derivative_uu of a ruled surface at (%s, %s)", u, v)

@st.composite
def patches(draw):
    """Bezier boundary curves with domain [0, 1] or other"""
    def bez():
        p = draw(st.integers(1, 3))
        k = draw(st.sampled_from([None, [0.0] * (p + 1) + [1.0] * (p + 1), [1.0] * (p + 1) + [3.0] * (p + 1)]))
        return {"degree": p, "points": draw(gen.points(p + 1)), "weights": None, "knots": k}
    cs = [bez() for _ in range(4)]
    corners = cs[0]["points"][0], cs[0]["points"][-1], cs[2]["points"][-1], cs[2]["points"][0]
    cs[1]["points"][0], cs[1]["points"][-1] = corners[1], corners[2]
    cs[3]["points"][0], cs[3]["points"][-1] = corners[0], corners[3]
    i = st.floats(0.01, 0.99)
    return {"c": cs, "uv": [list(t) for t in draw(st.lists(st.tuples(i, i), min_size=2, max_size=4))], "kind": draw(st.sampled_from(["coons", "bilinear", "ruled"])), "iso": draw(st.lists(st.one_of(i, i, st.sampled_from([0.0, 1.0])), min_size=4, max_size=4)), "t": draw(i)}

@facet(FACETS, patches, 350, 4000)
def derivatives(case, ctx):
    """derivatives of any surface by difference quotients, all together or one by one, are its derivatives up to the square of the step, its normal their unit product, and its frame orthonormal along them"""
    labels(ctx, case["c"])
    ctx.label(case["kind"])
    curves = [mk_curve(c) for c in case["c"]]
    scale = max(extent(c["points"]) for c in case["c"])
    c = case["c"]
    corners = [at(c[0], 0), at(c[0], 1), at(c[2], 1), at(c[2], 0)]
    if case["kind"] == "coons":
        s, f = ms.Coons(*curves), lambda u, v: coons_at(c, u, v)
    elif case["kind"] == "ruled":
        s, f = ms.Ruled(curves[0], curves[2]), lambda u, v: (1 - v) * at(c[0], u) + v * at(c[2], u)
    else:
        s, f = ms.BiLinear(*corners), lambda u, v: (1 - u) * (1 - v) * corners[0] + u * (1 - v) * corners[1] + u * v * corners[2] + (1 - u) * v * corners[3]
    h = 1 / 256
    for u, v in case["uv"]:
        x = np.array([u, v])
        want = f(u, v)
        agree(s.evaluate(x), want, 1e-9, scale, "%s at (%s, %s)", case["kind"], u, v)
        # these are cubics in each parameter: quotients of the exact surface, corrected for the third derivative
        def d1(g):
            return (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)
        def d2(g):
            return (g(h) - 2 * g(0) + g(-h)) / (h * h)
        du, dv = d1(lambda e: f(u + e, v) if 0 <= u + e <= 1 else ext(f, u + e, v, 0)), d1(lambda e: f(u, v + e) if 0 <= v + e <= 1 else ext(f, u, v + e, 1))
        duu, dvv = d2(lambda e: f(u + e, v) if 0 <= u + e <= 1 else ext(f, u + e, v, 0)), d2(lambda e: f(u, v + e) if 0 <= v + e <= 1 else ext(f, u, v + e, 1))
        tol = 1e-4
        agree(s.derivative_u(x), du, tol, scale, "derivative_u of %s at (%s, %s)", case["kind"], u, v)
        agree(s.derivative_v(x), dv, tol, scale, "derivative_v of %s at (%s, %s)", case["kind"], u, v)
        agree(s.derivatives(x), np.array([du, dv]), tol, scale, "derivatives of %s at (%s, %s)", case["kind"], u, v)
        agree(s.second_derivative_uu(x), duu, tol, scale, "second_derivative_uu of %s at (%s, %s)", case["kind"], u, v)
        agree(s.second_derivative_vv(x), dvv, tol, scale, "second_derivative_vv of %s at (%s, %s)", case["kind"], u, v)
        if 0.03 < u < 0.97 and 0.03 < v < 0.97:
            duv = (f(u + h, v + h) - f(u + h, v - h) - f(u - h, v + h) + f(u - h, v - h)) / (4 * h * h)
            agree(s.second_derivative_uv(x), duv, 1e-2, scale, "second_derivative_uv of %s at (%s, %s)", case["kind"], u, v)
            agree(s.second_derivatives(u, v), np.array([want, du, dv, duu, dvv, duv]), 1e-2, scale, "second_derivatives of %s at (%s, %s)", case["kind"], u, v)
        n = np.cross(du, dv)
        if np.linalg.norm(n) > 0.05 * (1 + np.linalg.norm(du)) * (1 + np.linalg.norm(dv)) and scale < 40:
            n /= np.linalg.norm(n)
            agree(s.normal(x), n, 2e-2, 1, "normal of %s at (%s, %s)", case["kind"], u, v)
            pl = np.asarray(s.plane_at(x), float)
            t1 = du / np.linalg.norm(du)
            agree(pl, np.array([want, t1, np.cross(n, t1), n]), 2e-2, scale, "frame of %s at (%s, %s)", case["kind"], u, v)
            require(np.abs(pl[1:] @ pl[1:].T - np.eye(3)).max() < 1e-9, "the frame of %s at (%s, %s) is not orthonormal: %s", case["kind"], u, v, pl.tolist())

def ext(f, u, v, axis):
    """beyond the domain: the cubic through four values inside"""
    x = (u, v)[axis]
    ts = [0.0, 0.125, 0.25, 0.375] if x < 0 else [1.0, 0.875, 0.75, 0.625]
    out = 0
    for i, a in enumerate(ts):
        w = 1.0
        for j, b in enumerate(ts):
            if i != j:
                w *= (x - b) / (a - b)
        out = out + w * (f(a, v) if axis == 0 else f(u, a))
    return out

@facet(FACETS, patches, 300, 3000)
def curves_on(case, ctx):
    """isoparametric lines and segments of a surface, and any curve drawn in its domain, run on the surface where they should"""
    labels(ctx, case["c"])
    curves = [mk_curve(c) for c in case["c"]]
    scale = max(extent(c["points"]) for c in case["c"])
    s = ms.Coons(*curves) if case["kind"] == "coons" else ms.Ruled(curves[0], curves[2])
    f = (lambda u, v: coons_at(case["c"], u, v)) if case["kind"] == "coons" else (lambda u, v: (1 - v) * at(case["c"][0], u) + v * at(case["c"][2], u))
    u0, v0, u1, v1 = case["iso"]
    t = case["t"]
    mix = lambda a, b: a + (b - a) * t
    for name, crv, (u, v) in [("isoline_u", s.isoline_u(u0), (u0, t)), ("isoline_v", s.isoline_v(v0), (t, v0)), ("isocurve", s.isocurve(u0, v0, u1, v1), (mix(u0, u1), mix(v0, v1))),
                              ("isocurve from (u, v)", s.isocurve(u0=u0, v0=v0), (mix(u0, 1), mix(v0, 1))), ("isocurve to (u, v)", s.isocurve(u1=u1, v1=v1), (mix(0, u1), mix(0, v1))), ("isocurve over all", s.isocurve(), (t, t)),
                              ("isocurve_u", s.isocurve_u(u0, u1), (mix(u0, u1), t)), ("isocurve_v", s.isocurve_v(v0, v1), (t, mix(v0, v1))),
                              ("curve on a surface", ms.CurveOnSurface(s, lambda x: np.array([u0 + (u1 - u0) * x * x, v0 + (v1 - v0) * x, 7.0])), (u0 + (u1 - u0) * t * t, mix(v0, v1)))]:
        agree(crv.evaluate(t), f(u, v), 1e-7, scale, "%s of %s at %s", name, case["kind"], t)
        require(list(crv.interval()) == [0.0, 1.0], "the domain of %s is %s", name, crv.interval())
    s.build_boundary()
    lo, hi = s.boundary.interval()
    for x in (0.0, 0.25, 0.5, 0.75, t):
        u, v = [(4 * x, 0), (1, 4 * x - 1), (3 - 4 * x, 1), (0, 4 - 4 * x)][int(4 * x)]
        agree(s.boundary.evaluate(lo + (hi - lo) * x), f(u, v), 1e-7, scale, "the boundary of %s at %s of its length", case["kind"], x)
    n = np.asarray(s.points((3, 4)), float)
    require(n.shape == (12, 3), "points((3, 4)) has shape %s", n.shape)
    grid = [f(u, v) for u in np.linspace(0, 1, 3) for v in np.linspace(0, 1, 4)]
    left = [tuple(x) for x in n]
    for g in grid:
        require(any(np.abs(np.array(x) - g).max() <= 1e-7 * max(1, scale) for x in left), "points((3, 4)) lacks %s", g.tolist())
