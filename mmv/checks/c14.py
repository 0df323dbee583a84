"""Curve x curve and curve x implicit intersection."""
import numpy as np

from hypothesis import strategies as st
from mmcore.geom.curves.curve import parametric_curve
from mmcore.numeric.aabb import curve_aabb_eager
from mmcore.numeric.intersection.ccx import ccx, curve_curve_intersect, curve_pix, curve_ppx, curve_x_axis, curve_x_ray

from .. import gen, geo
from ..core import facet, require
from ..mm import mk_curve

FACETS = []
RULE = ("Two random NURBS curves in one coordinate plane, two spatial curves one of which is moved so that they meet, or a curve and a plane or sphere; "
        "trivial when the reference search finds no intersection that must be reported.")
ASSUMPTIONS = ["a crossing must be reported when the curves cross there at an angle of at least 0.2 rad, away from the ends of the domains",
               "spatial crossings: in no coordinate both curves are nearly stationary at the crossing (the search compares boxes of samples)",
               "roots of an implicit function must be reported when it has at most one extremum in each part of length 1/2 of the domain and crosses zero clearly",
               "curves of up to 4 spans, degree up to 3, coordinates up to 10"]
TOL = 1e-3

def plain(draw, dim, plane=None, z=0.0):
    """A curve with domains of a few units."""
    c = draw(gen.curve(max_degree=3, max_extra=3, dim=dim))
    if plane is not None:
        c["points"] = [p[:plane] + [z] + p[plane:] for p in c["points"]]
    return c

@st.composite
def planar(draw):
    plane = draw(st.integers(0, 2))
    z = draw(st.one_of(st.sampled_from([0.0, 0.1, 1.0]), gen.coord()))
    return {"plane": plane, "a": plain(draw, 2, plane, z), "b": plain(draw, 2, plane, z)}

def degenerate(C):
    """Does the curve (nearly) stop somewhere?"""
    t = C.grid(60)
    return float(np.linalg.norm(C.d(t), axis=1).min()) * (C.b - C.a) < 0.05

def overlap(C, D, ij):
    """Do the curves run along each other somewhere?  Then the search visits every pair of small pieces."""
    t, s = C.grid(150), D.grid(150)
    p, q = C(t)[:, ij], D(s)[:, ij]
    d = np.linalg.norm(p[:, None] - q[None], axis=2)
    near = np.argwhere(d < 0.08)
    if len(near) > 400:
        return True
    u, v = C.d(t)[:, ij], D.d(s)[:, ij]
    for i, j in near:
        a, b = np.linalg.norm(u[i]), np.linalg.norm(v[j])
        if a < 1e-6 or b < 1e-6:
            return True
        m = np.array([u[i] / a, v[j] / b])
        if np.linalg.norm(m[0] - m[1] * np.dot(*m)) < 0.03:
            return True
    return False

def sound(res, C, D, tol):
    for t, s in res:
        require(C.a <= t <= C.b and D.a <= s <= D.b, "intersection (%r, %r) lies outside of the domains", t, s)
        # pairs that agree up to the tolerance in both parameters are averaged
        near = tol + tol * (speed(C, t, tol) + speed(D, s, tol))
        d = float(np.linalg.norm(C(t) - D(s)))
        require(d <= near, "intersection (%r, %r): the curves are %g apart there", float(t), float(s), d)

def speed(C, t, tol):
    return float(np.linalg.norm(C.d(np.clip(t + tol * np.array([-1, -0.5, 0, 0.5, 1]), C.a, C.b)), axis=1).max())

def found(res, C, D, t, s, tol):
    p = C(t)
    near = min([max(float(np.linalg.norm(C(x) - p)), float(np.linalg.norm(D(y) - p))) for x, y in res], default=float("inf"))
    require(near <= 40 * tol, "the curves cross at (%r, %r), point %s, but no reported intersection is near (closest: %g, reported: %s)",
            t, s, p[0].tolist(), near, [(float(x), float(y)) for x, y in res])

@facet(FACETS, planar, 260, 4000)
def coplanar(case, ctx):
    """every reported pair is an intersection in both domains, and every clear crossing of two coplanar curves is reported"""
    C, D = geo.Curve(case["a"]), geo.Curve(case["b"])
    ij = [i for i in range(3) if i != case["plane"]]
    if degenerate(C) or degenerate(D) or overlap(C, D, ij):
        ctx.label("skipped-tangential")
        ctx.trivial()
        return
    a, b = mk_curve(case["a"]), mk_curve(case["b"])
    res = ccx(a, b, tol=TOL)
    sound(res, C, D, TOL)
    must = [(t, s) for t, s, w in geo.planar_crossings(C, D, 80, *ij)
            if w > 0.2 and C.a + 0.01 < t < C.b - 0.01 and D.a + 0.01 < s < D.b - 0.01]
    if not must:
        ctx.trivial()
    ctx.label("crossings%d" % min(len(must), 4))
    for t, s in must:
        found(res, C, D, t, s, TOL)
    again = curve_curve_intersect(b, a, tol=TOL)
    sound([(y, x) for x, y in again], C, D, TOL)
    for t, s in must:
        found([(y, x) for x, y in again], C, D, t, s, TOL)

@st.composite
def spatial(draw):
    a, b = plain(draw, 3), plain(draw, 3)
    ka, kb = gen.curve_knots(a), gen.curve_knots(b)
    return {"a": a, "b": b, "t": draw(gen.param(ka)), "s": draw(gen.param(kb)), "off": draw(st.sampled_from([0.0, 0.0, 0.0, 0.05, 1.0]))}

@facet(FACETS, spatial, 220, 3500)
def meeting(case, ctx):
    """spatial curves that meet: their meeting point is reported; curves that pass each other: nothing is"""
    C, D = geo.Curve(case["a"]), geo.Curve(case["b"])
    t, s = case["t"], case["s"]
    if degenerate(C) or degenerate(D):
        ctx.trivial()
        return
    u, v = geo._unit(C.d(t)[0]), geo._unit(D.d(s)[0])
    n = np.cross(u, v)
    if np.linalg.norm(n) < 0.2:
        ctx.label("skipped-tangential")
        ctx.trivial()
        return
    move = (C(t) - D(s))[0] + case["off"] * geo._unit(n)
    b = dict(case["b"], points=[[x + y for x, y in zip(p, move.tolist())] for p in case["b"]["points"]])
    D = geo.Curve(b)
    if overlap(C, D, [0, 1, 2]):
        ctx.trivial()
        return
    res = ccx(mk_curve(case["a"]), mk_curve(b), tol=TOL)
    sound(res, C, D, TOL)
    inner = C.a + 0.01 < t < C.b - 0.01 and D.a + 0.01 < s < D.b - 0.01
    if case["off"] == 0.0 and inner and all(abs(x) > 0.1 or abs(y) > 0.1 for x, y in zip(u, v)):
        ctx.label("meeting")
        found(res, C, D, t, s, TOL)
    elif case["off"] == 0.0:
        ctx.label("at-end-or-flat")
        ctx.trivial()
    else:
        ctx.label("passing")

@st.composite
def implicit(draw):
    c = plain(draw, 3)
    kind = draw(st.sampled_from(["plane", "sphere", "axis", "ray"]))
    return {"c": c, "kind": kind, "p": draw(gen.points(1))[0], "n": draw(gen.points(1))[0], "axis": draw(st.integers(0, 2)), "r": draw(st.floats(0.5, 8.0)),
            "through": draw(st.one_of(st.none(), gen.param(gen.curve_knots(c))))}

@facet(FACETS, implicit, 300, 5000)
def implicit_form(case, ctx):
    """the parameters found for a curve and an implicit form are its zeros, inside the domain, and every clear zero is found"""
    C = geo.Curve(case["c"])
    p, kind, ax = np.array(case["p"]), case["kind"], case["axis"]
    if case["through"] is not None and kind != "sphere":
        p = C(case["through"])[0]
    c = mk_curve(case["c"])
    n = np.array(case["n"])
    if kind == "plane" and np.linalg.norm(n) < 0.1:
        ctx.trivial()
        return
    n = geo._unit(n)
    if kind == "plane":
        f = lambda x: (x - p) @ n
        res = curve_pix(c, lambda x: float(np.dot(np.asarray(x) - p, n)))
    elif kind == "sphere":
        f = lambda x: np.linalg.norm(x - p, axis=-1) - case["r"]

        class Ball:
            def implicit(self, x):
                return float(np.linalg.norm(np.asarray(x) - p)) - case["r"]
        res = ccx(c, Ball())
    elif kind == "axis":
        p = np.zeros(3)
        f = lambda x: x[..., ax]
        res = curve_x_axis(c, ax)
    else:
        f = lambda x: p[ax] - x[..., ax]
        res = curve_x_ray(c, p.tolist(), ax)
    ctx.label(kind)
    size = max(1.0, float(np.abs(C.h[:, :3] / C.h[:, 3:]).max()))
    for t in res:
        require(C.a <= t <= C.b, "zero at %r lies outside of the domain %s", t, (C.a, C.b))
        require(abs(float(f(C(t))[0])) <= 1e-8 * size, "at %r the function is %g", t, float(f(C(t))[0]))
    must = clear_zeros(lambda t: f(C(t)), C)
    if not must:
        ctx.trivial()
        return
    ctx.label("zeros%d" % min(len(must), 4))
    for t in must:
        require(any(abs(t - x) < 1e-5 for x in res), "the function has a zero at %r, reported are %s", t, [float(x) for x in res])

def clear_zeros(f, C):
    """Zeros with a clear sign change in parts where the function has at most one extremum."""
    out = []
    for a in np.arange(C.a, C.b, 0.5):
        b = min(a + 0.5, C.b)
        if b - a <= 0.02:
            continue
        t = np.unique(np.concatenate([np.linspace(a, b, 400), [k for k in C.k if a < k < b]]))
        y = f(t)
        d = np.sign(np.diff(y))
        turns = int((np.diff(d) != 0).sum())
        if turns > 1 or (d == 0).any():
            continue
        slopes = np.abs(np.diff(y) / np.diff(t))
        roots = []
        for k in np.nonzero(y[:-1] * y[1:] < 0)[0]:
            lo, hi = t[k], t[k + 1]
            for _ in range(60):
                m = 0.5 * (lo + hi)
                if f(np.array([m]))[0] * y[k] > 0:
                    lo = m
                else:
                    hi = m
            roots.append((0.5 * (lo + hi), k))
        lowest = max(abs(y.max()), abs(y.min()))
        for r, k in roots:
            # with an extremum on each side of it higher than what the search tolerance can hide
            if slopes[k] > 1e-3 and abs(y.max()) > 0.01 * lowest + 1e-2 and abs(y.min()) > 0.01 * lowest + 1e-2 and all(abs(r - q) > 0.01 for q, _ in roots if q != r):
                out.append(float(r))
    return out


@st.composite
def quadratics(draw):
    dim = draw(st.sampled_from([2, 3]))
    lo = draw(st.integers(-4, 4)) / 2
    return {"a": [draw(gen.points(1, dim))[0] for _ in range(3)], "dom": [lo, lo + draw(st.integers(1, 40)) / 8], "cnt": draw(st.integers(3, 10)), "part": sorted([draw(gen.unit()), draw(gen.unit())]), "flat": draw(st.booleans())}


@facet(FACETS, quadratics, 150, 2000)
def boxes(case, ctx):
    """the box of a piece of a curve, from few points of it, holds all of a curve of degree two, and little more"""
    a = np.array(case["a"])
    if case["flat"]:
        a[:, -1] = [a[0, -1], 0, 0]
    lo, hi = case["dom"]
    bounds = None
    if case["part"][0] < case["part"][1]:
        bounds = [lo + (hi - lo) * x for x in case["part"]]
    f = lambda t: a[0] + np.multiply.outer(t, a[1]) + np.multiply.outer(np.asarray(t) ** 2, a[2])
    crv = parametric_curve((lo, hi))(f)
    box = np.asarray(curve_aabb_eager(crv, bounds, case["cnt"]))
    lo, hi = bounds or (lo, hi)
    pts = f(np.linspace(lo, hi, 200))
    size = 1 + abs(pts).max()
    require(box.shape == (2, a.shape[1]) and (box[0] <= pts.min(axis=0) + 1e-12 * size).all() and (box[1] >= pts.max(axis=0) - 1e-12 * size).all(), "box %s of a curve within %s, %s", box.tolist(), pts.min(axis=0), pts.max(axis=0))
    more = 4 * abs(a[2]) * ((hi - lo) / (case["cnt"] - 1)) ** 2 + 1e-9 * size
    require((pts.min(axis=0) - box[0] <= more).all() and (box[1] - pts.max(axis=0) <= more).all(), "box %s of a curve within %s, %s", box.tolist(), pts.min(axis=0), pts.max(axis=0))
    if not abs(a[1:]).any():
        ctx.trivial()
