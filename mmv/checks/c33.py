"""Points on implicit curves and surfaces: Newton steps to them, and marching along them."""
import math
import numpy as np
from hypothesis import strategies as st
from mmcore.geom import primitives as mp
from mmcore.geom.implicit import implicit as mi
from mmcore.numeric import marching as mm
from mmcore.numeric.algorithms import implicit_point as ip
from mmcore.numeric.intersection import implicit_implicit as ii

from ..core import facet, require
from .c21 import near, rot, unit_quaternion, vec3

FACETS = []
RULE = "Ellipses and ellipsoids turned and moved, as quadratic functions or distances, spheres, cylinders and planes meeting at angles over 20 degrees; starts up to 0.3 radii off; trivial for spheres about one centre."
ASSUMPTIONS = ["steps are at most 0.3 of the least radius of curvature", "starts are where Newton's method contracts"]

def r3(lo, hi):
    return st.floats(lo, hi).map(lambda x: round(x, 4))

@st.composite
def ellipse(draw):
    a = draw(r3(0.5, 3))
    return {"o": draw(st.lists(r3(-5, 5), min_size=2, max_size=2)), "a": a, "b": round(a * draw(st.one_of(st.just(1.0), r3(0.5, 1))), 4), "turn": draw(r3(0, 3.14)), "k": draw(st.sampled_from([1.0, -1.0, 5.0, 0.3]))}

class Ellipse(mi.Implicit2D):
    """k times the level function (x/a)^2 + (y/b)^2 - 1"""

    def __init__(self, e, exact=True):
        self.o, self.a, self.b, self.k = np.array(e["o"]), e["a"], e["b"], e["k"]
        c, s = math.cos(e["turn"]), math.sin(e["turn"])
        self.R = np.array([[c, -s], [s, c]])
        self.exact = exact
        super().__init__()

    def implicit(self, v):
        p = self.R.T @ (np.asarray(v, float) - self.o)
        return float(self.k * ((p[0] / self.a) ** 2 + (p[1] / self.b) ** 2 - 1))

    def grad(self, v):
        p = self.R.T @ (np.asarray(v, float) - self.o)
        return self.R @ (2 * self.k * p / np.array([self.a ** 2, self.b ** 2]))

    def point(self, t):
        return self.o + self.R @ np.array([self.a * math.cos(t), self.b * math.sin(t)])

    def angle(self, v):
        p = self.R.T @ (np.asarray(v, float) - self.o)
        return math.atan2(p[1] / self.b, p[0] / self.a)

    def bounds(self):
        x = np.sqrt((self.R[:, 0] * self.a) ** 2 + (self.R[:, 1] * self.b) ** 2)
        return tuple((self.o - x).tolist()), tuple((self.o + x).tolist())

    def off(self, v):
        """About how far from the curve."""
        return abs(self.implicit(v)) / max(np.linalg.norm(self.grad(v)), 1e-9)

    @property
    def least(self):
        return self.b ** 2 / self.a

@st.composite
def feet(draw):
    return {"e": draw(ellipse()), "t": draw(r3(0, 6.28)), "off": draw(r3(-0.3, 0.3)), "c": draw(r3(0.3, 3)), "q": draw(unit_quaternion()), "exact": draw(st.booleans()), "delta": draw(st.sampled_from([1e-3, 1e-6]))}

@facet(FACETS, feet, 200, 3000)
def points(case, ctx):
    """from a start near a curve or surface the point found is on it, near the start, and frames there are orthonormal with the normal of the surface"""
    e = Ellipse(case["e"])
    t, delta = case["t"], case["delta"]
    g = e.grad if case["exact"] else None
    ctx.label("exact gradient" if g else "differences")
    n = e.grad(e.point(t))
    start = e.point(t) + n / np.linalg.norm(n) * case["off"] * e.least
    keep = start.copy()
    for name, p in (("curve_point", ip.curve_point(e.implicit, start, delta, grad=g)), ("_curve_point2", ip._curve_point2(e.implicit, start, delta, grad=g)), ("surface_point", ip.surface_point(e.implicit, start, grad=g, tol=delta))):
        # Newton converges quadratically: a last step of delta leaves delta^2 over the radius
        require(e.off(p) <= 4 * delta ** 2 / e.least + 1e-9, "%s is %s off the curve", name, e.off(p))
        require(np.linalg.norm(p - start) <= 2 * abs(case["off"]) * e.least + 1e-6, "%s went %s away from a start %s off", name, np.linalg.norm(p - start), case["off"] * e.least)
        require(np.array_equal(start, keep), "%s moved the start", name)
    A = rot(case["q"])
    r = np.array([e.a, e.b, case["c"]])
    o = np.array([*e.o, 1.0])
    f = lambda v: float(np.sum((A.T @ (v - o) / r) ** 2) - 1)
    gr = lambda v: A @ (2 * (A.T @ (v - o)) / r ** 2)
    w = np.array([math.cos(t) * 0.8, math.sin(t) * 0.8, 0.6])
    s = o + A @ (r * w) * (1 + case["off"] / 2)
    g3 = gr if case["exact"] else None
    p = ip.surface_point(f, s, grad=g3, tol=1e-8)
    require(abs(f(p)) / np.linalg.norm(gr(p)) < 1e-7, "surface_point is %s off", f(p))
    P, N, X, Y = ip.surface_plane(f, s, g3, tol=1e-8)
    near(P, p, 1e-6, "origin of surface_plane")
    near(N, gr(P) / np.linalg.norm(gr(P)), 1e-5, "normal of surface_plane")
    near(np.array([N, X, Y]) @ np.array([N, X, Y]).T, np.eye(3), 1e-9, "frame of surface_plane")
    # Normals along the axes and within the coordinate planes
    ball = mp.Sphere(o.copy(), case["c"])
    for way in (*np.eye(3), *-np.eye(3), (math.cos(t), math.sin(t), 0), (math.cos(t), 0, math.sin(t)), (0, math.cos(t), math.sin(t))):
        way = np.array(way, float)
        P, N, X, Y = ip.surface_plane(ball.implicit, o + way * case["c"] * (1 + case["off"] / 3), ball.gradient, tol=1e-8)
        near(P, o + way * case["c"], 1e-6, "origin of surface_plane of a sphere")
        near(N, way, 1e-6, "normal of surface_plane of a sphere")
        near(np.array([N, X, Y]) @ np.array([N, X, Y]).T, np.eye(3), 1e-9, "frame of surface_plane of a sphere")

@st.composite
def walks(draw):
    return {"e": draw(ellipse()), "t0": draw(r3(0, 6.28)), "arc": draw(st.one_of(st.none(), r3(1.2, 5))), "step": draw(r3(0.08, 0.3)), "exact": draw(st.booleans()), "limit": draw(st.one_of(st.none(), st.integers(3, 12))), "off": draw(r3(-0.1, 0.1))}

@facet(FACETS, walks, 120, 1500)
def marching(case, ctx):
    """marching along a curve gives points on it a step apart, all in one direction, from the start once round or to the end given, and no more than asked for"""
    e = Ellipse(case["e"])
    step = case["step"] * e.least
    t0 = case["t0"]
    sign = 1 if e.k > 0 else -1
    t1 = t0 if case["arc"] is None else t0 + sign * case["arc"]
    v0, v1 = e.point(t0) * 1.0, e.point(t1)
    v0 = v0 + e.grad(v0) / np.linalg.norm(e.grad(v0)) * case["off"] * e.least
    full = case["limit"] is None
    X = np.array(mm.marching_implicit_curve_points(e.implicit, v0, None if case["arc"] is None and not case["off"] else v0 if case["arc"] is None else v1, max_points=case["limit"] if not full else 2000, step=step, delta=1e-4, grad=e.grad if case["exact"] else None))
    ctx.label("round" if case["arc"] is None else "arc")
    ctx.label("whole" if full else "limited")
    for p in X:
        require(e.off(p) <= 1e-6, "point %s is %s off the curve", p.tolist(), e.off(p))
    first = e.angle(X[0])
    d = np.linalg.norm(np.diff(X, axis=0), axis=1)
    turn = [(e.angle(q) - e.angle(p) + math.pi) % (2 * math.pi) - math.pi for p, q in zip(X, X[1:])]
    body = d[:-1]
    require((body > 0.7 * step).all() and (body < 1.3 * step).all(), "points %s apart with a step of %s", [body.min(), body.max()], step)
    require(all(x * sign > 0 for x in turn[:-1]), "the direction changes")
    if not full:
        require(len(X) <= case["limit"] + 1, "%s points, at most %s asked for", len(X), case["limit"])
    else:
        near(X[-1], e.point(t1) if case["arc"] is not None else X[0], 1e-5, "last point")
        require(d[-1] <= 0.55 * step, "the last point is %s away", d[-1])
        want = 2 * math.pi if case["arc"] is None else case["arc"]
        # The eccentric angle of the start is that of its foot
        near(abs(sum(turn)), want, 1e-5 if case["arc"] is None else 0.3, "angle gone round")

@facet(FACETS, walks, 60, 600)
def curves(case, ctx):
    """an implicit curve traced, parametrized or made a spline stays on the curve and goes round it; the raster finds points all along it; planes of the parametrized curve are right"""
    e = Ellipse(case["e"])
    step = case["step"] * e.least
    X = e.points(step=step, delta=1e-4)
    for p in X:
        require(e.off(p) <= 1e-6, "point %s is %s off the curve", p.tolist(), e.off(p))
    a = np.sort([e.angle(p) for p in X])
    gap = np.max(np.diff(np.append(a, a[0] + 2 * math.pi)))
    require(gap * e.b < 2.5 * step, "a stretch of %s is not covered", gap)
    P = mi.ParametrizedImplicit2D.from_implicit2d(e, step=step, delta=1e-4)
    t0, t1 = P.interval()
    T = np.linspace(t0, t1, 17)
    Y = np.array([P.evaluate(float(t)) for t in T])
    for p in Y:
        require(e.off(p) <= 1e-5, "point %s of the parametrized curve is %s off", p.tolist(), e.off(p))
    near(np.array(P.evaluate_multi(T)), Y, 1e-6, "evaluate_multi of the parametrized curve")
    turn = [(e.angle(q) - e.angle(p) + math.pi) % (2 * math.pi) - math.pi for p, q in zip(Y, Y[1:])]
    require(abs(abs(sum(turn)) - 2 * math.pi) < 0.05, "the parametrized curve turns by %s", sum(turn))
    require(P.point_inside(e.o) == (e.k > 0), "the centre inside")
    for t in T[2:-2:5]:
        F = np.array(P.plane_at(float(t)))
        near(F[0][:2], P.evaluate(float(t)), 1e-9, "origin of the plane")
        near(F[1:] @ F[1:].T, np.eye(3), 1e-6, "frame of the plane")
        g = e.grad(F[0][:2])
        require(abs(F[1][:2] @ g) < 0.05 * np.linalg.norm(g), "tangent %s across the curve", F[1])
        require(F[2][:2] @ g * e.k < 0, "normal pointing away from the centre")
    S = e.to_bspline(step=step)
    u0, u1 = S.interval()
    for u in np.linspace(u0, u1, 11):
        p = np.array(S.evaluate(float(u)))
        require(p[2] == 0 and e.off(p[:2]) < 0.05 * e.least, "the spline is %s off the curve", e.off(p[:2]))
    lo, hi = (np.array(x) for x in e.bounds())
    Z = mm.raster_algorithm_2d(e.implicit, lo[0] - 0.1, hi[0] + 0.1, lo[1] - 0.1, hi[1] + 0.1, 24, 24, grad=e.grad if case["exact"] else None)
    require(len(Z) > 0, "the raster found nothing")
    for p in Z:
        require(e.off(p) <= 1e-4 * e.a, "raster point %s is %s off", p.tolist(), e.off(p))
    a = np.sort([e.angle(p) for p in Z])
    require(np.max(np.diff(np.append(a, a[0] + 2 * math.pi))) < 1.2, "the raster misses a part of the curve")

@st.composite
def meetings(draw):
    r, q = draw(r3(0.5, 2)), draw(r3(0.5, 2))
    lo, hi = abs(r - q), r + q
    return {"r": r, "q": q, "d": round(lo + (hi - lo) * draw(r3(0.15, 0.85)), 4), "rot": draw(unit_quaternion()), "o": draw(st.lists(r3(-3, 3), min_size=3, max_size=3)), "kind": draw(st.sampled_from(["spheres", "through"])), "step": draw(r3(0.05, 0.2)), "t": draw(r3(0, 6.28)), "off": draw(st.lists(r3(-1, 1), min_size=3, max_size=3)), "arc": draw(st.one_of(st.none(), r3(1, 5)))}

def scene(case):
    """Two bodies and the circles they meet in: (centre, radius, normal)"""
    A, o = rot(case["rot"]), np.array(case["o"])
    z = A[:, 2]
    r, q, d = case["r"], case["q"], case["d"]
    if case["kind"] == "spheres":
        a = (d * d + r * r - q * q) / (2 * d)
        return mp.Sphere(o.copy(), r), mp.Sphere(o + d * z, q), [(o + a * z, math.sqrt(r * r - a * a), z)]
    big, small = max(r, q) + 0.5, min(r, q)
    h = math.sqrt(big * big - small * small)
    return mp.Sphere(o.copy(), big), mp.ImplicitCylinder(o - 2 * big * z, o + 2 * big * z, small), [(o - h * z, small, z), (o + h * z, small, z)]

def circle_off(c, p):
    v = p - c[0]
    h = v @ c[2]
    return math.hypot(h, np.linalg.norm(v - h * c[2]) - c[1])

def angles(c, X, case):
    A = rot(case["rot"])
    return [math.atan2((p - c[0]) @ A[:, 1], (p - c[0]) @ A[:, 0]) for p in X]

@facet(FACETS, meetings, 120, 1500)
def intersections(case, ctx):
    """from a start near it the point of intersection of two surfaces is on both; marching gives points on it a step apart once round or to the end given; every curve is found once"""
    s1, s2, cs = scene(case)
    A = rot(case["rot"])
    c = cs[0]
    # Gradients at a sharp angle lead nowhere
    u = A @ np.array([math.cos(case["t"]), math.sin(case["t"]), 0])
    on = c[0] + c[1] * u
    g1, g2 = s1.gradient(on), s2.gradient(on)
    if np.linalg.norm(np.cross(g1, g2)) < 0.35 or c[1] < 0.3:
        return ctx.trivial()
    ctx.label(case["kind"])
    start = on + np.array(case["off"]) * 0.15 * min(c[1], case["r"], case["q"]) / 2
    args = (s1.implicit, s2.implicit, start, s1.gradient, s2.gradient)
    p = ip.intersection_curve_point(*args, tol=1e-8)
    require(circle_off(c, p) < 1e-7, "point %s is %s off the intersection", p.tolist(), circle_off(c, p))
    require(np.linalg.norm(p - start) < 3 * np.linalg.norm(start - on) + 1e-6, "the point is %s away from a start %s off", np.linalg.norm(p - start), np.linalg.norm(start - on))
    ok, x = ip.intersection_curve_point(*args, tol=1e-8, no_err=True)
    require(bool(ok), "no success")
    near(x, p, 1e-12, "point with the flag")
    x, f1, f2, a, b = ip.intersection_curve_point(*args, tol=1e-8, return_grads=True)
    near(x, p, 1e-12, "point with gradients")
    near([f1, f2], [0, 0], 1e-6, "values")
    near([a, b], [s1.gradient(p), s2.gradient(p)], 1e-5, "gradients")
    ok, rest = ip.intersection_curve_point(*args, tol=1e-8, no_err=True, return_grads=True)
    require(bool(ok) and len(rest) == 5, "result with both %s", rest)
    near(rest[0], p, 1e-12, "point with both")
    far = np.array(case["o"]) if case["kind"] == "through" else c[0] + A[:, 2] * 1.0
    try:
        bad = ip.intersection_curve_point(s1.implicit, s2.implicit, far, s1.gradient, s2.gradient, no_err=True, max_iter=8)
        require(not bad[0] or circle_off(c, bad[1]) < 1e-4 or min(circle_off(k, bad[1]) for k in cs) < 1e-4, "success at %s, off the intersection", bad[1])
    except (ZeroDivisionError, FloatingPointError):
        pass
    # On either surface, where the gradients are parallel
    if case["kind"] == "spheres":
        z = A[:, 2]
        for f, q0 in ((s1, np.array(case["o"]) + case["r"] * z), (s1, np.array(case["o"]) - case["r"] * z), (s2, np.array(case["o"]) + (case["d"] + case["q"]) * z), (s2, np.array(case["o"]) + (case["d"] - case["q"]) * z)):
            ok, bad = ip.intersection_curve_point(s1.implicit, s2.implicit, q0, s1.gradient, s2.gradient, no_err=True)
            require(not ok or circle_off(c, bad) < 1e-4, "success at %s, off the intersection", bad)
            try:
                bad = ip.intersection_curve_point(s1.implicit, s2.implicit, q0, s1.gradient, s2.gradient)
            except ValueError:
                continue
            require(circle_off(c, bad) < 1e-4, "%s is returned, off the intersection", bad)
    step = case["step"] * c[1]
    sign = 1 if np.cross(g1, g2) @ np.cross(c[2], u) > 0 else -1
    end = None
    if case["arc"] is not None:
        k = case["t"] + sign * case["arc"]
        end = c[0] + c[1] * (A @ np.array([math.cos(k), math.sin(k), 0]))
    X = mm.marching_intersection_curve_points(s1.implicit, s2.implicit, s1.gradient, s2.gradient, on, end, step=step, max_points=1000, tol=1e-8)
    for p in X:
        require(circle_off(c, p) < 1e-6, "traced point is %s off", circle_off(c, p))
    d = np.linalg.norm(np.diff(X, axis=0), axis=1)
    require((d > 0.7 * step).all() and (d < 1.3 * step).all(), "points %s apart with a step of %s", [d.min(), d.max()], step)
    T = np.unwrap(angles(c, X, case))
    require((np.diff(T) * sign > 0).all(), "the direction changes")
    want = 2 * math.pi if end is None else case["arc"]
    went = abs(T[-1] - T[0])
    require(want - 1.6 * step / c[1] < went < want + 1e-6, "went round %s of %s", went, want)
    few = mm.marching_intersection_curve_points(s1.implicit, s2.implicit, s1.gradient, s2.gradient, on, None, step=step, max_points=4, tol=1e-8)
    near(few, X[:4] if end is None else few, 1e-9, "the first points")
    require(len(few) == 4, "%s points of 4", len(few))

@facet(FACETS, meetings, 40, 400)
def all_curves(case, ctx):
    """the curves two bodies meet in are each traced round once, and the implicit intersection curve measures the distance to them"""
    s1, s2, cs = scene(case)
    A = rot(case["rot"])
    u = A[:, 0]
    on = cs[0][0] + cs[0][1] * u
    if np.linalg.norm(np.cross(s1.gradient(on), s2.gradient(on))) < 0.5 or cs[0][1] < 0.4:
        return ctx.trivial()
    C = ii.surface_iii(s1, s2)
    near(C.closest_point(on + 0.01 * u), on, 0.02, "closest point")
    p = on + 0.05 * A[:, 2] + 0.02 * u
    q = C.closest_point(p)
    require(circle_off(cs[0], q) < 1e-5, "closest point %s off", circle_off(cs[0], q))
    near(C.implicit(p), np.linalg.norm(p - q), 1e-9, "distance")
    near(C.gradient(p), p - q, 1e-9, "gradient")
    tang = C.tangent(p)
    near(abs(tang @ np.cross(cs[0][2], (q - cs[0][0]) / cs[0][1])), 1.0, 1e-4, "tangent")
    F = np.array(C.plane(p))
    near(F[1:] @ F[1:].T, np.eye(3), 1e-9, "frame")
    step = 0.2 * min(c[1] for c in cs)
    seen = {}
    for X in ii.iterate_curves(C, step=step):
        X = np.array(X)
        k = min(range(len(cs)), key=lambda i: circle_off(cs[i], X[0]))
        c = cs[k]
        for p in X:
            require(circle_off(c, p) < 1e-4, "traced point is %s off", circle_off(c, p))
        require(k not in seen, "curve %s traced twice, %s and %s points", k, seen.get(k), len(X))
        seen[k] = len(X)
        T = np.unwrap(angles(c, X, case))
        require(abs(T[-1] - T[0]) > 2 * math.pi - 1.6 * step / c[1], "traced only %s round", abs(T[-1] - T[0]))
    ctx.label("%d of %d" % (len(seen), len(cs)))
    require(len(seen) >= 1, "no curve found")
