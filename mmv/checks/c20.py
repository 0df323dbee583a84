"""Curves given by functions: the interface every curve has, curves made of curves, lengths."""
import math
import numpy as np
from hypothesis import strategies as st
from mmcore.geom.curves import curve as mc
from mmcore.geom.curves.bspline import NURBSpline
from mmcore.geom.curves.offset import OffsetCurve
from mmcore.numeric import numeric as mn

from ..core import facet, require
from .c21 import near, rot, unit_quaternion

FACETS = []
RULE = "Curves with linear, cubic and sinusoidal parts on domains of length 0.2 to 6 that start anywhere in -5..5, and splines; trivial when the speed comes near zero or varies more than five-fold."
ASSUMPTIONS = ["derivatives by differences are judged by the error of the formula with step 0.001", "a parameter at a length is interpolated between a hundred points: judged to a five hundredth of the domain", "lengths are judged where the speed varies at most five-fold: where it nearly vanishes, the error estimate of the integration is no bound"]

def r3(lo, hi):
    return st.floats(lo, hi).map(lambda x: round(x, 3))

@st.composite
def function(draw):
    return {"a": draw(st.lists(r3(-3, 3), min_size=9, max_size=9)), "w": draw(r3(0.3, 2.5)), "s": draw(r3(-2, 2)), "c": draw(r3(-0.2, 0.2)), "lead": draw(st.sampled_from([0, 1, 2]))}

@st.composite
def domain(draw):
    t0 = draw(st.one_of(st.just(0.0), r3(-5, 5)))
    return [t0, t0 + draw(st.one_of(st.just(1.0), r3(0.2, 6)))]

class Fun:
    """a0 + a1 t + a2 sin(w t + s) in each coordinate, a cubic term in the leading one"""

    def __init__(self, f):
        self.a = np.array(f["a"]).reshape(3, 3)
        self.w, self.s, self.c = f["w"], f["s"], np.zeros(3)
        self.c[f["lead"]] = f["c"]

    def __call__(self, t):
        return self.d(t, 0)

    def d(self, t, k):
        a, w = self.a, self.w
        z = w * t + self.s
        poly = {0: a[:, 0] + a[:, 1] * t + self.c * t ** 3, 1: a[:, 1] + self.c * 3 * t ** 2, 2: self.c * 6 * t, 3: self.c * 6 + 0 * t}[k]
        return poly + a[:, 2] * w ** k * math.sin(z + k * math.pi / 2)

    def slowest(self, t0, t1):
        return min(np.linalg.norm(self.d(t, 1)) for t in np.linspace(t0, t1, 60))

    def size(self, t0, t1, k=3):
        return max(np.linalg.norm(self.d(t, k)) for t in np.linspace(t0, t1, 20)) + abs(self.w) ** 3 * np.linalg.norm(self.a[:, 2])

    def length(self, t0, t1):
        n = max(1, math.ceil(abs(t1 - t0) * 2))
        x, w = np.polynomial.legendre.leggauss(24)
        total = 0.0
        for a, b in zip(np.linspace(t0, t1, n + 1), np.linspace(t0, t1, n + 1)[1:]):
            total += (b - a) / 2 * sum(wi * np.linalg.norm(self.d((a + b) / 2 + (b - a) / 2 * xi, 1)) for xi, wi in zip(x, w))
        return total

def make(f, dom, how):
    if how == "decorated":
        return mc.parametric_curve(tuple(dom))(f)
    c = mc.CurveWrapper(f)
    c.set_interval(tuple(dom))
    return c

HOW = st.sampled_from(["decorated", "wrapped"])

@st.composite
def functions(draw):
    return {"f": draw(function()), "dom": draw(domain()), "how": draw(HOW), "at": draw(st.lists(st.one_of(st.sampled_from([0.0, 1.0]), r3(0, 1)), min_size=1, max_size=4)), "near": draw(st.sampled_from([0, 0.0005, 0.0015])), "cut": draw(r3(0.1, 0.9)), "more": draw(st.lists(r3(0, 2), min_size=2, max_size=2))}

def judge(c, f, t, err, what):
    """The derivatives at t, and what is made of them."""
    near(c.evaluate(t), f(t), 1e-12, what)
    near(c.derivative(t), f.d(t, 1), 1e-6 * err + 1e-10, what + ", derivative at %s", t)
    near(c.second_derivative(t), f.d(t, 2), 2.5e-3 * err + 1e-6, what + ", second derivative at %s", t)
    d1, d2 = f.d(t, 1), f.d(t, 2)
    v = np.linalg.norm(d1)
    if v < 0.2:
        return False
    T = d1 / v
    near(c.tangent(t), T, 1e-5 * err / v + 1e-9, what + ", tangent")
    k = (d2 - T * (d2 @ T)) / v ** 2
    tol = (1e-2 * err / v ** 2 + 1e-5) * (1 + np.linalg.norm(d2) / v)
    near(c.curvature(t), k, tol, what + ", curvature at %s", t)
    kn = np.linalg.norm(k)
    if kn < 0.05 or tol > 0.05 * kn:
        return True
    N = k / kn
    loose = 3 * tol / kn + 1e-5
    near(c.normal(t), N, loose, what + ", normal at %s", t)
    near(c.plane_at(t), [f(t), T, N, np.cross(T, N)], loose, what + ", frame at %s", t)
    p, r, pln = c.circle_of_curvature(t)
    near(p, f(t), 1e-12, what + ", point of the circle of curvature")
    require(abs(r * kn - 1) <= loose, what + ", radius of curvature %s, expected %s", r, 1 / kn)
    near(pln, [f(t) + N / kn, T, N, np.cross(T, N)], loose * (1 + 1 / kn), what + ", circle of curvature")
    return True

@facet(FACETS, functions, 250, 4000)
def interface(case, ctx):
    """derivatives, frames and circles of curvature of a curve given by a function are those of the function, up to both ends of its domain; pieces of it, trimmed further or extended, are the same curve on their domains"""
    f = Fun(case["f"])
    t0, t1 = case["dom"]
    asked = []

    def recorded(t):
        asked.append(float(np.min(t)))
        asked.append(float(np.max(t)))
        return f(t)
    c = make(recorded, (t0, t1), case["how"])
    near(c.interval(), (t0, t1), 0, "domain")
    err = f.size(t0, t1)
    ok = False
    for x in case["at"]:
        t = t0 + (t1 - t0) * x
        t += case["near"] * (1 if x < 0.5 else -1)
        ok |= judge(c, f, t, err, "curve")
    if not ok:
        ctx.trivial()
    ts = np.linspace(t0, t1, 5)
    want = np.array([f(t) for t in ts])
    near(c.evaluate_multi(ts), want, 1e-12, "points at parameters")
    near(c(ts), want, 1e-12, "the curve called")
    near(c.points(5), want, 1e-9, "points")
    for s in (0, 0.25, 1):
        t = t0 + (t1 - t0) * s
        near(c.normalize_param(t), s, 1e-9, "normalized parameter")
        near(c.remap_param(s), t, 1e-9, "remapped parameter")
        near(c.remap_param(3 + 2 * s, (3, 5)), t, 1e-9, "parameter remapped from a domain")
    m = t0 + (t1 - t0) * case["cut"]
    a, b = c.split(m)
    near(a.interval(), (t0, m), 0, "domain of the first piece")
    near(b.interval(), (m, t1), 0, "domain of the second piece")
    for p in (a, b):
        u0, u1 = p.interval()
        near([p.start, p.end], [u0, u1], 0, "ends of a piece")
        judge(p, f, (u0 + u1) / 2, err, "piece")
        near(p(np.array([u0, u1])), [f(u0), f(u1)], 1e-12, "ends of a piece")
    q = (m + t1) / 2
    b.start = q
    near(b.interval(), (q, t1), 0, "domain of a piece with another start")
    a.end = (t0 + m) / 2
    near(a.interval(), (t0, (t0 + m) / 2), 0, "domain of a piece with another end")
    near(a.points(3)[-1], f((t0 + m) / 2), 1e-9, "last point of a piece with another end")
    near(c.interval(), (t0, t1), 0, "domain of the curve cut")
    eps = 1e-9 * (1 + abs(t0) + abs(t1))
    require(min(asked) >= t0 - eps and max(asked) <= t1 + eps, "a curve on %s is asked for its points at %s and %s", (t0, t1), min(asked), max(asked))
    s, e = case["more"]
    c.extend(s, e)
    near(c.interval(), (t0 - s, t1 + e), 1e-12, "domain of the curve extended")
    near(c.points(3)[[0, -1]], [f(t0 - s), f(t1 + e)], 1e-9, "ends of the curve extended")

@st.composite
def expressions(draw):
    leaf = st.one_of(st.tuples(st.just("curve"), function(), domain()), st.tuples(st.just("value"), st.lists(r3(0.5, 3), min_size=3, max_size=3)), st.tuples(st.just("number"), r3(0.5, 3)), st.tuples(st.just("function"), r3(0.5, 2)))
    return {"f": draw(function()), "dom": draw(domain()), "ops": draw(st.lists(st.tuples(st.sampled_from(["+", "-", "*", "/"]), leaf), min_size=1, max_size=4)), "at": draw(r3(0, 1))}

@facet(FACETS, expressions, 200, 3000)
def operators(case, ctx):
    """sums, differences, products and quotients of curves, functions, vectors and numbers are evaluated as such, over the domain the curves share; their derivative is the difference quotient"""
    f = Fun(case["f"])
    lo, hi = case["dom"]
    c = make(f, (lo, hi), "wrapped")
    value = f
    for op, leaf in case["ops"]:
        kind = leaf[0]
        ctx.label(kind)
        if kind == "curve":
            g = Fun(leaf[1])
            if op == "/":
                op = "+"
            other, arg = make(g, leaf[2], "decorated"), g
            lo, hi = max(lo, leaf[2][0]), min(hi, leaf[2][1])
        elif kind == "value":
            arg = lambda t, v=np.array(leaf[1]): v
            other = np.array(leaf[1])
        elif kind == "number":
            arg = lambda t, v=leaf[1]: v
            other = leaf[1]
        else:
            def other(t, w=leaf[1]):
                return 2.0 + math.sin(w * t)
            arg = other
        c = {"+": lambda: c + other, "-": lambda: c - other, "*": lambda: c * other, "/": lambda: c / other}[op]()
        old = value
        value = {"+": lambda t, a=old, b=arg: a(t) + b(t), "-": lambda t, a=old, b=arg: a(t) - b(t), "*": lambda t, a=old, b=arg: a(t) * b(t), "/": lambda t, a=old, b=arg: a(t) / b(t)}[op]
    near(c.interval(), (lo, hi), 0, "domain")
    if hi - lo < 0.1:
        return ctx.trivial()
    t = lo + (hi - lo) * case["at"]
    x = value(t)
    near(c.evaluate(t), x, 1e-9 * (1 + abs(x).max()), "value at %s", t)
    near(c(np.array([lo, hi])), [value(lo), value(hi)], 1e-9 * (1 + np.abs([value(lo), value(hi)]).max()), "values at the ends")
    h = 1e-5
    m = (lo + hi) / 2
    d = (value(m + h) - value(m - h)) / (2 * h)
    third = (value(m + 0.02) - 2 * value(m + 0.01) + 2 * value(m - 0.01) - value(m - 0.02)) / 2e-6
    near(c.derivative(m), d, 1e-6 * (np.abs(third).max() + 1) + 1e-5 * (1 + abs(d).max() + abs(value(m)).max()), "derivative at %s", m)

@st.composite
def lengths(draw):
    return {"f": draw(function()), "dom": draw(domain()), "how": draw(HOW), "x": sorted(draw(st.lists(r3(0, 1), min_size=2, max_size=2))), "tol": draw(st.sampled_from([1e-3, 1e-6, 1e-9])), "flip": draw(st.booleans()), "more": draw(r3(0, 2)), "share": draw(r3(0.05, 0.95))}

@facet(FACETS, lengths, 60, 700)
def length(case, ctx):
    """lengths between parameters are those of the function to the tolerance, also over long domains; the parameter at a length, from any start and after the curve was extended, gives that length; a curve by arc length runs evenly"""
    f = Fun(case["f"])
    t0, t1 = case["dom"]
    if f.slowest(t0, t1 + 2) < max(0.15, 0.2 * max(np.linalg.norm(f.d(t, 1)) for t in np.linspace(t0, t1 + 2, 40))):
        return ctx.trivial()
    c = make(f, (t0, t1), case["how"])
    a, b = (t0 + (t1 - t0) * x for x in case["x"])
    want = f.length(a, b)
    # Differences of the points have an error of their own
    slack = case["tol"] * 6 + 1e-6 * (1 + want + f.size(t0, t1))
    ctx.label("long" if b - a > 4 else "short")
    got = c.evaluate_length((a, b), tol=case["tol"])
    require(abs(got - want) <= slack, "length %s, expected %s, from %s to %s", got, want, a, b)
    total = f.length(t0, t1)
    cell = (t1 - t0) / 500
    fast = max(np.linalg.norm(f.d(t, 1)) for t in np.linspace(t0, t1, 20))
    t = float(c.evaluate_parameter_at_length(total * case["share"]))
    require(t0 <= t <= t1, "parameter at a length %s outside the domain", t)
    require(abs(f.length(t0, t) - total * case["share"]) <= cell * fast + 1e-3, "the length up to the parameter %s is %s, asked for %s", t, f.length(t0, t), total * case["share"])
    near(c.length_at(total * case["share"]), f(t), 1e-9, "point at a length")
    rest = f.length(a, t1)
    u = float(c.evaluate_parameter_at_length(rest * case["share"] * 0.99, t0=a))
    require(abs(f.length(a, u) - rest * case["share"] * 0.99) <= cell * fast + 2e-3, "the length from %s up to the parameter %s is %s, asked for %s", a, u, f.length(a, u), rest * case["share"] * 0.99)
    P = mc.ArcLengthParameterization(c)
    near(P.interval(), (0, 1), 0, "domain by arc length")
    x = case["share"]
    p = float(P.evaluate_curve_parameter(x))
    require(abs(f.length(t0, p) - total * x) <= cell * fast + 2e-3 + 0.002 * total, "at %s of the way the length is %s of %s", x, f.length(t0, p), total)
    near(P.evaluate(x), f(p), 1e-9, "point of the curve by arc length")
    near(P.evaluate_multi(np.array([x, 0.5])), [P.evaluate(x), P.evaluate(0.5)], 1e-9, "points of the curve by arc length")
    require(abs(P.evaluate_length((0, x)) - f.length(t0, p)) <= 0.01 + 1e-3 * total, "length of the curve by arc length %s", P.evaluate_length((0, x)))
    near(P.tangent(x), c.tangent(p), 1e-9, "tangent by arc length")
    near(P.curvature(x), c.curvature(p), 1e-9, "curvature by arc length")
    # the difference quotient in the middle of a cell
    k = (math.floor(x * 99) + 0.5) / 99
    h = 0.2 / 99
    near(P.derivative(k), (P.evaluate(k + h) - P.evaluate(k - h)) / (2 * h), 1e-4 * (1 + total * (t1 - t0) ** 2) * (1 + f.size(t0, t1)), "derivative by arc length at %s", k)
    d, R, pln = P.circle_of_curvature(k) if np.linalg.norm(P.curvature(k)) > 1e-3 else (P.evaluate(k), None, None)
    near(d, P.evaluate(k), 1e-9, "point of the circle of curvature by arc length")
    c.extend(0, case["more"])
    total = f.length(t0, t1 + case["more"])
    t = float(c.evaluate_parameter_at_length(total * case["share"]))
    cell = (t1 + case["more"] - t0) / 500
    fast = max(fast, max(np.linalg.norm(f.d(t, 1)) for t in np.linspace(t1, t1 + case["more"], 20)))
    require(abs(f.length(t0, t) - total * case["share"]) <= cell * fast + 1e-3, "after an extension the length up to the parameter %s is %s, asked for %s", t, f.length(t0, t), total * case["share"])

@st.composite
def analyses(draw):
    return {"rot": draw(unit_quaternion()), "q": draw(unit_quaternion()), "s": draw(st.lists(r3(-2, 2), min_size=5, max_size=5)), "xy": draw(st.lists(r3(-3, 3), min_size=2, max_size=2)), "zero": draw(st.lists(st.integers(0, 5), max_size=3)), "v": draw(st.lists(st.lists(r3(-3, 3), min_size=3, max_size=3), min_size=5, max_size=5))}

@facet(FACETS, analyses, 400, 6000)
def analysis(case, ctx):
    """the solution of three equations in two unknowns solves them and leaves the columns alone; the curvature of a plane section, normals and curvatures of functions are those of their definitions"""
    u, v = (np.array(x) for x in case["v"][:2])
    w = np.concatenate([u, v])
    for i in case["zero"]:
        w[i] = 0
    u, v = w[:3].copy(), w[3:].copy()
    x, y = case["xy"]
    n = np.cross(u, v)
    area = np.linalg.norm(n)
    if area > 0.05:
        d = x * u + y * v
        for kind in (list, np.array):
            a, b = kind(u.tolist()), kind(v.tolist())
            r = mn.solve3x2(a, b, *d.tolist())
            require(r[0] == 2, "rank %s", r[0])
            near(r[1:4], [x, y, 0], 1e-9 * (1 + 1 / area) * 30, "solution")
            near([a, b], [u, v], 0, "columns afterwards")
    else:
        ctx.label("flat")
    par = mn.solve3x2((2 * u).tolist(), (4 * u).tolist(), 0.0, 0.0, 0.0)
    require(par[0] == (1 if np.abs(u).max() > 0 else 0), "rank %s of parallel columns", par[0])
    # A quadric z = q(x, y), turned: its sections with planes through a point off the tangent plane
    A = rot(case["rot"])
    e, f_, g, h, k = case["s"]
    S10, S01 = A @ [1, 0, h], A @ [0, 1, k]
    S20, S11, S02 = A @ [0, 0, e], A @ [0, 0, f_], A @ [0, 0, g]
    N = np.cross(S10, S01)
    pn = rot(case["q"])[:, 0]
    D = np.cross(N, pn)
    keep = [S10.copy(), S01.copy()]
    if np.linalg.norm(D) > 0.1:
        ok, K = mn.evaluate_sectional_curvature(S10, S01, S20, S11, S02, pn)
        require(bool(ok), "no sectional curvature")
        near([S10, S01], keep, 0, "derivatives afterwards")
        # the curve in the plane: D = a S10 + b S01, second derivative along D plus what keeps it in the plane
        a, b = np.linalg.lstsq(np.array([S10, S01]).T, D, rcond=None)[0]
        acc = a * a * S20 + 2 * a * b * S11 + b * b * S02
        # add a tangential vector along S so that the acceleration lies in the plane
        T = D / np.linalg.norm(D)
        out = np.cross(T, N / np.linalg.norm(N))
        acc = acc - out * (acc @ pn) / (out @ pn)
        want = (acc - T * (acc @ T)) / (D @ D)
        near(K, want, 1e-7 * (1 + np.abs(want).max()), "sectional curvature")
    else:
        ctx.trivial()
    p, q, r, s, t = (np.array(z) for z in case["v"])
    det, ok = mn.evaluate_jacobian(p @ p, p @ q, q @ q)
    c = np.cross(p, q)
    near(det, c @ c, 1e-9 * (1 + (p @ p) * (q @ q)), "determinant")
    sine = np.linalg.norm(c) / max(np.linalg.norm(p) * np.linalg.norm(q), 1e-30)
    if sine > 1e-3:
        require(bool(ok), "vectors at a sine of %s taken for parallel", sine)
        for fun in (mn.evaluate_normal, mn.evaluate_normal2):
            m = fun(p, q, r, s, t, 1)
            near(np.array(m) / np.linalg.norm(m), c / np.linalg.norm(c), 1e-9, "normal")
    if np.linalg.norm(p) > 0.1:
        T, K, ok = mn.evaluate_curvature(p, q)
        near(T, p / np.linalg.norm(p), 1e-12, "tangent")
        near(K, (q - T * (q @ T)) / (p @ p), 1e-9 * (1 + np.abs(q).max() / (p @ p)), "curvature")
        T, ok = mn.evaluate_tangent(p, q)
        near(T, p / np.linalg.norm(p), 1e-12, "tangent alone")
        near(mn.calculate_curvature2d(p[0], p[1], q[0], q[1])[2] * max((p[0] ** 2 + p[1] ** 2) ** 1.5, 1e-30) if p[0] or p[1] else 0, abs(p[0] * q[1] - p[1] * q[0]) if p[0] or p[1] else 0, 1e-9 * (1 + abs(p).max() * abs(q).max()), "plane curvature")
    z = np.zeros(3)
    if np.linalg.norm(q) > 0.1:
        near(mn.evaluate_tangent(z, q)[0], q / np.linalg.norm(q), 1e-12, "tangent without speed")
    require(not mn.evaluate_tangent(z, z)[1], "a point has a tangent")

@st.composite
def offsets(draw):
    return {"f": draw(function()), "dom": draw(domain()), "d": draw(r3(-2, 2)), "e": draw(r3(-2, 2)), "x": draw(r3(0, 1)), "pts": draw(st.lists(st.lists(r3(-3, 3), min_size=3, max_size=3), min_size=4, max_size=7)), "move": draw(st.lists(r3(-3, 3), min_size=3, max_size=3)), "i": draw(st.integers(0, 6))}

@facet(FACETS, offsets, 120, 1500)
def derived(case, ctx):
    """an offset curve is the offset away along the normal, now too when it was changed; extreme points and roots of a curve are found; a spline answers as a curve"""
    f = Fun(case["f"])
    t0, t1 = case["dom"]
    c = make(f, (t0, t1), "wrapped")
    t = t0 + (t1 - t0) * case["x"]
    v = np.linalg.norm(f.d(t, 1))
    d2 = f.d(t, 2)
    T = f.d(t, 1) / max(v, 1e-9)
    k = np.linalg.norm(d2 - T * (d2 @ T))
    if v > 0.3 and k > 0.3:
        o = OffsetCurve(c, case["d"])
        N = np.array(c.plane_at(t))[2]
        near(o.evaluate(t), f(t) + N * case["d"], 1e-9, "offset point")
        o.offset = case["e"]
        require(o.offset == case["e"], "offset %s", o.offset)
        near(o.evaluate(t), f(t) + N * case["e"], 1e-9, "offset point after a change")
    else:
        ctx.trivial()
    # one period at most: each coordinate a + b sin(x), its extremes inside or at the ends
    w = case["f"]["w"]
    g = Fun({**case["f"], "c": 0, "a": [x if i % 3 != 1 else 0 for i, x in enumerate(case["f"]["a"])]})
    hi = min(t1, t0 + 3.0 / w)
    cg = make(g, (t0, hi), "wrapped")
    X = cg(np.array(mn.curve_bound_points(cg, tol=1e-4)))
    dense = np.array([g(x) for x in np.linspace(t0, hi, 400)])
    amp = np.abs(np.array(case["f"]["a"]).reshape(3, 3)[:, 2]) + 1
    require((X.min(axis=0) <= dense.min(axis=0) + 1e-4 * amp * w + 1e-9).all() and (X.max(axis=0) >= dense.max(axis=0) - 1e-4 * amp * w - 1e-9).all(), "extremes %s, expected %s", [X.min(axis=0), X.max(axis=0)], [dense.min(axis=0), dense.max(axis=0)])
    # evenly rising first coordinate: one root
    mid = t0 + (hi - t0) * case["x"]
    line = make(lambda s: np.array([0.5 * (s - mid), 1.0, (s - mid) * -2.0]), (t0 - 0.3, hi + 0.3), "wrapped")
    for axis in (0, 2):
        R = mn.curve_roots(line, axis=axis)
        require(len(R) >= 1 and max(abs(r - mid) for r in R) < 0.02, "roots %s, expected %s", R, mid)
    P = np.array(case["pts"])
    s = NURBSpline(P, 3)
    u0, u1 = s.interval()
    u = u0 + (u1 - u0) * case["x"]
    near(s.evaluate_multi(np.array([u0, u, u1])), [s.evaluate(u0), s.evaluate(u), s.evaluate(u1)], 1e-9, "points of a spline")
    a, b = mc.TrimmedCurve(s, u0, u), mc.TrimmedCurve(s, start=u)
    near(a.interval(), (u0, u), 0, "domain of a trimmed spline")
    near(b.interval(), (u, u1), 0, "domain of a spline trimmed at its start")
    m = (u0 + u) / 2
    near(a.evaluate(m), s.evaluate(m), 1e-12, "point of a trimmed spline")
    near(a.derivative(m), s.derivative(m), 1e-12, "derivative of a trimmed spline")
    near(a.second_derivative(m), s.second_derivative(m), 1e-12, "second derivative of a trimmed spline")
    k = s + np.array(case["move"])
    near(k.evaluate(m), np.array(s.evaluate(m)) + case["move"], 1e-9, "a spline moved")
