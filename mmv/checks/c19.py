"""Closest points and feet against brute force and exact answers."""
import itertools
import math
import numpy as np
from hypothesis import strategies as st
from mmcore.geom import surfaces as ms
from mmcore.numeric import closest_point as cp
from mmcore.numeric import divide_and_conquer as dc
from mmcore.numeric.algorithms.point_inversion import point_inversion_curve

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve
from ..strat import curve_samples, extent

FACETS = []
RULE = "Point sets with ties and repeated coordinates; rational curves of degree 1 to 4 on any domain, points near and far; rectangles in space; trivial below four points, for straight curves and where the distance has several minima in one unit of search."
ASSUMPTIONS = ["the search on curves divides the domain into steps of a half: the nearest point is claimed where the distance has one minimum in each step", "on surfaces the search halves a grid: claimed for rectangles, where it is exact"]

@st.composite
def pairs(draw):
    lim = draw(st.sampled_from([2, 6, 30]))
    c = draw(st.sampled_from([st.integers(-lim, lim), st.floats(-lim, lim)]))
    x = draw(st.sampled_from([c, st.integers(0, 1)]))
    h = draw(st.sampled_from([1, 1, 1 / 64, 256]))
    return [[a * h, b * h] for a, b in draw(st.lists(st.tuples(x, c), min_size=2, max_size=40))]

@facet(FACETS, pairs, 800, 10000)
def closest_pair(case, ctx):
    """the closest pair of points of a plane set, sharing coordinates or not, is the one brute force finds"""
    if len(case) < 4:
        ctx.trivial()
    pts = [tuple(p) for p in case]
    want = min(math.dist(a, b) for a, b in itertools.combinations(pts, 2))
    ctx.label("repeated" if want == 0 else "ties" if len({p[0] for p in pts}) < len(pts) else "distinct")
    d, (i, j) = cp.min_distance(pts)
    require(i != j and 0 <= min(i, j) and max(i, j) < len(pts), "the closest pair of %s is %s", pts, (i, j))
    require(abs(d - want) <= 1e-12 * (1 + want) and abs(math.dist(pts[i], pts[j]) - d) <= 1e-12 * (1 + want), "the closest pair of %s is %s at %s, and one at %s is there", pts, (i, j), d, want)

@st.composite
def curve_points(draw):
    c = draw(gen.curve(max_degree=4, max_extra=3))
    k = gen.curve_knots(c)
    s = draw(gen.unit())
    far = st.tuples(*[gen.coord()] * 3).map(lambda t: ["at", list(t)])
    near = st.tuples(gen.unit(), *[st.floats(-0.5, 0.5)] * 3).map(lambda t: ["by", list(t)])
    return {"c": c, "q": [list(x) for x in draw(st.lists(st.one_of(near, near, far), min_size=1, max_size=3))], "tol": draw(st.sampled_from([1e-3, 1e-4, 1e-6]))}

def place(c, k, q):
    kind, v = q
    if kind == "at":
        return np.array(v, float)
    t = gen.snap(k, min(k[0] + v[0] * (k[-1] - k[0]), k[-1]), 1e-9)
    return np.array(oracle.curve_point(c, k, t)) + np.array(v[1:])

@facet(FACETS, curve_points, 250, 3000)
def on_curve(case, ctx):
    """the closest point found on a curve is in its domain, at the distance reported, no farther than both ends and, where the distance has one minimum in each step of the search, the nearest of the curve up to the tolerance; many points are answered as one by one"""
    c = case["c"]
    k = gen.curve_knots(c)
    crv = mk_curve(c)
    P = [place(c, k, q) for q in case["q"]]
    got = cp.closest_point_on_curve(crv, [p.tolist() for p in P], tol=case["tol"])
    require(len(got) == len(P), "%d answers for %d points", len(got), len(P))
    if len(c["points"]) == 2:
        ctx.trivial()
    scale = max(1.0, extent(c["points"]))
    a = k[0]
    steps = [a]
    while steps[-1] + 0.5 < k[-1] - 1e-9:
        steps.append(steps[-1] + 0.5)
    steps.append(k[-1])
    m = 48
    grid = [np.linspace(x, y, m + 1) for x, y in zip(steps, steps[1:])]
    pts = [np.array([oracle.curve_point(c, k, gen.snap(k, min(t, k[-1]), 1e-9)) for t in g]) for g in grid]
    speed = max(np.linalg.norm(np.diff(p, axis=0), axis=1).max() / (g[1] - g[0]) for p, g in zip(pts, grid))
    for p, (t, d), q in zip(P, got, case["q"]):
        require(k[0] <= t <= k[-1], "the closest parameter %s is outside %s", t, [k[0], k[-1]])
        one = cp.closest_point_on_curve(crv, p, tol=case["tol"])
        require((float(one[0]), float(one[1])) == (float(t), float(d)), "one by one the closest point to %s is at %s, together at %s", p.tolist(), one, (t, d))
        there = np.linalg.norm(np.array(crv.evaluate(float(t))) - p)
        require(abs(there - d) <= 1e-9 * scale, "the closest point to %s is at %s, %s away and not %s", p.tolist(), t, there, d)
        ends = min(np.linalg.norm(pts[0][0] - p), np.linalg.norm(pts[-1][-1] - p))
        require(d <= ends + 1e-9 * scale, "the closest point to %s is %s away, and an end of the curve %s", p.tolist(), d, ends)
        ds = [np.linalg.norm(x - p, axis=1) for x in pts]
        one = all((np.diff(np.sign(np.diff(x))) != 0).sum() <= (1 if np.diff(x)[0] < 0 else 0) for x in ds)
        ctx.label("one minimum per step" if one else "several", q[0])
        if one:
            best = min(x.min() for x in ds)
            require(d <= best + 2 * speed * case["tol"] + 1e-9 * scale, "the closest point to %s is at %s, %s away, and one %s away is on the curve", p.tolist(), t, d, best)

@st.composite
def feet(draw):
    c = draw(gen.curve(min_degree=2, max_degree=4, max_extra=2))
    return {"c": c, "s": draw(st.floats(0.05, 0.95)), "off": [draw(st.floats(-1, 1)) for _ in range(3)], "start": draw(st.floats(-0.3, 0.3)), "tol": draw(st.sampled_from([1e-6, 1e-8, 1e-10]))}

@facet(FACETS, feet, 350, 4000)
def foot(case, ctx):
    """from a start near the foot of a perpendicular, inversion and the local search end at the foot within the tolerance"""
    c = case["c"]
    k = gen.curve_knots(c)
    L = k[-1] - k[0]
    t = k[0] + case["s"] * L
    room = min(abs(t - x) for x in set(k))
    C, D, DD = [np.array(x) for x in oracle.curve_derivs(c, k, t, 2)[:3]]
    sp = np.linalg.norm(D)
    if room < 0.02 * L or sp < 0.2:
        ctx.trivial()
        return
    # off the curve along a normal, well within the radius of curvature
    n = np.array(case["off"]) - D * np.dot(case["off"], D) / sp ** 2
    kap = np.linalg.norm(np.cross(D, DD)) / sp ** 3
    lim = 0.25 / max(kap, 0.05)
    if np.linalg.norm(n) > 1e-6:
        n *= min(1, lim / np.linalg.norm(n))
    P = C + n
    # the step of Newton's method contracts where the third derivative is small against the first
    start = t + case["start"] * min(room, 0.3 * sp / (np.linalg.norm(DD) + 1e-9))
    w = np.linspace(-1, 1, 9) * abs(start - t) * 1.5 + t
    if any(not k[0] < x < k[-1] for x in w):
        ctx.trivial()
        return
    f1 = []
    for x in w:
        a, b, e = [np.array(y) for y in oracle.curve_derivs(c, k, x, 2)[:3]]
        f1.append(b @ b + e @ (a - P))
    f1 = np.array(f1)
    if f1.min() <= 0 or f1.max() > 1.5 * f1.min():
        ctx.trivial()
        return
    ctx.label("on the curve" if np.linalg.norm(n) < 1e-6 else "off it", "start at the foot" if start == t else "start away")
    crv = mk_curve(c)
    scale = max(1.0, extent(c["points"]))
    tol = case["tol"]
    got = point_inversion_curve(crv, P, float(start), tol, tol)
    # the tolerance is on the step, the distance or the cosine
    room_t = (tol / sp + tol * np.linalg.norm(n) * sp / f1.min() + 1e-9 * scale / sp) * 4
    require(abs(got - t) <= room_t, "inversion of %s from %s ends at %s, and the foot is at %s", P.tolist(), start, got, t)
    t2, d = cp.local_closest_point_on_curve(crv, float(start), P, tol=tol)
    require(abs(t2 - t) <= 1e-3 * min(1, sp) + 4 * tol and abs(d - np.linalg.norm(n)) <= 1e-3 * scale, "the local search for %s from %s ends at %s, %s away, and the foot is at %s", P.tolist(), start, t2, d, t)

@st.composite
def rectangles(draw):
    from .c21 import unit_quaternion
    i = st.integers(-20, 20)
    return {"q": draw(unit_quaternion()), "o": [draw(i) for _ in range(3)], "size": [draw(st.integers(1, 40)) / 4, draw(st.integers(1, 40)) / 4],
            "pts": [list(t) for t in draw(st.lists(st.tuples(st.one_of(st.floats(-0.5, 1.5), st.sampled_from([0.0, 0.25, 0.5, 1.0])), st.one_of(st.floats(-0.5, 1.5), st.sampled_from([0.0, 0.5, 1.0])), st.floats(-3, 3)), min_size=1, max_size=5))], "tol": draw(st.sampled_from([1e-3, 1e-6]))}

@facet(FACETS, rectangles, 250, 3000)
def on_surface(case, ctx):
    """on a rectangle the closest point found is the nearest within the tolerance, asked one by one, for a list or all at once; its bounding tree holds it"""
    from .c21 import rot
    X, Y, Z = rot(case["q"]).T
    o = np.array(case["o"], float)
    a, b = case["size"]
    s = ms.BiLinear(o, o + a * X, o + a * X + b * Y, o + b * Y)
    P = np.array([o + u * a * X + v * b * Y + w * Z for u, v, w in case["pts"]])
    want = np.clip([p[:2] for p in case["pts"]], 0, 1)
    tol = case["tol"]
    ctx.label(*["inside" if 0 < u < 1 and 0 < v < 1 else "beyond an edge" for u, v, _ in case["pts"]])
    def near(got, w, what, p):
        got = np.asarray(got, float)
        require(got.shape == (2,) and np.abs(got - w).max() <= 2 * tol + 1e-6, "%s: the closest point to %s is at %s, and should be at %s", what, p.tolist(), got.tolist(), w.tolist())
    batch = np.asarray(cp.closest_point_on_surface_batched(s, P, tol=tol), float)
    require(batch.shape == (len(P), 2), "closest_point_on_surface_batched gives %s for %d points", batch.shape, len(P))
    for p, w, g in zip(P, want, batch):
        near(g, w, "closest_point_on_surface_batched", p)
    for p, w, uvw in zip(P, want, case["pts"]):
        near(cp.closest_point_on_surface(s, p, tol=tol), w, "closest_point_on_surface", p)
        near(dc.divide_and_conquer_min_2d(lambda u, v: (u - w[0]) ** 2 + 2 * abs(v - w[1]), (0.0, 1.0), (0.0, 1.0), tol), w, "divide_and_conquer_min_2d", p)
    for p, w, g in zip(P, want, np.asarray(cp.closest_points_on_surface(s, P, tol=tol), float)):
        near(g, w, "closest_points_on_surface", p)
    lo, hi = np.asarray(s.bounds(), float)
    c4 = np.array([o, o + a * X, o + a * X + b * Y, o + b * Y])
    require(np.allclose(lo, c4.min(0), atol=1e-9) and np.allclose(hi, c4.max(0), atol=1e-9), "the tree of a rectangle covers %s to %s", lo.tolist(), hi.tolist())
