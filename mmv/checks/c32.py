"""Implicit shapes: set operations, primitives, trees of cells, dual contours and circles."""
import importlib
import math
import numpy as np
from hypothesis import strategies as st
from mmcore.geom import circle as mc
from mmcore.geom import primitives as mp
from mmcore.geom.implicit import dc
from mmcore.geom.implicit import implicit as mi
from mmcore.geom.implicit.tree import octree as oc
from mmcore.geom.implicit.tree.collapse2d import Empty, Full, Leaf, Root, build_tree2d, collapse2d
from mmcore.geom.implicit.tree.tree2d import ImplicitTree2D
from mmcore.geom.implicit.tree.tree3d import ImplicitTree3D

from ..core import facet, require
from .c21 import near

t3 = importlib.import_module("mmcore.geom.implicit.tree.collapse3d")  # the package exports a function of this name
FACETS = []
RULE = "Expressions of up to four discs or balls under union, intersection and difference; spheres, cylinders and tubes anywhere; trees of depth 1 to 4; circles crossing, touching and apart; trivial for single shapes and empty trees."
ASSUMPTIONS = ["points within 1e-6 of a boundary are not asked about", "dual contours are judged where a cell cuts the boundary as a half plane does"]

def r3(lo, hi):
    return st.floats(lo, hi).map(lambda x: round(x, 3))

class Ball2(mi.Implicit2D):
    def __init__(self, o, r):
        self.o, self.r = np.array(o, float), r
        super().__init__()

    def implicit(self, v):
        return float(np.linalg.norm(np.asarray(v, float) - self.o) - self.r)

    def bounds(self):
        return tuple((self.o - self.r).tolist()), tuple((self.o + self.r).tolist())

class Ball3(mi.Implicit3D):
    def __init__(self, o, r):
        self.o, self.r = np.array(o, float), r
        super().__init__()

    def implicit(self, v):
        return float(np.linalg.norm(np.asarray(v, float) - self.o) - self.r)

    def bounds(self):
        return tuple((self.o - self.r).tolist()), tuple((self.o + self.r).tolist())

def ball(n):
    return st.tuples(st.lists(r3(-2, 2), min_size=n, max_size=n), r3(0.4, 2))

@st.composite
def shapes(draw, n=None):
    n = n or draw(st.sampled_from([2, 3]))
    k = draw(st.integers(1, 4))
    t = [list(x) for x in draw(st.lists(ball(n), min_size=k, max_size=k))]
    while len(t) > 1:
        i = draw(st.integers(0, len(t) - 2))
        t[i:i + 2] = [[draw(st.sampled_from(["|", "+", "&", "-", "union", "intersection", "substraction"])), t[i], t[i + 1]]]
    return {"n": n, "tree": t[0], "pts": [draw(st.lists(r3(-4, 4), min_size=n, max_size=n)) for _ in range(6)], "depth": draw(st.integers(1, 4 if n == 2 else 3))}

METHODS = {"|": lambda a, b: a | b, "+": lambda a, b: a + b, "&": lambda a, b: a & b, "-": lambda a, b: a - b,
           "union": lambda a, b: a.union(b), "intersection": lambda a, b: a.intersection(b), "substraction": lambda a, b: a.substraction(b)}

def build(t, n):
    if len(t) == 2:
        return (Ball2 if n == 2 else Ball3)(*t)
    return METHODS[t[0]](build(t[1], n), build(t[2], n))

def inside(t, p):
    """The truth, and how far from undecided it is."""
    if len(t) == 2:
        d = math.dist(p, t[0]) - t[1]
        return d < 0, abs(d)
    (a, x), (b, y) = inside(t[1], p), inside(t[2], p)
    return {"|": a or b, "+": a or b, "u": a or b, "&": a and b, "i": a and b, "-": a and not b, "s": a and not b}[t[0][0]], min(x, y)

def leaves(t):
    return [t] if len(t) == 2 else leaves(t[1]) + leaves(t[2])

@facet(FACETS, shapes, 300, 4000)
def operations(case, ctx):
    """a point is in the union, intersection or difference of shapes when it is in either, both, or the first alone; the bounds hold the shape; many points are answered as one by one"""
    n, t = case["n"], case["tree"]
    s = build(t, n)
    if len(t) == 2:
        ctx.trivial()
    else:
        ctx.label(t[0])
    pts = [np.array(p) for p in case["pts"]]
    for o, r in leaves(t):
        for k in range(2 * n):
            e = np.zeros(n)
            e[k // 2] = (r - 0.01) * (1 if k % 2 else -1)
            pts.append(np.array(o) + e)
    lo, hi = s.bounds()
    kept = []
    for p in pts:
        want, far = inside(t, p.tolist())
        if far < 1e-6:
            continue
        kept.append(p)
        v = float(s.implicit(p))
        require((v < 0) == want, "point %s is %s, value %s", p.tolist(), "inside" if want else "outside", v)
        require(float(s(p)) == v, "call at one point gives %s, implicit %s", float(s(p)), v)
        if n == 2:
            require(bool(s.point_inside(p)) == want, "point_inside of %s", p.tolist())
        if want:
            ctx.label("inside")
            require(all(a - 1e-9 <= x <= b + 1e-9 for a, x, b in zip(lo, p, hi)), "point %s inside the shape is out of its bounds %s", p.tolist(), (lo, hi))
    if kept:
        near(s(np.array(kept)), [float(s.implicit(p)) for p in kept], 0, "values at many points")

@facet(FACETS, shapes, 80, 800)
def trees(case, ctx):
    """the cells of the tree of a shape part its bounds; full cells have every corner of the finest cells inside, empty ones outside, border ones both"""
    n, t, depth = case["n"], case["tree"], case["depth"]
    s = build(t, n)
    lo, hi = (np.array(x, float) for x in s.bounds())
    if not (hi - lo > 1e-3).all():
        return ctx.trivial()
    s.build_tree(depth)
    T = s.tree
    ctx.label("depth %d" % depth)
    if not T.border:
        ctx.trivial()
    unit = (hi - lo) / 2 ** depth
    seen = np.zeros((2 ** depth,) * n, dtype=int)
    for kind, cells in (("full", T.full), ("empty", T.empty), ("border", T.border)):
        for a, b in cells:
            i, j = (np.array(a) - lo) / unit, (np.array(b) - lo) / unit
            require(np.abs(i - np.round(i)).max() < 1e-6 and np.abs(j - np.round(j)).max() < 1e-6, "cell %s is off the grid", (a, b))
            i, j = np.round(i).astype(int), np.round(j).astype(int)
            seen[tuple(slice(x, y) for x, y in zip(i, j))] += 1
            corners = [lo + unit * (i + np.array(k)) for k in np.ndindex(*(j - i + 1))]
            states = [inside(t, c.tolist()) for c in corners]
            if min(x[1] for x in states) < 1e-6:
                continue
            ins = [x[0] for x in states]
            if kind == "border":
                require(any(ins) and not all(ins), "border cell %s has its corners on one side", (a, b))
            else:
                require(all(x == (kind == "full") for x in ins), "%s cell %s has a corner on the other side", kind, (a, b))
    require((seen == 1).all(), "cells cover the grid %s to %s times", seen.min(), seen.max())
    if n == 2:
        U = ImplicitTree2D(s.implicit, 2, bounds=((-3.0, -3.0), (3.0, 3.0)))
        U.build()
        area = sum((b[0] - a[0]) * (b[1] - a[1]) for a, b in U.full + U.empty + U.border)
        near(area, 36.0, 1e-9, "area of the cells in bounds given")

@st.composite
def solids(draw):
    kind = draw(st.sampled_from(["sphere", "cylinder", "tube", "Cylinder"]))
    return {"kind": kind, "o": draw(st.lists(r3(-3, 3), min_size=3, max_size=3)), "d": draw(st.lists(st.one_of(st.just(0.0), r3(-3, 3)), min_size=3, max_size=3).filter(lambda v: math.hypot(*v) > 0.3)),
            "r": draw(r3(0.2, 2)), "t": draw(r3(0.05, 0.3)), "pts": [draw(st.lists(r3(-5, 5), min_size=3, max_size=3)) for _ in range(5)], "uv": [[draw(st.floats(0, 1)), draw(st.floats(0, 1))] for _ in range(4)],
            "move": draw(st.one_of(st.none(), st.tuples(st.sampled_from(["radius", "start", "end", "origin"]), st.lists(r3(-3, 3), min_size=3, max_size=3), r3(0.2, 2))))}

@facet(FACETS, solids, 250, 4000)
def primitives(case, ctx):
    """spheres, cylinders and tubes give the signed distance to their (unbounded) surface and its unit gradient, and bounds that hold the part between their ends exactly, after being moved too"""
    kind, o, r, th = case["kind"], np.array(case["o"]), case["r"], case["t"]
    e = o + np.array(case["d"])
    s = mp.Sphere(o, r) if kind == "sphere" else mp.ImplicitCylinder(o, e, r) if kind == "cylinder" else mp.Tube(o, e, r, th) if kind == "tube" else mp.Cylinder(o, e, r)
    ctx.label(kind)
    m = case["move"]
    if m is not None and kind != "Cylinder" and hasattr(s, m[0]):
        v = np.array(m[1])
        if m[0] == "radius":
            s.radius = r = m[2]
        elif m[0] == "end":
            if np.linalg.norm(v - o) > 0.3:
                s.end = e = v
        elif m[0] == "start":
            if np.linalg.norm(v - e) > 0.3:
                s.start = o = v
        else:
            s.origin = o = v
        ctx.label("moved")
    d = (e - o) / np.linalg.norm(e - o)

    def radial(p):
        return p - o if kind == "sphere" else (p - o) - d * ((p - o) @ d)
    for p in case["pts"]:
        p = np.array(p)
        q = radial(p)
        n = np.linalg.norm(q)
        want = abs(n - r) - th / 2 if kind == "tube" else n - r
        near(s.implicit(p), want, 1e-9, "distance of %s" % p.tolist())
        if n > (0.3 if kind == "tube" else 0.1) and (kind != "tube" or abs(n - r) > 0.01):
            near(s.gradient(p), q / n * (np.sign(n - r) if kind == "tube" else 1), 1e-5 if kind == "tube" else 1e-9, "gradient at %s" % p.tolist())
    R = r + th / 2 if kind == "tube" else r
    x = np.full(3, R) if kind == "sphere" else R * np.sqrt(np.maximum(1 - d * d, 0))
    lo, hi = (o - x, o + x) if kind == "sphere" else (np.minimum(o, e) - x, np.maximum(o, e) + x)
    near(np.array(s.bounds()), [lo, hi], 1e-6, "bounds")
    if kind == "Cylinder":
        (u0, u1), (v0, v1) = s.interval()
        near([u0, u1, v0, v1], [0, 2 * math.pi, 0, np.linalg.norm(e - o)], 1e-9, "domain of the cylinder")
        P = []
        for u, v in case["uv"]:
            p = np.array(s.evaluate(np.array([u0 + (u1 - u0) * u, v0 + (v1 - v0) * v])))
            near(np.linalg.norm(radial(p)), r, 1e-9, "distance from the axis")
            near((p - o) @ d, v1 * v, 1e-9, "height")
            P.append((u, radial(p) / r))
        for (a, p), (b, q) in zip(P, P[1:]):
            near(p @ q, math.cos(2 * math.pi * (a - b)), 1e-9, "angle between points")
    if kind in ("sphere", "tube"):
        T = ImplicitTree3D(s, 2)
        T.build()
        vol = sum(np.prod(np.array(b) - np.array(a)) for a, b in T.full + T.empty + T.border)
        near(vol, np.prod(hi - lo), 1e-6 * (1 + np.prod(hi - lo)), "volume of the cells of a tree")

@st.composite
def pictures(draw):
    kind = draw(st.sampled_from(["circle", "circle", "union", "rectangle", "substract", "inv", "halfplane", "saddle"]))
    return {"kind": kind, "c": [draw(r3(0.3, 0.7)) + 0.00037, draw(r3(0.3, 0.7)) + 0.00041], "r": draw(r3(0.12, 0.28)), "c2": [draw(r3(0.3, 0.7)) + 0.00053, draw(r3(0.3, 0.7)) + 0.00017], "r2": draw(r3(0.12, 0.28)),
            "depth": draw(st.integers(2, 6)), "merge": draw(st.booleans()), "pts": [[draw(r3(0, 1)), draw(r3(0, 1))] for _ in range(4)]}

def bilinear(s, cell, p):
    (a, b), (c, d) = cell
    u, v = (p[0] - a) / (c - a), (p[1] - b) / (d - b)
    return sum(s(q) * w for q, w in (((a, b), (1 - u) * (1 - v)), ((c, b), u * (1 - v)), ((a, d), (1 - u) * v), ((c, d), u * v)))

def merged(s, t, tie):
    """The border cells, four of them made one when the shape is bilinear over it up to 0.001."""
    if isinstance(t, Leaf):
        return [t.data]
    if not isinstance(t, Root):
        return []
    parts = [merged(s, k, tie) for k in t.children]
    flat = sum(parts, [])
    if all(len(p) == 1 for p in parts) and len({z[1][0] - z[0][0] for z in flat}) == 1:
        lo, hi = (min(z[0][i] for z in flat) for i in (0, 1)), (max(z[1][i] for z in flat) for i in (0, 1))
        (a, b), (c, d) = cell = tuple(lo), tuple(hi)
        if abs(c - a - 2 * (flat[0][1][0] - flat[0][0][0])) > 1e-9:
            return flat
        m, n = (a + c) / 2, (b + d) / 2
        off = max(abs(bilinear(s, cell, p) - s(p)) for p in ((m, n), (m, b), (m, d), (a, n), (c, n)))
        if abs(off - 0.001) < 1e-9:
            tie[0] = True
        if off < 0.001:
            return [cell]
    return flat

@facet(FACETS, pictures, 150, 1500)
def contours(case, ctx):
    """combinations of plane shapes have the sign they should, for points and arrays; the dual contour joins just those neighbouring cells between which the boundary passes, near the boundary, in closed chains"""
    (x, y), r, (a, b), q = case["c"], case["r"], case["c2"], case["r2"]
    kind = case["kind"]
    if kind == "saddle":  # near the middle of four cells, where they are made one
        x, y = ((2 * math.floor(t * 2 ** case["depth"] / 2) + 1) / 2 ** case["depth"] + (0.5 + t % 0.5) / 8 / 2 ** case["depth"] for t in (x, y))
    c1, c2 = dc.circle((x, y), r), dc.circle((a, b), q)
    d1, d2 = (lambda p: math.dist(p, (x, y)) - r), (lambda p: math.dist(p, (a, b)) - q)
    rect = lambda p: max(x - r - p[0], p[0] - x - q, y - q - p[1], p[1] - y - r)
    half = (lambda p: p[0] - x) if case["depth"] % 2 else (lambda p: y - p[1])
    saddle = lambda p: (p[0] - x) * (p[1] - y) - 0.04 / 4 ** case["depth"]
    s, f = {"circle": (c1, d1), "union": (dc.union(c1, c2), lambda p: min(d1(p), d2(p))), "substract": (dc.substract(c1, c2), lambda p: max(d1(p), -d2(p))), "inv": (dc.inv(c1), lambda p: -d1(p)),
            "saddle": (saddle, saddle), "rectangle": (dc.rectangle((x - r, y - q), (x + q, y + r)), rect), "halfplane": (dc.left(x) if case["depth"] % 2 else dc.upper(y), half)}[kind]
    ctx.label(kind)
    for p in case["pts"]:
        require(abs(s(tuple(p)) - f(p)) < 1e-9, "%s at %s is %s, not %s", kind, p, s(tuple(p)), f(p))
    grid = np.array(case["pts"]).T
    near(c1(grid), [d1(p) for p in case["pts"]], 1e-9, "circle at an array of points")
    depth = case["depth"]
    N = 2 ** depth
    h = 1 / N
    V = np.array([[f((i * h, j * h)) for j in range(N + 1)] for i in range(N + 1)])
    if np.abs(V).min() < 1e-9:
        return ctx.trivial()
    T = collapse2d(s, build_tree2d((0.0, 0.0), (1.0, 1.0), depth))
    ins = V < 0
    count = []
    dc.trav(T, lambda parent, leaf: count.append(leaf.data))
    mixed = sum(len({bool(ins[i + k, j + l]) for k in (0, 1) for l in (0, 1)}) == 2 for i in range(N) for j in range(N))
    border = []

    def walk(t):
        if isinstance(t, Leaf):
            border.append(t.data)
        elif isinstance(t, Root):
            for k in t.children:
                walk(k)
    walk(T)
    require(len(border) == mixed, "%s border cells, %s cells with corners on both sides", len(border), mixed)
    area = dc.foldTree(T, ((0.0, 0.0), (1.0, 1.0)), lambda q: 0.0, *[(lambda k: lambda c: k * (c[1][0] - c[0][0]) * (c[1][1] - c[0][1]))(k) for k in (1, 1, 1)])
    near(area, 1.0, 1e-12, "area of the cells")
    tops = []
    dc.trav(T, lambda p, t: tops.append(t), lambda p, t: True)
    require(len(tops) == len(T.children), "a filter accepting everything visits %s nodes of %s", len(tops), len(T.children))
    seen = []
    dc.trav(T, lambda p, t: seen.append(t), lambda p, t: isinstance(t, Full))
    require(all(isinstance(t, Full) for t in seen), "traversal ignored its filter")
    if case["merge"] or kind == "saddle":
        ctx.label("merged")
        M = dc.merge(s, T)
        E = dc.dc(s, M)
        ok = all(e[0] is not None and e[1] is not None for e in E)
        require(ok, "an edge without an end")
        cell, tie = ((0.2, 0.3), (0.2 + 1.5 * r, 0.3 + q)), [False]
        for p in case["pts"]:
            near(dc.interpolate(s, cell, tuple(p)), bilinear(s, cell, p), 1e-9 * (1 + 1 / r / q), "interpolation over a cell")
        want = merged(s, T, tie)
        if tie[0]:
            return
        border.clear()
        walk(M)
        require(sorted(border) == sorted(want), "merged cells %s, expected %s", sorted(border), sorted(want))
        if len(want) < mixed:
            ctx.label("larger")
        pairs = []
        for i in (0, 1):
            for m in want:
                for n in want:
                    if m[1][i] == n[0][i]:
                        lo, hi = max(m[0][1 - i], n[0][1 - i]), min(m[1][1 - i], n[1][1 - i])
                        if lo < hi and len({f((m[1][0], t) if i == 0 else (t, m[1][1])) < 0 for t in (lo, hi)}) == 2:
                            pairs.append(sorted(tuple(round(float(x), 9) for x in dc.feature(s, z)) for z in (m, n)))
        got = sorted(sorted((round(float(p[0]), 9), round(float(p[1]), 9)) for p in e) for e in E)
        require(got == sorted(pairs), "over merged cells %s edges, the boundary passes between %s pairs of cells", len(got), len(pairs))
        return
    E = dc.dc(s, T)
    want = {}
    for i in range(N):
        for j in range(N):
            if i + 1 < N and ins[i + 1, j] != ins[i + 1, j + 1]:
                want[(i, j), (i + 1, j)] = 1
            if j + 1 < N and ins[i, j + 1] != ins[i + 1, j + 1]:
                want[(i, j), (i, j + 1)] = 1
    require(len(E) == len(want), "%s edges, the boundary passes between %s pairs of cells", len(E), len(want))
    ends = {}
    for e in E:
        require(e[0] is not None and e[1] is not None, "an edge without an end")
        for p in e:
            k = (round(p[0], 9), round(p[1], 9))
            ends[k] = ends.get(k, 0) + 1
    feats = {}
    for u, v in want:
        for c in (u, v):
            if c not in feats:
                feats[c] = dc.feature(s, ((c[0] * h, c[1] * h), ((c[0] + 1) * h, (c[1] + 1) * h)))
    got = sorted(sorted((round(p[0], 9), round(p[1], 9)) for p in e) for e in E)
    exp = sorted(sorted((round(feats[c][0], 9), round(feats[c][1], 9)) for c in pair) for pair in want)
    require(got == exp, "the edges join other cells than those the boundary passes between")
    if kind in ("circle", "inv") and h < r / 3:
        ctx.label("closed")
        require(all(v == 2 for v in ends.values()), "the contour of a circle is not closed")
        for k in ends:
            require(abs(d1(k)) < h * h / r + 2 * h / 1000, "vertex %s is %s off the circle", k, d1(k))
    if kind == "halfplane":
        for k in ends:
            require(abs(f(k)) < 2 * h / 1000, "vertex %s is %s off the line", k, f(k))

@st.composite
def circles(draw):
    return {"o": draw(st.lists(r3(-3, 3), min_size=2, max_size=2)), "r": draw(r3(0.2, 3)), "a": draw(st.floats(0, 6.28)), "d": draw(st.one_of(r3(0.1, 5), st.just("out"), st.just("in"))), "q": draw(r3(0.2, 3)), "t": draw(st.floats(0, 6.28)), "far": draw(r3(1.02, 4)), "z": draw(st.booleans())}

@facet(FACETS, circles, 300, 5000)
def plane_circles(case, ctx):
    """circles meet at the points on both or raise when apart, touching included; the closest point lies on the ray from the centre, with its parameter; tangents from a point touch the circle at right angles"""
    o, r, q, a = np.array(case["o"]), case["r"], case["q"], case["a"]
    c = mc.Circle2D(o, r)
    t = case["t"]
    near(c.evaluate(t), o + r * np.array([math.cos(t), math.sin(t)]), 1e-9, "point of the circle")
    w = np.array([math.cos(t), math.sin(t)])
    p = o + w * r * case["far"]
    near(c.implicit(p), r * (case["far"] - 1), 1e-9, "distance from the circle")
    near(c.gradient(p), w, 1e-9, "gradient")
    pt, par = c.point_on_curve(p)
    near(pt, o + r * w, 1e-9, "closest point")
    near(c.evaluate(par), o + r * w, 1e-9, "point at the parameter of the closest point")
    near(c.evaluate(mc.closest_point_on_circle_2d(c, p)), o + r * w, 1e-9, "closest_point_on_circle_2d")
    T = mc.tangents_lines(c, p)
    require(np.shape(T) == (2, 3), "shape %s of the points of tangency", np.shape(T))
    for x in T:
        near(np.linalg.norm(x[:2] - o), r, 1e-9, "point of tangency off the circle")
        near((x[:2] - o) @ (x[:2] - p), 0, 1e-8, "the tangent is not at right angles to the radius")
    near(np.linalg.norm(T[0] - T[1]), 2 * r * math.sqrt(1 - 1 / case["far"] ** 2), 1e-8, "the two points of tangency")
    touch = isinstance(case["d"], str)
    d = {"out": r + q, "in": abs(r - q)}.get(case["d"], case["d"]) if touch else case["d"]
    other = mc.Circle2D(o + d * np.array([math.cos(a), math.sin(a)]), q)
    real = float(np.hypot(*(other.origin - o)))
    if touch:
        ctx.label("touching")
        if d < 0.05:
            return
    gap = min(r + q - real, real - abs(r - q))
    try:
        X = mc.circle_intersection2d(c, other)
    except ValueError:
        require(gap <= 1e-9, "circles that meet raise")
        ctx.label("apart")
        return
    require(gap > -1e-9, "circles apart meet at %s", X.tolist())
    require(np.shape(X) == (2, 3) and np.isfinite(X).all(), "intersections %s", X.tolist())
    ctx.label("meet")
    for x in X:
        # A touching point moves by the root of an error
        near(np.linalg.norm(x[:2] - o), r, 1e-6 if touch else 1e-8, "intersection off the first circle")
        near(np.linalg.norm(x[:2] - other.origin), q, 1e-6 if touch else 1e-8, "intersection off the second circle")
        near(x[2], 0, 0, "height of an intersection of plane circles")
    if not touch and gap > 1e-3:
        require(np.linalg.norm(X[0] - X[1]) > 1e-4, "one intersection twice")

@st.composite
def boxes(draw):
    lo = draw(st.lists(st.integers(-8, 8), min_size=3, max_size=3))
    size = draw(st.lists(st.integers(1, 12), min_size=3, max_size=3))
    return {"lo": lo, "size": size, "target": draw(st.lists(st.sampled_from([1.0, 2.0, 3.0, 6.0, 20.0]), min_size=3, max_size=3)), "pts": [draw(st.lists(st.floats(0, 1), min_size=3, max_size=3)) for _ in range(5)]}

@facet(FACETS, boxes, 120, 1200)
def octrees(case, ctx):
    """an octree parts its box into cells no larger than asked for in each direction, and finds the cell around a point"""
    lo = [float(x) for x in case["lo"]]
    hi = [x + s for x, s in zip(lo, case["size"])]
    head = oc.OCNode([lo, hi])
    oc.create_octree(head, case["target"])
    leaf = []

    def walk(n):
        if n.child:
            for k in n.child:
                require(k.parent is n and k.in_bbox((n.min, n.max)) and n.contains_bbox((k.min, k.max)) and [k.min, k.max] in n, "child %s outside %s", k, n)
                walk(k)
        else:
            leaf.append(n)
    walk(head)
    if len(leaf) == 1:
        ctx.trivial()
    ctx.label("leaves %d" % (10 ** len(str(len(leaf)))))
    near(sum(np.prod(np.array(n.max) - np.array(n.min)) for n in leaf), np.prod(case["size"]), 1e-6 * np.prod(case["size"]), "volume of the leaves")
    for n in leaf:
        require(all(b - a <= t + 1e-3 for a, b, t in zip(n.min, n.max, case["target"])), "leaf %s larger than %s", n, case["target"])
    for p in case["pts"]:
        x = tuple(float(a + (b - a) * f) for a, b, f in zip(lo, hi, p))
        n = oc.closest_node(head, x)
        require(n is not None and not n.child and n.contains_point(x) and x in n, "node for %s is %s", x, n)
        out = (hi[0] + 1.0, x[1], x[2])
        require(oc.closest_node(head, out) is None and out not in head, "a point outside is found")
    a, b = leaf[0], leaf[-1]
    meet = all(p <= s and q <= r for p, q, r, s in zip(a.min, b.min, a.max, b.max))
    require(a.overlap((b.min, b.max)) == meet, "overlap of %s and %s", a, b)

@st.composite
def blocks(draw):
    c = draw(shapes(3))
    lo = draw(st.lists(r3(-3, 1), min_size=3, max_size=3))
    c["box"] = [lo, [round(a + s, 3) for a, s in zip(lo, draw(st.lists(r3(0.5, 4), min_size=3, max_size=3)))]]
    c["kind"] = draw(st.sampled_from(["shape", "shape", "half", "plate"]))
    c["at"] = [draw(st.integers(0, 2)), draw(r3(0.02, 0.98))]
    return c

@facet(FACETS, blocks, 60, 700)
def blocks_of_cells(case, ctx):
    """a tree over a box, collapsed by a shape: its cells lie where their place in the tree says and tile the box, full and empty ones have all corners inside and outside, border ones some of each, and eight alike are one"""
    lo, hi = (tuple(float(x) for x in p) for p in case["box"])
    depth, (ax, fr) = case["depth"], case["at"]
    wall = lo[ax] + fr * (hi[ax] - lo[ax])
    s = build(case["tree"], 3)
    f = {"shape": lambda p: float(s.implicit(np.array(p, float))), "half": lambda p: float(p[ax] - wall), "plate": lambda p: float(abs(p[ax] - wall) - 0.3)}[case["kind"]]
    N = 2 ** depth
    axis = []
    for a, b in zip(lo, hi):  # halved over and over, as the tree does
        g = [a, b]
        for _ in range(depth):
            g = [x for p, q in zip(g, g[1:]) for x in (p, (p + q) / 2)] + [b]
        axis.append(g)
    V = np.array([[[f((x, y, z)) for z in axis[2]] for y in axis[1]] for x in axis[0]])
    if np.abs(V).min() < 1e-9:
        return ctx.trivial()
    ins = V < 0
    ctx.label(case["kind"])
    T = t3.collapse3d(f, t3.build_tree3d(lo, hi, depth))
    found = []

    def walk(t, i, j, k, n):
        """n finest cells to a side from cell i, j, k on"""
        kinds = set()
        sub = ins[i:i + n + 1, j:j + n + 1, k:k + n + 1]
        if isinstance(t, t3.Root):
            require(n > 1, "a node below the depth asked for")
            m = n // 2
            kinds = {walk(c, i + m * (q & 1), j + m * (q >> 1 & 1), k + m * (q >> 2), m) for q, c in enumerate((t.a, t.b, t.c, t.d, t.e, t.f, t.g, t.h))}
            require(kinds != {"full"} and kinds != {"empty"}, "eight cells all %s left apart", kinds)
            return "root"
        if isinstance(t, t3.Leaf):
            require(n == 1, "a border cell %s times as large as the finest", n)
            want = tuple(tuple(axis[a][(i, j, k)[a] + e] for a in range(3)) for e in (0, 1))
            near(np.array(t.data), np.array(want), 1e-12, "a border cell")
            require(sub.any() and not sub.all(), "a border cell with all corners on one side")
            found.append(1)
            return "leaf"
        require(isinstance(t, (t3.Full, t3.Empty)), "a cell is %s", t)
        full = isinstance(t, t3.Full)
        require(sub.all() if full else not sub.any(), "a %s cell with corners on the other side", "full" if full else "empty")
        found.append(0)
        return "full" if full else "empty"
    walk(T, 0, 0, 0, N)
    if not sum(found):
        ctx.trivial()
