"""Plane polygons against exact arithmetic."""
from fractions import Fraction as F
import contextlib, io
import numpy as np
from hypothesis import strategies as st
from mmcore.geom import polygon as pg

from ..core import facet, require

FACETS = []
RULE = "Polygons with dyadic corners (small grids, so that corners line up with points asked about), star-shaped, convex and comb-like, of either orientation; trivial for triangles."
ASSUMPTIONS = ["polygons are simple; points asked about are not on the boundary; for set operations no corner of one polygon lies on the other"]

def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

def area2(p):
    return sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p)))

def on_edge(a, b, q):
    return cross(a, b, q) == 0 and min(a[0], b[0]) <= q[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= q[1] <= max(a[1], b[1])

def inside(p, q):
    """None on the boundary, else by the even-odd rule, exactly"""
    odd = False
    for a, b in zip(p, p[1:] + p[:1]):
        if on_edge(a, b, q):
            return None
        if (a[1] > q[1]) != (b[1] > q[1]):
            odd ^= (cross(a, b, q) > 0) == (b[1] > a[1])
    return odd

def simple(p):
    n = len(p)
    if n < 3 or area2(p) == 0:
        return False
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        if a == b or on_edge(a, b, p[(i + 2) % n]) or on_edge(b, p[(i + 2) % n], a):
            return False
        for j in range(i + 2, n):
            if (j + 1) % n == i:
                continue
            c, d = p[j], p[(j + 1) % n]
            if any([on_edge(a, b, c), on_edge(a, b, d), on_edge(c, d, a), on_edge(c, d, b)]) or meets(a, b, c, d):
                return False
    return True

def meets(a, b, c, d):
    return cross(a, b, c) * cross(a, b, d) < 0 and cross(c, d, a) * cross(c, d, b) < 0

def hull(pts):
    pts = sorted(set(map(tuple, pts)))
    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]
    return half(pts) + half(pts[::-1]) if len(pts) > 1 else pts

def ranked(pts):
    """star-shaped about the mean of the points, sorted by angle exactly"""
    n = len(pts)
    c = F(sum(p[0] for p in pts), n), F(sum(p[1] for p in pts), n)
    up, down = [], []
    for p in pts:
        d = p[0] - c[0], p[1] - c[1]
        if d == (0, 0):
            continue
        (up if d[1] > 0 or d[1] == 0 and d[0] > 0 else down).append((d, p))
    import functools
    key = functools.cmp_to_key(lambda a, b: -1 if a[0][0] * b[0][1] - a[0][1] * b[0][0] > 0 else 1 if a[0][0] * b[0][1] - a[0][1] * b[0][0] < 0 else 0)
    return [p for _, p in sorted(up, key=key) + sorted(down, key=key)]

@st.composite
def polygon(draw, convex=False, lim=8):
    """corners on a grid of integers, simple"""
    kind = "convex" if convex else draw(st.sampled_from(["convex", "star", "star", "comb", "rectilinear"]))
    c = st.integers(-lim, lim)
    for _ in range(8):
        if kind in ("convex", "star"):
            pts = [list(t) for t in draw(st.lists(st.tuples(c, c), min_size=3, max_size=10, unique=True))]
            p = ranked(pts) if kind == "star" else [list(t) for t in hull(pts)]
        else:
            # a base line and a profile over it
            xs = sorted(draw(st.sets(c, min_size=2, max_size=5)))
            ys = [draw(st.integers(1, lim)) for _ in xs]
            y0 = draw(st.integers(-lim, 0))
            if kind == "comb":
                p = [[xs[0], y0], [xs[-1], y0]] + [[x, y] for x, y in zip(xs[::-1], ys[::-1])]
            else:
                p = [[xs[0], y0], [xs[-1], y0]]
                for i in range(len(xs) - 1, 0, -1):
                    p += [[xs[i], ys[i]], [xs[i - 1], ys[i]]]
                p = [v for i, v in enumerate(p) if not on_edge(p[i - 1], p[(i + 1) % len(p)], v)]
            if draw(st.booleans()):
                p = [[y, x] for x, y in p][::-1]
        if simple(p):
            break
    else:
        p = [[0, 0], [lim, 0], [0, lim]]
    k = draw(st.integers(0, len(p) - 1))
    return p[k:] + p[:k]

SCALE = st.sampled_from([1, 1, 0.5, 1 / 1024, 32, 4096])

@st.composite
def with_points(draw):
    p = draw(polygon())
    if draw(st.booleans()):
        p = p[::-1]
    q = st.one_of(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), st.tuples(st.integers(-40, 40), st.integers(-40, 40)).map(lambda t: (t[0] / 4, t[1] / 4)),
                  st.tuples(st.sampled_from(p), st.integers(-36, 36)).map(lambda t: (t[0][0] + t[1] / 4, t[0][1])), st.tuples(st.sampled_from(p), st.integers(-36, 36)).map(lambda t: (t[0][0] + t[1] / 4, t[0][1] + t[1] / 4)))
    return {"p": p, "q": [list(t) for t in draw(st.lists(q, min_size=1, max_size=8))], "scale": draw(SCALE), "shift": [draw(st.integers(-100, 100)), draw(st.integers(-100, 100))], "closed": draw(st.booleans())}

def place(case, p):
    return [[x * case["scale"] + s for x, s in zip(v, case["shift"])] for v in p]

@facet(FACETS, with_points, 900, 12000)
def membership(case, ctx):
    """the point-in-polygon tests, one by one and by a hierarchy of edges, agree with the even-odd rule in exact arithmetic"""
    p = place(case, case["p"])
    # scaling by a power of two and a shift by an integer are exact here
    if len(p) < 4:
        ctx.trivial()
    ctx.label("closed" if case["closed"] else "open", "right-handed" if area2(case["p"]) > 0 else "left-handed")
    loop = p + [p[0]] if case["closed"] else p
    for q in case["q"]:
        want = inside(case["p"], q)
        x = place(case, [q])[0]
        if want is None:
            continue
        ctx.label("inside" if want else "outside", "level" if any(v[1] == q[1] for v in case["p"]) else "clear")
        require(bool(pg.is_point_in_polygon(tuple(x), [tuple(v) for v in loop])) == want, "is_point_in_polygon says %s of %s, polygon %s", not want, x, loop)
        require(bool(pg.is_point_in_polygon_bvh(loop, x)) == want, "is_point_in_polygon_bvh says %s of %s, polygon %s", not want, x, loop)
        require(bool(pg.point_in_polygon(np.array(loop, float), np.array(x, float))) == want, "point_in_polygon says %s of %s, polygon %s", not want, x, loop)

@facet(FACETS, with_points, 400, 5000)
def area(case, ctx):
    """areas are exact, whichever way round and from whichever corner the ring is given; nothing handed in changes"""
    p = place(case, case["p"])
    want = abs(area2([[F(x) for x in v] for v in p])) / 2
    arr = np.array(p, float)
    ring = pg.to_polygon_area(arr)
    if len(p) < 4:
        ctx.trivial()
    require(ring.tolist() == p + [p[0]] and arr.tolist() == p, "the ring of %s is %s", p, ring.tolist())
    tol = 1e-12 * (1 + max(abs(x) for v in p for x in v)) ** 2
    for what, got in [("polygon_area", pg.polygon_area(ring)), ("polygon_area without a cast", pg.polygon_area(ring, cast_to_numpy=False)), ("polygon_area of a list", pg.polygon_area(ring.tolist())),
                      ("polygon_area_vectorized", pg.polygon_area_vectorized(np.array([ring, ring[::-1]]))[1]), ("Polygon.area", pg.Polygon(p).area), ("PolygonCollection.area", pg.PolygonCollection([pg.Polygon(p), pg.Polygon(p[::-1])]).area / 2)]:
        require(abs(float(got) - float(want)) <= tol, "%s of %s is %s, not %s", what, p, got, want)
    require([list(v) for v in pg.Polygon(p).points] == p, "a polygon of %s has the points %s", p, pg.Polygon(p).points)

@st.composite
def two(draw, convex=False):
    la, lb = draw(st.sampled_from([(8, 8), (8, 8), (8, 2), (2, 8)]))
    a, b = draw(polygon(lim=la)), draw(polygon(convex=convex, lim=lb))
    sh = draw(st.sampled_from([0, 0, 0, 6])), draw(st.sampled_from([0, 0, 12]))
    # off the grid of the first polygon by an odd part of 16
    b = [[v[0] + sh[0] + draw(st.sampled_from([1, 3, 5, -7])) / 16, v[1] + sh[1] + draw(st.sampled_from([0, 1, 3, 5, -7])) / 16] for v in b]
    if convex:
        b = [list(v) for v in hull(b)]
    if not simple(b):
        b = [[-3.0625, -2.0625], [5.1875, -2.1875], [0.0625, 6.3125]]
    if draw(st.booleans()):
        a = a[::-1]
    if not convex and draw(st.booleans()):
        b = b[::-1]
    return {"a": a, "b": b, "scale": draw(SCALE), "shift": [draw(st.integers(-20, 20)), draw(st.integers(-20, 20))],
            "q": [list(t) for t in draw(st.lists(st.tuples(st.integers(-150, 230), st.integers(-150, 230)).map(lambda t: (t[0] / 16 + 1 / 64, t[1] / 16 + 1 / 64)), min_size=6, max_size=16))]}

def general(a, b):
    return not any(on_edge(p, q, v) for x, y in ((a, b), (b, a)) for v in x for p, q in zip(y, y[1:] + y[:1]))

def spread(case, a, b):
    """points to ask about: those drawn, and one close to every corner of either"""
    return case["q"] + [[x + dx, y + dy] for x, y in a + b for dx, dy in ((0.09375, 0.046875), (-0.09375, 0.078125))]

def clear(p, q, eps):
    """q is at least eps from every edge of p"""
    for a, b in zip(p, p[1:] + p[:1]):
        d = b[0] - a[0], b[1] - a[1]
        t = max(0., min(1., float((q[0] - a[0]) * d[0] + (q[1] - a[1]) * d[1]) / float(d[0] ** 2 + d[1] ** 2)))
        if (q[0] - a[0] - t * d[0]) ** 2 + (q[1] - a[1] - t * d[1]) ** 2 < eps * eps:
            return False
    return True

@facet(FACETS, two, 900, 12000)
def booleans(case, ctx):
    """union, intersection and difference of two simple polygons cover exactly the points they should, crossing, nested or apart; operators leave their operands alone"""
    a, b = case["a"], case["b"]
    if not general(a, b):
        ctx.trivial()
        return
    crossing = any(meets(p, q, r, s) for p, q in zip(a, a[1:] + a[:1]) for r, s in zip(b, b[1:] + b[:1]))
    ctx.label("crossing" if crossing else "a in b" if inside(b, a[0]) else "b in a" if inside(a, b[0]) else "apart")
    if len(a) < 4 and len(b) < 4:
        ctx.trivial()
    A, B = place(case, a), place(case, b)
    for op, f in [("union", lambda x, y: x or y), ("intersection", lambda x, y: x and y), ("difference", lambda x, y: x and not y)]:
        out = {}
        out["clip_polygon"] = pg.clip_polygon(A, B, op)
        if op != "intersection":
            pa, pb = pg.Polygon(A), pg.Polygon(B)
            out["operator"] = pa + pb if op == "union" else pa - pb
            require([list(v) for v in pa.points] == A and [list(v) for v in pb.points] == B, "%s changed its operands", op)
        if op == "difference":
            out["reversed-diff"] = pg.clip_polygon(B, A, "reversed-diff")
        for name, res in out.items():
            rings = [[[(x - s) / case["scale"] for x, s in zip(v, case["shift"])] for v in r.points] for r in res]
            for q in spread(case, a, b):
                if not (clear(a, q, 1e-6) and clear(b, q, 1e-6)):
                    continue
                want = bool(f(inside(a, q), inside(b, q)))
                got = sum(bool(inside(r, q)) for r in rings) % 2 == 1
                require(got == want, "the %s (%s) of %s and %s, %s, %s %s", op, name, a, b, rings, "misses" if want else "covers", q)

@facet(FACETS, lambda: two(convex=True), 500, 8000)
def clip(case, ctx):
    """clipping by a convex polygon keeps exactly the common points of a polygon and it, and none when they are apart"""
    a, b = case["a"], case["b"]
    if not general(a, b):
        ctx.trivial()
        return
    A, B = place(case, a), place(case, b)
    res = pg.clip(A, B)
    ring = [[(x - s) / case["scale"] for x, s in zip(v, case["shift"])] for v in res]
    ctx.label("nothing left" if not ring else "something left")
    require(A == place(case, a) and B == place(case, b), "clip changed its arguments")
    for q in spread(case, a, b):
        # a part cut in two stays joined along the boundary of the clip polygon
        if clear(a, q, 1e-6) and clear(b, q, 1e-6):
            want, got = inside(a, q) and inside(b, q), bool(ring) and bool(inside(ring, q))
            require(got == want, "%s clipped by %s is %s, which %s %s", a, b, ring, "misses" if want else "covers", q)

@st.composite
def segments(draw):
    c = st.integers(-5, 5)
    return {"s": [[draw(c), draw(c)] for _ in range(4)], "scale": draw(SCALE), "shift": [draw(c), draw(c)]}

@facet(FACETS, segments, 500, 8000)
def crossing(case, ctx):
    """two segments in general position are reported to intersect exactly when they cross"""
    a, b, c, d = case["s"]
    if any(cross(*t) == 0 for t in ((a, b, c), (a, b, d), (c, d, a), (c, d, b))):
        ctx.trivial()
        return
    A, B, C, D = (np.array(v, float) for v in place(case, case["s"]))
    ctx.label("cross" if meets(a, b, c, d) else "apart")
    require(bool(pg.intersects_segments(np.array([A, B]), np.array([C, D]))) == meets(a, b, c, d), "intersects_segments is wrong of %s", case["s"])

@st.composite
def clouds(draw):
    lim = draw(st.sampled_from([2, 5, 100]))
    c = st.integers(-lim, lim)
    return {"p": [list(t) for t in draw(st.lists(st.tuples(c, c), min_size=1, max_size=24))], "scale": draw(st.sampled_from([1, 1, 0.5, 1 / 64, 32])), "shift": [draw(c), draw(c)]}

@facet(FACETS, clouds, 600, 8000)
def convex_hull(case, ctx):
    """the hull of points on a grid, repeated and collinear ones included, is exactly their convex hull, in order round it"""
    p = place(case, case["p"])
    arr = np.array(p, float)
    got = [tuple(v) for v in pg.convex_hull2d(arr).tolist()]
    want = hull(p)
    require(arr.tolist() == p, "convex_hull2d changed its argument")
    if len(want) < 3:
        ctx.trivial()
        ctx.label("flat")
        return
    ctx.label("ties" if len(set(map(tuple, p))) < len(p) else "distinct")
    require(len(got) == len(want) and set(got) == set(want), "the hull of %s is %s, and should be %s", p, got, want)
    k = got.index(want[0])
    require(got[k:] + got[:k] == want, "the hull of %s is out of order: %s", p, got)
