"""Sweep line segment intersection against exact arithmetic."""
import random
from fractions import Fraction as F

from hypothesis import strategies as st
from mmcore.numeric.algorithms.sweep_line.sweep_intersector import find_intersection, polygon_segments

from ..core import facet, require

FACETS = []
RULE = "Sets of segments on small integer grids (several through one point, ends on segments, common ends, vertical and horizontal ones) and with real ends; trivial when nothing meets."
ASSUMPTIONS = ["no two segments overlap along a stretch, and none is a point; distinct intersection points, ends included, are further apart than 1e-4 and no end is nearer than that to a segment it is not on: "
               "points nearer than 1e-10 are merged by the sweep", "coordinates are at most 1e3"]

def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

def overlap(p, q):
    if cross(p[0], p[1], q[0]) or cross(p[0], p[1], q[1]):
        return False
    p, q = sorted(p), sorted(q)
    return max(p[0], q[0]) < min(p[1], q[1])

@st.composite
def segments(draw):
    k = draw(st.sampled_from([3, 6, 12, 40, 0]))
    c = st.integers(0, k) if k else st.integers(0, 10 ** 6).map(lambda i: i / 1024)
    p = st.tuples(c, c)
    n = draw(st.integers(4, 16))
    out = []
    shape = draw(st.integers(0, 3))
    if shape == 0:
        ring = draw(st.lists(p, min_size=3, max_size=n + 2, unique=True))
        cand = list(polygon_segments(ring))
    elif shape == 1:
        m = draw(p)  # a star
        cand = [(m, draw(p)) for _ in range(n)]
    else:
        cand = [(draw(p), draw(p)) for _ in range(n)]
    for a, b in cand:
        if a != b and not any(overlap((a, b), s) for s in out):
            out.append((a, b))
    return {"s": [[list(map(float, a)), list(map(float, b))] for a, b in out], "seed": draw(st.integers(0, 10 ** 6)), "move": draw(st.sampled_from([0, 0, -500, 0.5])), "as": draw(st.integers(0, 1))}

def exact(segs):
    """{index: {points strictly inside that are on another segment}}"""
    q = [tuple(tuple(map(F, p)) for p in s) for s in segs]
    out, others = {}, []
    for i, (a, b) in enumerate(q):
        for j, (c, d) in enumerate(q):
            if i == j:
                continue
            den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
            if den == 0:
                continue
            t = ((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / den
            u = ((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])) / den
            if 0 < t < 1 and 0 <= u <= 1:
                out.setdefault(i, set()).add((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
    return out

def decided(segs, found):
    """no two points of interest, and no end and segment, are nearly but not quite together"""
    pts = {tuple(map(F, p)) for s in segs for p in s}
    for s in found.values():
        pts |= s
    fl = sorted((float(x), float(y)) for x, y in pts)
    for i, p in enumerate(fl):
        for q in fl[i + 1:]:
            if q[0] - p[0] > 1e-4:
                break
            if abs(q[1] - p[1]) < 1e-4:
                return False
    for s in segs:
        (ax, ay), (bx, by) = s
        l2 = (bx - ax) ** 2 + (by - ay) ** 2
        if l2 < 1e-6:
            return False
        for x, y in fl:
            t = min(1, max(0, ((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / l2))
            d = ((ax + t * (bx - ax) - x) ** 2 + (ay + t * (by - ay) - y) ** 2) ** 0.5
            if 1e-9 < d < 1e-4:
                return False
    return True

@facet(FACETS, segments, 1400, 20000)
def sweep(case, ctx):
    """each segment is given exactly the points strictly inside it where it meets another one, crossings, touching ends and points common to many alike, in order from its start; segments that meet nothing inside are left out"""
    segs = [tuple(tuple(float(x) + case["move"] for x in p) for p in s) for s in case["s"]]
    if len(segs) < 1:
        ctx.trivial()
        return
    want = exact(segs)
    if not want:
        ctx.trivial()
    if not decided(segs, want):
        ctx.label("undecided")
        ctx.trivial()
        return
    many = [p for s in want.values() for p in s]
    ctx.label("multiple" if any(many.count(p) > 2 for p in many) else "pairs", "vertical" if any(a[0] == b[0] for a, b in segs) else "sloped")
    random.seed(case["seed"])
    got = find_intersection(tuple(segs) if case["as"] == 0 else [[list(a), list(b)] for a, b in segs])
    require(set(got) == {segs[i] for i in want}, "%s meet other segments inside, and should be %s", sorted(got), sorted(segs[i] for i in want))
    for i, pts in want.items():
        a, b = segs[i]
        line = sorted(pts, key=lambda p: (p[0] - F(a[0])) * F(b[0] - a[0]) + (p[1] - F(a[1])) * F(b[1] - a[1]))
        g = got[segs[i]]
        ok = len(g) == len(line) and all(abs(float(x) - u) < 1e-7 and abs(float(y) - v) < 1e-7 for (x, y), (u, v) in zip(line, g))
        require(ok, "%s meets others at %s, and should at %s", segs[i], g, [(float(x), float(y)) for x, y in line])
