"""Triangle x segment intersection."""
from fractions import Fraction as Q

import numpy as np

from hypothesis import strategies as st
from mmcore.numeric.algorithms import moller as M

from ..core import facet, require
from .c21 import near

FACETS = []
RULE = "Triangles and segments on a small integer grid, so that vertices, edges, end points and the plane of the triangle are often hit exactly, some mapped to general position; trivial when the segment lies in the triangle's plane."
ASSUMPTIONS = ["off the grid, cases within 1e-6 of a change of the answer are left out", "a segment in the plane of the triangle, and a degenerate triangle, is reported as no intersection"]

def g():
    return st.lists(st.integers(-4, 4), min_size=3, max_size=3)

@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    tri = draw(st.lists(st.lists(g(), min_size=3, max_size=3), min_size=n, max_size=n))
    how = draw(st.integers(0, 4))
    s, e = draw(g()), draw(g())
    if how:  # through a point of the first triangle
        w = draw(st.sampled_from([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 2, 2), (3, 0, 1), (1, 1, 2), (2, 1, 1), (1, 2, 5), (-1, 2, 3), (2, 2, -1)]))
        k = sum(w)
        p = [sum(a * v[i] for a, v in zip(w, tri[0])) for i in range(3)]  # k times the point
        a, b = draw(st.sampled_from([(1, 1), (0, 1), (1, 0), (2, -1), (1, 3), (-1, 3)]))
        s = [Q(p[i], k) - a * e[i] for i in range(3)]
        e = [Q(p[i], k) + b * e[i] for i in range(3)]
    return {"tri": tri, "s": [str(x) for x in s], "e": [str(x) for x in e], "map": draw(st.sampled_from([None, None, 0.37, 1.9])), "move": draw(st.integers(0, 3))}

def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

def dot(a, b):
    return sum(x * y for x, y in zip(a, b))

def sub(a, b):
    return [x - y for x, y in zip(a, b)]

def exact(t, s, e):
    """-> None when parallel, else (barycentric coordinates, segment parameter)"""
    d, e1, e2 = sub(e, s), sub(t[1], t[0]), sub(t[2], t[0])
    h = cross(d, e2)
    a = dot(e1, h)
    if a == 0:
        return None
    w = sub(s, t[0])
    q = cross(w, e1)
    u, v = Q(dot(w, h)) / a, Q(dot(d, q)) / a
    return [1 - u - v, u, v], Q(dot(e2, q)) / a

@facet(FACETS, cases, 1500, 25000)
def meets(case, ctx):
    """a segment meets a triangle exactly when it does, ends, edges and vertices included, at the exact point, with the right classification; many triangles at once or in parallel give the same"""
    tri = [[[Q(x) for x in v] for v in t] for t in case["tri"]]
    s, e = [Q(x) for x in case["s"]], [Q(x) for x in case["e"]]
    want = [exact(t, s, e) for t in tri]
    rough = case["map"] is not None or any(x.denominator & (x.denominator - 1) for x in s + e)
    L = np.eye(3)
    o = np.zeros(3)
    if case["map"] is not None:
        c = case["map"]
        L = np.array([[c, -0.3, 0.2], [0.1, c, 0.7], [-0.4, 0.15, c]])
        o = np.array([0.3, -1.7, 2.2]) * case["move"]
    f = lambda p: L @ np.array([float(x) for x in p]) + o
    T = np.array([[f(v) for v in t] for t in tri])
    V0, V1, V2 = (np.ascontiguousarray(T[:, i]) for i in range(3))
    S, E = f(s), f(e)
    n = len(tri)
    outs, flags = np.full((n, 3), 9.5), np.full(n, 77, np.intc)
    M.intersect_triangles_segment(V0, V1, V2, S, E, outs, flags)
    pouts, pflags = np.full((n, 3), 9.5), np.full(n, 77, np.intc)
    M.intersect_triangles_segment_parallel(V0, V1, V2, S, E, pouts, pflags)
    require((flags == pflags).all() and (outs == pouts).all(), "many triangles at once: %s %s, in parallel: %s %s", flags.tolist(), outs.tolist(), pflags.tolist(), pouts.tolist())
    hits, vague, flat = [], False, 0
    for i, (w, t) in enumerate(zip(want, tri)):
        out = np.full(3, 9.5)
        got = M.intersect_triangle_segment(V0[i], V1[i], V2[i], S, E, out)
        require(bool(got) == bool(flags[i]), "triangle %d: alone %s, among many %s", i, got, flags[i])
        if w is None:
            flat += 1
            if rough:
                vague = True
                continue
            require(not got, "a segment parallel to the triangle %s is reported to meet it at %s", T[i].tolist(), out.tolist())
            continue
        b, x = w
        clear = min([abs(y) for y in b] + [abs(x), abs(1 - x)])
        inside = min(b) >= 0 and 0 <= x <= 1
        ctx.label("meet" if inside else "miss")
        if inside or clear > Q(1, 10 ** 6) or not rough:
            require(bool(got) == inside, "the segment %s %s and the triangle %s: %s, at barycentric coordinates %s and parameter %s", S.tolist(), E.tolist(), T[i].tolist(), "no intersection is reported" if inside else "an intersection is reported", [float(y) for y in b], float(x))
        else:
            vague = True
        if inside:
            p = f([a + x * (c - a) for a, c in zip(s, e)])
            near(out, p, 1e-9, "the intersection of a triangle and a segment")
            near(outs[i], p, 1e-9, "the intersection of triangle %d among many and a segment", i)
            kind = {0: 1, 1: 3, 2: 2}[sum(y == 0 for y in b)]
            require(flags[i] == kind, "an intersection %s is classified as %d", {1: "inside", 2: "at a vertex", 3: "on an edge"}[kind], flags[i])
            hits.append((i, p))
        elif not got:
            require((outs[i] == 9.5).all() and (out == 9.5).all(), "a triangle that is missed has its result overwritten")
    if flat == n:
        ctx.trivial()
    out = np.full(3, 9.5)
    r, flag = M.intersect_triangles_segment_one(V0, V1, V2, S, E, out)
    if not vague:
        require((r is not None) == bool(hits) and bool(flag) == bool(hits), "%d of the triangles are met, the first is %s", len(hits), None if r is None else np.array(r).tolist())
        if hits:
            near(r, hits[0][1], 1e-9, "the intersection with the first triangle that is met")
