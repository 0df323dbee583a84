"""Boundary intersections of two surfaces."""
import numpy as np

from hypothesis import strategies as st
from mmcore.numeric.intersection.ssx.boundary_intersection import (extract_surface_boundaries, find_boundary_intersections, sort_boundary_intersections)

from .. import gen, geo
from ..core import facet, require
from ..mm import mk_surf
from .c15 import height_surface, touching, degenerate, TOL

FACETS = []
RULE = "Two NURBS surfaces that are graphs of rough height fields over coordinate planes, one of them shifted; trivial when no border of one clearly pierces the other."
ASSUMPTIONS = ["a border crossing must be reported when the border meets the other surface at an angle of at least 0.15 rad, away from the borders of both domains",
               "pairs in which a border touches the other surface (below 0.05 rad) are left out: every piece near the contact is searched there"]

@st.composite
def two(draw):
    a, b = draw(height_surface(flat=draw(st.integers(0, 3)) == 0)), draw(height_surface(flat=draw(st.integers(0, 3)) == 0))
    m = st.integers(-3000, 3000).map(lambda i: i / 1000.0)
    move = [draw(m) for _ in range(3)]
    b = dict(b, points=[[[x + d for x, d in zip(p, move)] for p in r] for r in b["points"]])
    return {"a": a, "b": b}

def borders(S):
    return [geo.Iso(S, float(S.lo[0]), 0), geo.Iso(S, float(S.hi[0]), 0), geo.Iso(S, float(S.lo[1]), 1), geo.Iso(S, float(S.hi[1]), 1)]

@facet(FACETS, height_surface, 300, 4000)
def edges(case, ctx):
    """the four borders of a surface are the curves u = min, u = max, v = min and v = max, in this order, each over the surface's own parameters"""
    S = geo.Surf(case)
    got = extract_surface_boundaries(mk_surf(case))
    require(len(got) == 4, "%d borders", len(got))
    for i, (g, w) in enumerate(zip(got, borders(S))):
        a, b = g.interval()
        require(abs(a - w.a) <= 1e-12 and abs(b - w.b) <= 1e-12, "border %d is over [%r, %r], the surface over [%r, %r]", i, a, b, w.a, w.b)
        t = w.grid(5)
        have, want = np.array([g.evaluate(float(x)) for x in t]), w(t)
        require(np.abs(have - want).max() <= 1e-8, "border %d at %r is %s, the surface's border %s", i, float(t[np.abs(have - want).max(axis=1).argmax()]),
                have[np.abs(have - want).max(axis=1).argmax()].tolist(), want[np.abs(have - want).max(axis=1).argmax()].tolist())

@facet(FACETS, two, 110, 1800)
def pierced(case, ctx):
    """every point reported lies on both surfaces, on the stated border, at the stated parameters; every clear border crossing is reported, once"""
    A, B = geo.Surf(case["a"]), geo.Surf(case["b"])
    must, skip = [], False
    for first, (X, Y) in ((True, (A, B)), (False, (B, A))):
        for i, C in enumerate(borders(X)):
            if degenerate(C) or touching(C, Y):
                skip = True
                break
            for t, u, v, w in geo.curve_surface(C, Y):
                if w < 0.05:
                    skip = True
                if w > 0.15 and C.a + 0.003 < t < C.b - 0.003 and Y.lo[0] + 0.003 < u < Y.hi[0] - 0.003 and Y.lo[1] + 0.003 < v < Y.hi[1] - 0.003:
                    must.append((first, i, t, u, v, C(t)[0]))
    if skip:
        ctx.label("skipped-tangential")
        ctx.trivial()
        return
    res = find_boundary_intersections(mk_surf(case["a"]), mk_surf(case["b"]), TOL)
    ctx.label("points%d" % min(len(must), 4))
    if not must:
        ctx.trivial()
    for r in res:
        p1, p2 = r.get_start_params()
        require(np.array_equal(p1, r.surface1_params) and np.array_equal(p2, r.surface2_params), "start parameters %s %s differ from the stored %s %s", p1, p2, r.surface1_params, r.surface2_params)
        for S, p, n in ((A, p1, "first"), (B, p2, "second")):
            require((S.lo <= p).all() and (p <= S.hi).all(), "parameters %s are outside of the %s surface's domain", p.tolist(), n)
            q = S(p[0], p[1])[0]
            require(np.linalg.norm(q - np.asarray(r.point)) <= 2 * TOL, "the point reported is %s, the %s surface's point at %s is %s", np.asarray(r.point).tolist(), n, p.tolist(), q.tolist())
        X, p, o = (A, p1, r.surface2_params) if r.is_from_first_surface else (B, p2, r.surface1_params)
        k = r.boundary_index
        require(0 <= k < 4 and p[k // 2] == (X.lo, X.hi)[k % 2][k // 2] and p[1 - k // 2] == r.curve_param, "border %r at parameter %r is given parameters %s", k, r.curve_param, p.tolist())
        require(tuple(r.surface_params) == tuple(o), "surface_params %s is not the point of the other surface %s", r.surface_params, o)
    for i in range(len(res)):
        for j in range(i):
            require(np.linalg.norm(np.asarray(res[i].point) - np.asarray(res[j].point)) >= TOL * 0.5, "the point %s is reported twice", np.asarray(res[i].point).tolist())
    for first, i, t, u, v, p in must:
        require(any(np.linalg.norm(np.asarray(r.point) - p) <= 20 * TOL for r in res), "border %d of the %s surface pierces the other at %s (parameter %r, other surface %s), which is not reported: %s",
                i, "first" if first else "second", p.tolist(), t, (u, v), [np.asarray(r.point).tolist() for r in res])
    seqs = sort_boundary_intersections(res)
    flat = [id(r) for s in seqs for r in s]
    require(sorted(flat) == sorted(id(r) for r in res), "sorting into curves loses or repeats points: %d of %d", len(flat), len(res))
    require(all(len(s) == 2 for s in seqs[:-1]) and (not seqs or 1 <= len(seqs[-1]) <= 2), "sorting into curves gives groups of %s", [len(s) for s in seqs])
