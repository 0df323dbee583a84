"""Convex hull overlap and separability tests."""
import numpy as np
from scipy.optimize import linprog

from hypothesis import strategies as st
from mmcore.numeric.algorithms.cygjk import gjk
from mmcore.numeric.intersection.separability.spatial import spatial_separability
from mmcore.numeric.intersection.separability.spherical import separating_circles_test, spherical_bounding_box_test, spherical_separability

from .. import gen
from ..core import facet, require

FACETS = []
RULE = "Point sets: clouds, grids, and the control nets of curve and surface pieces that are curved a lot, little or not at all, moved on to each other, at scales from 0.01 to 100; trivial when the boxes are far apart."
ASSUMPTIONS = ["hulls that touch, or whose distance is below 1e-4 of their size, are not judged (a linear program with margin decides); neither are hulls that only a shift by 1e-6 of their size parts, unless all coordinates are small integers",
               "directions are separated, or clearly not separated, by a linear program with margin"]

@st.composite
def piece(draw):
    kind = draw(st.integers(0, 3))
    c = st.integers(-1000, 1000).map(lambda i: i / 1000.0)
    v = lambda: np.array([draw(c) for _ in range(3)])
    if kind == 0:
        return [(3 * v()).tolist() for _ in range(draw(st.integers(2, 12)))]
    if kind == 1:
        return [[float(draw(st.integers(-3, 3))) for _ in range(3)] for _ in range(draw(st.integers(2, 12)))]
    a, b, d = v(), v(), v()
    t = draw(st.sampled_from([1e-1, 1e-2, 1e-3, 0]))
    if kind == 2:
        return [(x * a + t * (x * x * b + x ** 3 * d)).tolist() for x in np.linspace(-1, 1, draw(st.integers(2, 5)))]
    return [(x * a + y * b + t * (x * x * d + x * y * a)).tolist() for x in np.linspace(-1, 1, draw(st.integers(2, 5))) for y in np.linspace(-1, 1, draw(st.integers(2, 5)))]

@st.composite
def pairs(draw):
    a, b = draw(piece()), draw(piece())
    A, B = np.array(a), np.array(b)
    if draw(st.integers(0, 9)) < 8:
        off = A[draw(st.integers(0, len(A) - 1))] * draw(st.integers(0, 100)) / 100 + A.mean(axis=0) * 0.2 - B.mean(axis=0)
        b = (B + off * draw(st.sampled_from([0.5, 1, 1.1, 1.5, 2.0]))).tolist()
    return {"a": a, "b": b, "scale": draw(st.sampled_from([1.0, 1.0, 100.0, 0.1, 0.01])), "move": draw(st.sampled_from([0.0, 1.0, -7.0]))}

def gap(a, b):
    """The widest slab (infinity-norm normal) between the hulls."""
    A = [[-x, -y, -z, 1, 1] for x, y, z in a] + [[x, y, z, -1, 1] for x, y, z in b]
    r = linprog([0, 0, 0, 0, -1], A_ub=A, b_ub=np.zeros(len(A)), bounds=[(-1, 1)] * 3 + [(None, None), (0, None)], method="highs")
    return r.x[-1] if r.status == 0 else None

def shrunk(a):
    m = a.mean(axis=0)
    return m + (a - m) * 0.995

@facet(FACETS, pairs, 700, 12000)
def overlap(case, ctx):
    """hulls that overlap are reported to overlap, and never to be separable; hulls with a gap are reported apart; the order does not matter"""
    a, b = np.array(case["a"]), np.array(case["b"])
    s = gap(a, b)
    if s is None:
        ctx.trivial()
        return
    size = max(np.ptp(a, axis=0).max(), np.ptp(b, axis=0).max(), 1e-3)
    state = "gap" if s > 1e-4 * size else "meet" if s == 0 or s < 1e-12 else "near"
    if state == "meet" and (gap(shrunk(a), shrunk(b)) or 0) > 1e-9:
        state = "touch"
    if state == "meet" and not (case["scale"] == 1 and (a == np.round(a)).all() and (b == np.round(b)).all()):
        for i in range(3):
            for d in (-1e-6, 1e-6):
                if gap(a + d * size * np.eye(3)[i], b):
                    state = "touch"
    ctx.label(state)
    if state in ("near", "touch"):
        ctx.trivial()
        return
    k, m = case["scale"], case["move"]
    A, B = a * k + m, b * k + m
    A0, B0 = A.copy(), B.copy()
    if s > 1 * size:
        ctx.trivial()
    for x, y in ((A, B), (B, A)):
        for tol in (1e-6, 1e-8):
            r = gjk(x, y, tol)
            require(bool(r) == (state == "meet"), "the hulls %s, but gjk with tolerance %g says %s", "overlap" if state == "meet" else "are apart", tol, bool(r))
        r = spatial_separability(x, y)
        require(bool(r) == (state == "gap"), "the hulls %s, but spatial_separability says %s", "overlap" if state == "meet" else "are apart", bool(r))
    require((A == A0).all() and (B == B0).all(), "the points handed in were changed")

@st.composite
def around(draw):
    """Two sets of points around a common point."""
    c = st.integers(-1000, 1000).map(lambda i: i / 1000.0)
    v = lambda: np.array([draw(c) for _ in range(3)])
    o, out = 3 * v(), []
    for _ in range(2):
        m, w = v(), draw(st.sampled_from([0.1, 0.4, 1.0]))
        pts = []
        for _ in range(draw(st.integers(1, 8))):
            d = m + w * v()
            if np.linalg.norm(d) > 0.05:
                pts.append((o + d).tolist())
        out.append(pts or [(o + [1.0, 0, 0]).tolist()])
    return {"o": o.tolist(), "a": out[0], "b": out[1], "with": draw(st.booleans())}

@facet(FACETS, around, 700, 12000)
def directions(case, ctx):
    """two point sets seen from a point are separable exactly when a plane through it has them on different sides; the box test never separates what is not separable"""
    a, b, o = np.array(case["a"]), np.array(case["b"]), np.array(case["o"])
    x, y = a - o, b - o
    D = np.r_[x / np.linalg.norm(x, axis=1)[:, None], -y / np.linalg.norm(y, axis=1)[:, None]]
    r = linprog([0, 0, 0, -1], A_ub=np.c_[-D, np.ones(len(D))], b_ub=np.zeros(len(D)), bounds=[(-1, 1)] * 3 + [(None, None)], method="highs")
    margin = r.x[-1]
    n = len(D)
    if margin > 1e-3:
        ctx.label("separable")
        want = True
    else:
        # the origin well inside the hull of the directions
        q = linprog([*[0] * n, -1], A_ub=np.c_[-np.eye(n), np.ones(n)], b_ub=np.zeros(n), A_eq=np.r_[np.c_[D.T, np.zeros(3)], [[*[1] * n, 0]]], b_eq=[0, 0, 0, 1], bounds=[(0, None)] * n + [(0, None)], method="highs")
        if q.status != 0 or q.x[-1] < 1e-3 or np.linalg.svd(D)[1][-1] < 0.05:
            ctx.label("unclear")
            ctx.trivial()
            return
        ctx.label("mixed")
        want = False
    if case["with"]:
        a, b = np.r_[a, [o]], np.r_[[o], b]
    for p, q in ((a, b), (b, a)):
        got = spherical_separability(p, q, o)
        require(bool(got) == want, "a plane through the point %s, but spherical_separability says %s", "separates the sets" if want else "cannot separate the sets", bool(got))
    a, b = np.array(case["a"]), np.array(case["b"])
    require(bool(separating_circles_test(a, b, o)) == want, "separating_circles_test says %s", not want)
    if not want:
        require(not spherical_bounding_box_test(a, b, o), "spherical_bounding_box_test separates sets that no plane separates")
