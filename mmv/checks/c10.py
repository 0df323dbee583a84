"""C10: bounding boxes and box predicates."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st
from mmcore.numeric import aabb as A

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve, mk_surf
from ..strat import curve_samples, curve_ts, surf_labels, surf_uvs, curve_labels, extent

FACETS = []
RULE = ("Generated boxes on an integer grid (touching, nested, disjoint, degenerate), segments and rays aimed at and past boxes, curves and surfaces; a case is "
        "trivial when all points coincide.")
ASSUMPTIONS = ["Segment and ray tests are judged only when shrinking or growing the box by 1e-9 of the scale does not change the exact answer.",
               "Direction components are 0 or at least 1e-6."]


def grid():
    return st.integers(-4, 4).map(float)


def box(dim, c=None):
    c = c or grid()
    return st.lists(st.tuples(c, c).map(sorted), min_size=dim, max_size=dim).map(lambda l: [[x[0] for x in l], [x[1] for x in l]])


@st.composite
def boxes(draw):
    dim = draw(st.sampled_from([3, 3, 2]))
    c = draw(st.sampled_from([grid(), gen.coord()]))
    a, b = draw(box(dim, c)), draw(box(dim, c))
    if draw(st.integers(0, 3)) == 0:  # touching in one direction
        i = draw(st.integers(0, dim - 1))
        w = b[1][i] - b[0][i]
        b[0][i], b[1][i] = a[1][i], a[1][i] + w
    return {"a": a, "b": b}


@facet(FACETS, boxes, 2500, 40000)
def predicates(case, ctx):
    """Two boxes overlap, by every predicate, exactly when their ranges meet in every coordinate; the intersection is exact."""
    a, b = np.array(case["a"]), np.array(case["b"])
    dim = a.shape[1]
    want = all(a[0][i] <= b[1][i] and b[0][i] <= a[1][i] for i in range(dim))
    ctx.label("dim%d" % dim, "meet" if want else "apart")
    a0, b0 = a.copy(), b.copy()
    for x, y in ((a, b), (b, a)):
        require(bool(A.aabb_intersect(x, y)) == want, "aabb_intersect(%s, %s) is not %s", x.tolist(), y.tolist(), want)
        require(bool(A.aabb_overlap(x, y)) == want, "aabb_overlap(%s, %s) is not %s", x.tolist(), y.tolist(), want)
        if dim == 3:
            require(bool(A.aabb_intersect_fast_3d(x, y)) == want, "aabb_intersect_fast_3d(%s, %s) is not %s", x.tolist(), y.tolist(), want)
            r = A.aabb_intersection(x, y)
            require((r is not None) == want, "aabb_intersection(%s, %s) is %s", x.tolist(), y.tolist(), r)
            if want:
                m = [[max(x[0][i], y[0][i]) for i in range(3)], [min(x[1][i], y[1][i]) for i in range(3)]]
                require(np.asarray(r).tolist() == m, "aabb_intersection(%s, %s) = %s, expected %s", x.tolist(), y.tolist(), np.asarray(r).tolist(), m)
    require((a == a0).all() and (b == b0).all(), "a predicate changed the boxes handed in")


@st.composite
def clouds(draw):
    dim = draw(st.sampled_from([3, 3, 2]))
    n = draw(st.integers(1, 9))
    return {"p": draw(gen.points(n, dim)), "q": draw(gen.points(3, dim))}


@facet(FACETS, clouds, 1500, 20000)
def cloud(case, ctx):
    """The box of a point set is the smallest one: the exact minima and maxima; a point is inside iff every coordinate is in range."""
    p = np.array(case["p"])
    if len({tuple(x) for x in case["p"]}) == 1:
        ctx.trivial()
    bb = np.asarray(A.aabb(p.copy()))
    dim = p.shape[1]
    require(bb.shape == (2, dim), "the box of %d-dimensional points has shape %s", dim, bb.shape)
    require((bb[0] == p.min(0)).all() and (bb[1] == p.max(0)).all(), "aabb(%s) = %s", case["p"], bb.tolist())
    for q in case["q"] + case["p"]:
        want = all(bb[0][i] <= q[i] <= bb[1][i] for i in range(dim))
        require(bool(A.point_in_aabb(bb, np.array(q))) == want, "point_in_aabb(%s, %s) is not %s", bb.tolist(), q, want)
    if dim == 3 and len(p) > 1:
        out = np.zeros((2, 3))
        A.aabb_segm3d(p[0].copy(), p[1].copy(), out)
        require((out[0] == p[:2].min(0)).all() and (out[1] == p[:2].max(0)).all(), "aabb_segm3d(%s, %s) = %s", p[0], p[1], out.tolist())


def dircoord():
    return st.one_of(st.just(0.0), st.integers(-4, 4).map(float), st.integers(-4000, 4000).map(lambda i: i / 1000.0))


@st.composite
def rays(draw):
    b = draw(box(3, draw(st.sampled_from([grid(), st.integers(-4000, 4000).map(lambda i: i / 1000.0)]))))
    if draw(st.integers(0, 5)):
        b[1] = [y if y > x else x + 1.0 for x, y in zip(*b)]
    kind = draw(st.integers(0, 3))
    if kind == 0:  # anywhere
        o = draw(st.lists(gen.coord(), min_size=3, max_size=3))
        d = draw(st.lists(dircoord(), min_size=3, max_size=3))
    else:  # through a point of the box, or of its neighbourhood
        t = [lo + (hi - lo) * draw(st.sampled_from([0.5, 0.25, 0.7, 0.125, 0.9, 0.5, 0.25, 0.0, 1.25])) for lo, hi in zip(*b)]
        d = draw(st.lists(dircoord(), min_size=3, max_size=3))
        k = draw(st.sampled_from([-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 3.0]))
        o = [x - k * y for x, y in zip(t, d)]
    return {"box": b, "o": o, "d": d}


def exact_range(b, o, d, lo, hi, grow):
    """The parameters in [lo, hi] (None: unbounded) at which o + t d is inside the box grown by `grow`."""
    for i in range(3):
        if d[i] == 0:  # nothing is rounded here
            if not F(b[0][i]) <= F(o[i]) <= F(b[1][i]):
                return None
            continue
        l, h = F(b[0][i]) - grow, F(b[1][i]) + grow
        if l > h:
            return None
        t1, t2 = sorted(((l - F(o[i])) / F(d[i]), (h - F(o[i])) / F(d[i])))
        lo = t1 if lo is None else max(lo, t1)
        hi = t2 if hi is None else min(hi, t2)
        if lo > hi:
            return None
    return lo, hi


def judge(ctx, case, d, lo, hi):
    """-> (hit?, range) or None when the case is too close to call."""
    b, o = case["box"], case["o"]
    # with directions that are powers of two and few bits elsewhere nothing is rounded, and touching counts
    exact = all(F(x).denominator <= 4096 and abs(F(x)) < 4096 for p in (b[0], b[1], o) for x in p) and all(x == 0 or abs(F(x)) in (1, 2, 4, F(1, 2), F(1, 4)) for x in d)
    ctx.label("exact" if exact else "rounded")
    eps = F(0) if exact else F(1, 10 ** 9) * 8
    big, small = exact_range(b, o, d, lo, hi, eps), exact_range(b, o, d, lo, hi, -eps)
    if big is None:
        ctx.label("miss")
        return False, None
    if small is None:
        ctx.trivial()
        return None, None
    ctx.label("hit")
    return True, exact_range(b, o, d, lo, hi, 0)


def cond(d):
    return 1.0 / min([abs(x) for x in d if x] + [1.0])


@facet(FACETS, rays, 2500, 40000)
def ray(case, ctx):
    """A ray hits a box iff it does exactly; the range of parameters inside the box is exact and not behind the origin."""
    b, o, d = np.array(case["box"]), np.array(case["o"]), np.array(case["d"])
    if not d.any():
        return ctx.trivial()
    hit, rng = judge(ctx, case, case["d"], F(0), None)
    if hit is None:
        return
    r = A.ray_aabb_intersect(b, o, d)
    require((r is not None) == hit, "ray_aabb_intersect(%s, %s, %s) = %s", case["box"], case["o"], case["d"], r)
    if hit:
        want = [float(rng[0]), float(rng[1])]
        require(np.allclose(r, want, rtol=1e-9, atol=1e-9 * cond(d)), "ray_aabb_intersect(%s, %s, %s) = %s, exact %s", case["box"], case["o"], case["d"], r, want)


@facet(FACETS, rays, 2500, 40000)
def segment(case, ctx):
    """A segment meets a box iff it does exactly; the range inside and the clipped segment are exact, the arguments unchanged."""
    b, o = np.array(case["box"]), np.array(case["o"])
    e = o + np.array(case["d"])
    d = [F(y) - F(x) for x, y in zip(o.tolist(), e.tolist())]
    if any(x != 0 and abs(x) < 1e-9 for x in d):
        return ctx.trivial()
    hit, rng = judge(ctx, case, d, F(0), F(1))
    if hit is None:
        return
    seg = np.array([o, e])
    r = A.segment_aabb_intersect(b.copy(), seg.copy())
    require((r is not None) == hit, "segment_aabb_intersect(%s, %s) = %s", case["box"], seg.tolist(), r)
    out = np.full((2, 3), 77.0)
    c = A.segment_aabb_clip(b.copy(), seg, out)
    require((c is not None) == hit, "segment_aabb_clip(%s, %s) = %s", case["box"], seg.tolist(), c)
    require((seg == np.array([o, e])).all(), "segment_aabb_clip changed its segment")
    if hit:
        want = [float(rng[0]), float(rng[1])]
        tol = 1e-9 * cond([float(x) for x in d])
        require(np.allclose(r, want, rtol=1e-9, atol=tol), "segment_aabb_intersect(%s, %s) = %s, exact %s", case["box"], seg.tolist(), r, want)
        pts = np.array([[float(F(x) + t * y) for x, y in zip(o.tolist(), d)] for t in rng])
        require(np.allclose(np.asarray(c), pts, rtol=1e-9, atol=tol * 10), "segment_aabb_clip(%s, %s) = %s, exact %s", case["box"], seg.tolist(), np.asarray(c).tolist(), pts.tolist())


@facet(FACETS, lambda: curve_ts(4), 500, 6000)
def curve_box(case, ctx):
    """The box of a curve is that of its control points and contains every point of the curve."""
    c = mk_curve(case["c"])
    curve_labels(ctx, case["c"])
    p = np.array(case["c"]["points"])
    bb = np.asarray(c.bbox())
    require(oracle.close(bb, [p.min(0), p.max(0)], 1e-12), "bbox() = %s, control points span %s", bb.tolist(), [p.min(0).tolist(), p.max(0).tolist()])
    tol = 1e-9 * extent(case["c"]["points"])
    for t in case["t"] + curve_samples(case["c"]):
        q = c.evaluate(float(t))
        require((q >= bb[0] - tol).all() and (q <= bb[1] + tol).all(), "point %s at %s is outside bbox() %s", q.tolist(), t, bb.tolist())


@facet(FACETS, lambda: surf_uvs(4), 500, 6000)
def surface_box(case, ctx):
    """The box of a surface is that of its control points, contains every point of it, and is unchanged by knot insertion up to shrinking."""
    s = mk_surf(case["s"])
    surf_labels(ctx, case["s"])
    p = np.array(case["s"]["points"]).reshape(-1, 3)
    bb = np.asarray(s.bbox())
    require(oracle.close(bb, [p.min(0), p.max(0)], 1e-12), "bbox() = %s, control points span %s", bb.tolist(), [p.min(0).tolist(), p.max(0).tolist()])
    tol = 1e-9 * extent(case["s"]["points"])
    (u0, u1), (v0, v1) = [list(x) for x in s.interval()]
    for u, v in case["uv"]:
        q = np.array(s.evaluate(np.array([u, v], float)))
        require((q >= bb[0] - tol).all() and (q <= bb[1] + tol).all(), "point %s at %s is outside bbox() %s", q.tolist(), (u, v), bb.tolist())
    k = gen.surf_knots(case["s"])[0]
    u = case["uv"][0][0]
    if k[0] < u < k[-1] and u not in k:
        s.insert_knot_u(u, 1)
        b2 = np.asarray(s.bbox())
        require((b2[0] >= bb[0] - tol).all() and (b2[1] <= bb[1] + tol).all(), "after insert_knot_u the box grew: %s, before %s", b2.tolist(), bb.tolist())
