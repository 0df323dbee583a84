"""Knot insertion, splitting, subdivision, decomposition and isocurves of surfaces."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_surf
from ..strat import SCALES, extent, far_inside, mult, surf_labels, surf_samples

FACETS = []
RULE = ("Random NURBS surfaces as in C02 with cut parameters; a case is trivial when the cut is an end of the domain, the knot is full, or all control points coincide.")
ASSUMPTIONS = ["two surfaces are the same when they agree within 1e-8 (relative to the control net) on a grid with the domain ends, the cuts and the knots",
               "cuts closer than 1e-4 to a domain end are left out"]


@st.composite
def cut(draw, **kw):
    s = draw(gen.surface(**kw))
    ku, kv = gen.surf_knots(s)
    return {"s": s, "u": draw(gen.inside(ku)), "v": draw(gen.inside(kv)), "n": draw(st.integers(1, 3))}


def wscale(s):
    w = [x for r in s["weights"] for x in r] if s.get("weights") else [1.0]
    return extent(s["points"]) * max(w) / min(w)


def same(srf, s, uvs, msg, f=lambda u, v: (u, v)):
    ku, kv = gen.surf_knots(s)
    for u, v in uvs:
        got, want = srf.evaluate(np.array(f(u, v))), oracle.surf_point(s, ku, kv, u, v)
        require(oracle.close(got, want, 1e-8, wscale(s)), "%s: at %s the surface gives %s, it was %s at %s", msg, f(u, v), list(got), want.tolist(), (u, v))


def consistent(srf, s, msg):
    n, m = list(srf.shape)[:2]
    require(len(srf.knots_u) == n + s["degree"][0] + 1 and len(srf.knots_v) == m + s["degree"][1] + 1, "%s: %d x %d points, %d and %d knots", msg, n, m, len(srf.knots_u), len(srf.knots_v))
    require(list(srf.degree) == s["degree"], "%s: degree %s", msg, srf.degree)
    cp = np.asarray(srf.control_points)
    require(cp.shape[:2] == (n, m), "%s: control points of shape %s, size %s", msg, cp.shape, (n, m))


def iv(srf, want, msg):
    got = [float(x) for d in srf.interval() for x in d]
    require(oracle.close(got, want, 1e-10, max(abs(x) for x in want)), "%s: interval %s, expected %s", msg, got, want)


def patch(srf, s, box, msg):
    u0, u1, v0, v1 = box
    iv(srf, box, msg)
    consistent(srf, s, msg)
    ku, kv = gen.surf_knots(s)
    us = [u0, u0 + 0.37 * (u1 - u0), u1] + [x for x in sorted(set(ku)) if u0 < x < u1]
    vs = [v0, v0 + 0.62 * (v1 - v0), v1] + [x for x in sorted(set(kv)) if v0 < x < v1]
    same(srf, s, [(u, v) for u in us for v in vs], msg)


@st.composite
def insertions(draw):
    c = draw(cut())
    ku, kv = gen.surf_knots(c["s"])
    c["ops"] = [[d, draw(gen.inside(ku if d == "u" else kv)), draw(st.integers(1, 3))] for d in draw(st.lists(st.sampled_from("uv"), min_size=1, max_size=3))]
    return c


@facet(FACETS, insertions, 400, 5000)
def insert(case, ctx):
    """a history of knot insertions in u and v keeps the shape and adds the knots asked for"""
    s = case["s"]
    surf_labels(ctx, s)
    k = dict(zip("uv", (list(x) for x in gen.surf_knots(s))))
    srf = mk_surf(s)
    done = 0
    for d, t, n in case["ops"]:
        p = s["degree"]["uv".index(d)]
        n = min(n, p - mult(k[d], t))
        if n < 1 or not far_inside(k[d], t):
            continue
        if any(0 < abs(t - x) < 1e-4 for x in k[d]):
            continue
        (srf.insert_knot_u if d == "u" else srf.insert_knot_v)(t, n)
        k[d] = sorted(k[d] + [t] * n)
        done += 1
        msg = "after inserting %s=%r x%d" % (d, t, n)
        for e, got in (("u", srf.knots_u), ("v", srf.knots_v)):
            require([float(x) for x in got] == k[e], "%s: %s knots %s, expected %s", msg, e, list(got), k[e])
        consistent(srf, s, msg)
        same(srf, s, surf_samples(s, [(t, gen.surf_knots(s)[1][0])] if d == "u" else [(gen.surf_knots(s)[0][0], t)]), msg)
    if not done:
        ctx.trivial()


@facet(FACETS, cut, 350, 4000)
def split(case, ctx):
    """splitting in u or v gives the two parts and leaves the surface alone"""
    from mmcore.geom import nurbs
    s, u, v = case["s"], case["u"], case["v"]
    surf_labels(ctx, s)
    ku, kv = gen.surf_knots(s)
    srf = mk_surf(s)
    done = False
    if far_inside(ku, u):
        done = True
        a, b = nurbs.split_surface_u(srf, u)
        patch(a, s, [ku[0], u, kv[0], kv[-1]], "first part in u at %r" % u)
        patch(b, s, [u, ku[-1], kv[0], kv[-1]], "second part in u at %r" % u)
    if far_inside(kv, v):
        done = True
        a, b = nurbs.split_surface_v(srf, v)
        patch(a, s, [ku[0], ku[-1], kv[0], v], "first part in v at %r" % v)
        patch(b, s, [ku[0], ku[-1], v, kv[-1]], "second part in v at %r" % v)
    patch(srf, s, [ku[0], ku[-1], kv[0], kv[-1]], "the surface after splitting")
    if not done:
        ctx.trivial()


@facet(FACETS, lambda: st.tuples(cut(), st.booleans()), 250, 3000)
def subdivide(case, ctx):
    """subdividing gives the four patches around the cut, on their own or on unit domains"""
    from mmcore.geom import nurbs
    case, norm = case
    s, u, v = case["s"], case["u"], case["v"]
    surf_labels(ctx, s)
    ku, kv = gen.surf_knots(s)
    if not (far_inside(ku, u) and far_inside(kv, v)):
        ctx.trivial()
        return
    srf = mk_surf(s)
    parts = list(nurbs.subdivide_surface(srf, u, v, normalize_knots=norm))
    boxes = [[a, b, c, d] for a, b in ((ku[0], u), (u, ku[-1])) for c, d in ((kv[0], v), (v, kv[-1]))]
    require(len(parts) == 4, "%d patches", len(parts))
    if not norm:
        left = list(boxes)
        for x in parts:
            got = [float(z) for d in x.interval() for z in d]
            best = min(left, key=lambda b: max(abs(p - q) for p, q in zip(b, got)))
            patch(x, s, best, "patch %s" % got)
            left.remove(best)
    else:
        ctx.label("normalised")
        # in the order of the patches on their own domains
        order = []
        for y in nurbs.subdivide_surface(mk_surf(s), u, v):
            got = [float(z) for d in y.interval() for z in d]
            order.append(min(boxes, key=lambda b: max(abs(p - q) for p, q in zip(b, got))))
        for x, best in zip(parts, order):
            iv(x, [0.0, 1.0, 0.0, 1.0], "normalised patch")
            consistent(x, s, "normalised patch")
            pts = [(best[0], best[2], 0.0, 0.0), (best[1], best[3], 1.0, 1.0)]
            for f, g in ((0.4, 0.4), (0.0, 1.0), (0.7, 0.2)):
                pts.append((best[0] + f * (best[1] - best[0]), best[2] + g * (best[3] - best[2]), f, g))
            for a, b, f, g in pts:
                got, want = x.evaluate(np.array([f, g])), oracle.surf_point(s, ku, kv, min(a, best[1]), min(b, best[3]))
                require(oracle.close(got, want, 1e-8, wscale(s)), "normalised patch at (%r, %r): %s, expected %s", f, g, list(got), want.tolist())
    patch(srf, s, [ku[0], ku[-1], kv[0], kv[-1]], "the surface after subdividing")


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    else:
        yield x


@facet(FACETS, lambda: st.tuples(gen.surface(), st.sampled_from(["uv", "u", "v"])), 250, 3000)
def decompose(case, ctx):
    """decomposition gives one patch per knot span (in both directions, u only or v only)"""
    from mmcore.geom import nurbs
    s, d = case
    surf_labels(ctx, s)
    ctx.label("dir-" + d)
    ku, kv = gen.surf_knots(s)
    srf = mk_surf(s)
    U, V = sorted(set(ku)), sorted(set(kv))
    us = list(zip(U, U[1:])) if "u" in d else [(U[0], U[-1])]
    vs = list(zip(V, V[1:])) if "v" in d else [(V[0], V[-1])]
    left = [[a, b, e, f] for a, b in us for e, f in vs]
    parts = list(flat(list(nurbs.decompose_surface(srf, decompose_dir=d))))
    require(len(parts) == len(left), "%d patches for %d spans", len(parts), len(left))
    for x in parts:
        got = [float(z) for q in x.interval() for z in q]
        best = min(left, key=lambda b: max(abs(p - q) for p, q in zip(b, got)))
        patch(x, s, best, "patch %s" % got)
        if "u" in d:
            require(list(x.shape)[0] == s["degree"][0] + 1, "patch has %s points in u", list(x.shape))
        if "v" in d:
            require(list(x.shape)[1] == s["degree"][1] + 1, "patch has %s points in v", list(x.shape))
        left.remove(best)
    patch(srf, s, [ku[0], ku[-1], kv[0], kv[-1]], "the surface after decomposition")


@facet(FACETS, lambda: gen.surface(), 200, 2000)
def normalize(case, ctx):
    """normalising the knots maps the domain to the unit square"""
    s = case
    surf_labels(ctx, s)
    ku, kv = gen.surf_knots(s)
    srf = mk_surf(s)
    srf.normalize_knots()
    iv(srf, [0.0, 1.0, 0.0, 1.0], "normalised")
    f = lambda k, t: min(1.0, (t - k[0]) / (k[-1] - k[0]))
    same(srf, s, surf_samples(s), "normalised", lambda u, v: (f(ku, u), f(kv, v)))


@facet(FACETS, lambda: st.tuples(gen.surface(), gen.unit(), st.sampled_from("uv")), 350, 4000)
def isocurve(case, ctx):
    """the isocurve at a parameter runs through the surface's points at that parameter; the four boundaries are isocurves at the ends"""
    from mmcore.numeric.intersection.ssx.boundary_intersection import extract_isocurve, extract_surface_boundaries
    s, f, d = case
    surf_labels(ctx, s)
    ku, kv = gen.surf_knots(s)
    k, o = (ku, kv) if d == "u" else (kv, ku)
    t = gen.snap(k, min(k[-1], k[0] + f * (k[-1] - k[0])))
    srf = mk_surf(s)
    crv = extract_isocurve(srf, t, d)
    curves = [("isocurve %s=%r" % (d, t), crv, d, t, o)]
    b = extract_surface_boundaries(srf)
    require(len(b) == 4, "%d boundaries", len(b))
    for x, e, q, oo in zip(b, "uuvv", (ku[0], ku[-1], kv[0], kv[-1]), (kv, kv, ku, ku)):
        curves.append(("boundary %s=%r" % (e, q), x, e, q, oo))
    for msg, x, e, q, oo in curves:
        require(list(x.interval()) == [oo[0], oo[-1]], "%s: interval %s", msg, x.interval())
        for g in (0.0, 0.3, 0.71, 1.0):
            w = oo[-1] if g == 1.0 else oo[0] + g * (oo[-1] - oo[0])
            want = oracle.surf_point(s, ku, kv, *((q, w) if e == "u" else (w, q)))
            got = x.evaluate(w)
            require(oracle.close(got, want, 1e-8, wscale(s)), "%s at %r: %s, the surface has %s", msg, w, list(got), want.tolist())
    for bad in (k[0] - 0.5, k[-1] + 0.5):
        try:
            extract_isocurve(srf, bad, d)
        except ValueError:
            continue
        require(False, "isocurve at %s=%r outside the domain was not refused", d, bad)


@facet(FACETS, lambda: st.tuples(cut(), st.sampled_from(SCALES), st.sampled_from(SCALES + [1.0])), 300, 4000)
def units(case, ctx):
    """insertion, splitting and decomposition do not depend on the units of the parameters: over domains stretched by powers of two the control points are the same"""
    from mmcore.geom import nurbs
    case, h, g = case
    s, u, v = case["s"], case["u"], case["v"]
    surf_labels(ctx, s)
    ku, kv = gen.surf_knots(s)
    ok = [far_inside(k, t) and not any(0 < abs(t - q) < 1e-3 for q in k) for k, t in ((ku, u), (kv, v))]
    d = dict(s, knots_u=[x * h for x in ku], knots_v=[x * g for x in kv])
    def both(name, f, fd):
        x, y = f(mk_surf(s)), fd(mk_surf(d))
        require(len(x) == len(y), "%s: %d parts, and %d over a stretched domain", name, len(x), len(y))
        for p, q in zip(x, y):
            for m, name2 in ((h, "knots_u"), (g, "knots_v")):
                a, b = [float(t) for t in getattr(q, name2)], [m * float(t) for t in getattr(p, name2)]
                require(oracle.close(a, b, 1e-12, max(map(abs, b))), "%s: %s %s over a stretched domain, expected %s", name, name2, a, b)
            a, b = np.asarray(q.control_points), np.asarray(p.control_points)
            require(a.shape == b.shape and oracle.close(a, b, 1e-9, wscale(s)), "%s: control points %s over a stretched domain, and otherwise %s", name, a.tolist(), b.tolist())
    both("decompose_surface", lambda q: nurbs.decompose_surface(q), lambda q: nurbs.decompose_surface(q))
    if ok[0]:
        both("split_surface_u", lambda q: nurbs.split_surface_u(q, u), lambda q: nurbs.split_surface_u(q, u * h))
    if ok[1]:
        both("split_surface_v", lambda q: nurbs.split_surface_v(q, v), lambda q: nurbs.split_surface_v(q, v * g))
    if all(ok):
        both("subdivide_surface", lambda q: nurbs.subdivide_surface(q, u, v), lambda q: nurbs.subdivide_surface(q, u * h, v * g))
    ctx.label("cuts%d" % sum(ok))
