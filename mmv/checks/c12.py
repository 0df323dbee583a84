"""Knot vectors, spans, basis functions and the stand-alone spline routines."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st
from mmcore.geom import nurbs as N
from mmcore.geom.curves import bspline_utils as BU, knot as K
from mmcore.geom.curves import deboor as DB

from .. import gen, oracle
from ..core import facet, require
from ..strat import curve_labels, curve_samples, curve_ts, extent, mult, surf_labels, surf_uvs

FACETS = []
RULE = "Random clamped knot vectors with parameters that often are knots, random curves and surfaces; trivial when a curve's points all coincide or nothing is inserted."
ASSUMPTIONS = ["parameters are knots exactly or differ from every knot by more than 1e-3 (span search and multiplicity work with a tolerance)"]


@st.composite
def knots(draw):
    p = draw(st.integers(1, 5))
    n = p + 1 + draw(st.integers(0, 8))
    k = draw(gen.clamped_knots(p, n))
    ts = [gen.snap(k, draw(gen.param(k)), 2e-3) for _ in range(3)]
    return {"p": p, "knots": k, "t": ts}


def exact_basis(k, p, t):
    """All basis functions at t, exact."""
    n = len(k) - p - 1
    sp = oracle.span_of(k, p, t)
    N_ = [F(int(i == sp)) for i in range(len(k) - 1)]
    U, t = [F(x) for x in k], F(t)
    for d in range(1, p + 1):
        N_ = [((t - U[i]) / (U[i + d] - U[i]) * N_[i] if U[i + d] != U[i] else 0)
              + ((U[i + d + 1] - t) / (U[i + d + 1] - U[i + 1]) * N_[i + 1] if U[i + d + 1] != U[i + 1] else 0) for i in range(len(k) - 1 - d)]
    assert len(N_) == n
    return sp, [float(x) for x in N_]


@facet(FACETS, knots, 800, 10000)
def spans(case, ctx):
    """every span search finds the half-open span of a parameter, and every basis routine the exact basis functions there"""
    k, p = case["knots"], case["p"]
    n = len(k) - p - 1
    a = np.array(k)
    ctx.label("degree%d" % p, "bezier" if n == p + 1 else "spans")
    g = np.asarray(N.greville_abscissae(a, p)).tolist()
    want = [sum(map(F, k[i + 1:i + 1 + p])) / p for i in range(n)]
    require(oracle.close(g, [float(x) for x in want], 1e-12, max(map(abs, k))), "greville_abscissae(%s, %s) = %s", k, p, g)
    for t in case["t"]:
        sp, b = exact_basis(k, p, t)
        ctx.label("at-knot" if t in k[p + 1:-p - 1] else "at-end" if t in (k[0], k[-1]) else "between")
        for name, got in (("nurbs.find_span", N.find_span(n - 1, p, t, a, False)), ("find_span_binsearch", K.find_span_binsearch(p, k, n, t)),
                          ("find_span_linear", K.find_span_linear(p, k, n, t)), ("find_knot_span", K.find_knot_span(n - 1, p, t, k)),
                          ("bspline_utils.find_span", BU.find_span(p, t, k)), ("find_spans", K.find_spans(p, k, n, [t])[0])):
            require(got == sp, "%s of %r in %s (degree %s) is %s, expected %s", name, t, k, p, got, sp)
        require(K.find_multiplicity(t, k) == mult(k, t), "find_multiplicity(%r, %s) = %s", t, k, K.find_multiplicity(t, k))
        loc = b[sp - p:sp + 1]
        require(oracle.close([b[i] for i in range(n) if not sp - p <= i <= sp], [0.0] * (n - p - 1), 0.0), "oracle")
        for name, got in (("nurbs.basis_functions", N.basis_functions(sp, t, p, a)), ("knot.basis_function", K.basis_function(p, k, sp, t)),
                          ("bspline_utils.calc_basis_functions", BU.calc_basis_functions(sp, t, p, k)), ("ders_basis_funs[0]", np.asarray(N.ders_basis_funs(sp, t, p, 0, a))[0]),
                          ("calc_basis_function_derivatives[0]", BU.calc_basis_function_derivatives(sp, t, p, 0, k)[0]),
                          ("all_basis_funs", np.asarray(N.all_basis_funs(sp, t, p, a))[:, p])):
            require(oracle.close(got, loc, 1e-9), "%s at %r, degree %s, knots %s: %s, expected %s", name, t, p, k, np.asarray(got).tolist(), loc)
        got = [DB.deboor(a, t, i, p) for i in range(n)]
        require(oracle.close(got, b, 1e-9), "deboor at %r, degree %s, knots %s: %s, expected %s", t, p, k, got, b)
        # derivatives of the basis functions: exact derivatives of the unit splines
        o = p
        d = [np.asarray(N.ders_basis_funs(sp, t, p, o, a)), np.asarray(BU.calc_basis_function_derivatives(sp, t, p, o, k), dtype=float)]
        for j in range(p + 1):
            unit = [[F(int(i == sp - p + j))] for i in range(n)]
            ex = oracle.homog_derivs(k, p, unit, t, o)
            ex = [float(x[0]) for x in ex]
            for m in d:
                require(oracle.close(m[:, j], ex, 1e-8, max(map(abs, ex))), "derivatives of basis function %d at %r, degree %s, knots %s: %s, expected %s", sp - p + j, t, p, k, m[:, j].tolist(), ex)


@st.composite
def made(draw):
    p = draw(st.integers(1, 6))
    k = draw(gen.clamped_knots(p, p + 1 + draw(st.integers(0, 6))))
    q = draw(gen.clamped_knots(p, p + 1 + draw(st.integers(0, 6)), True))
    return {"p": p, "n": draw(st.integers(p + 1, 12)), "clamped": draw(st.booleans()), "k": k, "q": q, "shared": draw(st.booleans())}


@facet(FACETS, made, 300, 5000)
def vectors(case, ctx):
    """generated, normalised and merged knot vectors have the right length, order, ends and multiplicities"""
    p, n = case["p"], case["n"]
    ctx.label("degree%d" % p, "clamped" if case["clamped"] else "unclamped")
    g = K.generate_knot(p, n, clamped=case["clamped"])
    require(len(g) == n + p + 1, "generate_knot(%s, %s): %s knots", p, n, len(g))
    if case["clamped"]:
        require(g == [0.0] * (p + 1) + [float(i) for i in range(1, n - p)] + [float(n - p)] * (p + 1), "generate_knot(%s, %s) = %s", p, n, g)
    else:
        require(oracle.close(g, list(range(n + p + 1)), 1e-12), "generate_knot(%s, %s, unclamped) = %s", p, n, g)
    k = case["k"]
    m = K.normalize_knot(k)
    require(m[0] == 0.0 and m[-1] == 1.0 and oracle.close(m, [(x - k[0]) / (k[-1] - k[0]) for x in k], 1e-12), "normalize_knot(%s) = %s", k, m)
    require([x == y for x, y in zip(m, m[1:])] == [x == y for x, y in zip(k, k[1:])], "normalising changed the multiplicities of %s: %s", k, m)
    q = case["q"]
    if case["shared"]:  # shares knots with the first
        u = sorted(set(k[p + 1:-p - 1]))
        q = [k[0]] * (p + 1) + sorted(u[::2] + [x + 0.01 * (k[-1] - k[0]) for x in u[:1]]) + [k[-1]] * (p + 1)
        q = [x for x in q if x <= k[-1]]
    if all(x == y or abs(x - y) > 1e-3 * max(1.0, abs(x)) for x in k + q for y in k + q):
        r = K.merge_knot_vectors(np.array(k), np.array(q)).tolist()
        want = sorted(x for u in set(k + q) for x in [u] * max(mult(k, u), mult(q, u)))
        require(r == want, "merge_knot_vectors(%s, %s) = %s", k, q, r)


@st.composite
def inserted(draw):
    c = draw(gen.curve(max_degree=4, max_extra=5))
    k = gen.curve_knots(c)
    t = draw(gen.inside(k))
    return {"c": c, "t": t, "n": draw(st.integers(1, 4))}


@facet(FACETS, inserted, 400, 6000)
def insertion(case, ctx):
    """the stand-alone insertion adds the knot to the knot vector and keeps the points of the spline it is given"""
    c, t = case["c"], case["t"]
    k, p = gen.curve_knots(c), c["degree"]
    curve_labels(ctx, c)
    n = min(case["n"], p - mult(k, t))
    if n < 1 or not k[0] < t < k[-1] or any(0 < abs(t - x) < 1e-3 for x in k):
        ctx.trivial()
        return
    h = [[float(x) for x in r] for r in oracle.homog(c["points"], c["weights"])]
    a = np.array(h)
    ctx.label("existing-knot" if t in k else "new-knot")
    sp = oracle.span_of(k, p, t)
    out, kk = K.knot_insertion(p, list(k), a, t, num=n)
    require((a == np.array(h)).all(), "knot_insertion changed the control points handed in")
    want = sorted(list(k) + [t] * n)
    require(list(kk) == want and list(K.knot_insertion_kv(k, t, sp, n)) == want, "knots %s, expected %s", list(kk), want)
    require(np.asarray(N.knot_insertion_kv(np.array(k), t, sp, n)).tolist() == want, "nurbs.knot_insertion_kv: %s, expected %s", np.asarray(N.knot_insertion_kv(np.array(k), t, sp, n)).tolist(), want)
    o2 = np.asarray(N.knot_insertion(p, np.array(k), a, t, n, mult(k, t), sp))
    for name, o in (("knot.knot_insertion", np.asarray(out)), ("nurbs.knot_insertion", o2)):
        require(o.shape == (len(h) + n, 4), "%s: control points of shape %s", name, o.shape)
        for s in curve_samples(c):
            x = [float(v) for v in oracle.de_boor(want, p, o.tolist(), s)]
            y = [float(v) for v in oracle.de_boor(k, p, h, s)]
            require(oracle.close(x, y, 1e-9, extent(h)), "%s: at %r the spline gives %s, it was %s", name, s, x, y)


@facet(FACETS, curve_ts, 400, 6000)
def points(case, ctx):
    """the stand-alone curve routines give the exact points and derivatives"""
    c = case["c"]
    k, p = gen.curve_knots(c), c["degree"]
    curve_labels(ctx, c)
    w = c["weights"] or [1.0] * len(c["points"])
    P = np.c_[np.array(c["points"]), w]
    ka, scale = np.array(k), extent(c["points"]) * (max(w) / min(w))
    pts = np.array(c["points"])
    ex = [oracle.curve_point(c, k, t) for t in case["t"]]
    multi = np.asarray(DB.evaluate_nurbs_multi(np.array(case["t"]), pts, ka, np.array(w), p))
    Q = np.concatenate([pts * P[:, 3:], P[:, 3:]], axis=1)
    for t, e, m in zip(case["t"], ex, multi):
        one = np.asarray(DB.evaluate_nurbs(t, pts, ka, np.array(w), p))
        require(oracle.close(one, e, 1e-9, scale), "evaluate_nurbs at %r: %s, expected %s", t, one.tolist(), e.tolist())
        require(oracle.close(m, e, 1e-9, scale), "evaluate_nurbs_multi at %r (of %s): %s, expected %s", t, case["t"], m.tolist(), e.tolist())
        h = np.asarray(BU.calc_b_spline_point(p, k, P.tolist(), t))
        require(oracle.close(h[:3] / h[3], e, 1e-9, scale), "calc_b_spline_point at %r: %s, expected %s", t, (h[:3] / h[3]).tolist(), e.tolist())
        o = p
        D = oracle.curve_derivs(c, k, t, o)
        mag = max(float(np.abs(d).max()) for d in D)
        got = BU.calcNURBSDerivatives(p, k, P.tolist(), t, o)
        for i in range(o + 1):
            require(oracle.close(got[i], D[i], 1e-7, max(mag, scale)), "calcNURBSDerivatives[%d] at %r: %s, expected %s", i, t, np.asarray(got[i]).tolist(), D[i].tolist())
        H = [[float(x) for x in r] for r in oracle.homog_derivs(k, p, oracle.homog(c["points"], c["weights"]), t, o)]
        for name in ("curve_derivs_alg1", "curve_derivs_alg2"):
            CK = np.zeros((o + 1, 4))
            if name.endswith("1"):
                N.curve_derivs_alg1(len(P) - 1, p, ka, Q, t, o, CK, False)
            else:
                N.curve_derivs_alg2(len(P) - 1, p, ka, Q, t, o, CK, np.zeros((o + 1, p + 1, 4)), False)
            for i in range(o + 1):
                require(oracle.close(CK[i], H[i], 1e-7, max(map(abs, sum(H, [])))), "%s[%d] at %r: %s, expected %s", name, i, t, CK[i].tolist(), H[i])


@facet(FACETS, surf_uvs, 200, 3000)
def surface(case, ctx):
    """the stand-alone surface routines give the exact points"""
    s = case["s"]
    surf_labels(ctx, s)
    ku, kv = gen.surf_knots(s)
    p, q = s["degree"]
    w = s["weights"] or [[1.0] * len(r) for r in s["points"]]
    P = [[np.array(x + [y]) for x, y in zip(r, v)] for r, v in zip(s["points"], w)]
    Pw = np.array([[[float(x) for x in y] for y in r] for r in oracle.surf_homog(s)])
    flat = [x for r in w for x in r]
    scale = extent(s["points"]) * max(flat) / min(flat)
    for u, v in case["uv"]:
        e = oracle.surf_point(s, ku, kv, u, v)
        for name, got in (("calc_surface_point", BU.calc_surface_point(p, q, ku, kv, P, u, v)), ("calcSurfacePoint", BU.calcSurfacePoint(p, q, ku, kv, P, u, v)),
                          ("surface_point_py", None)):
            if got is None:
                h = np.asarray(N.surface_point_py(len(P) - 1, p, np.array(ku), len(P[0]) - 1, q, np.array(kv), Pw, u, v))
                got = h[:3] / h[3] if len(h) == 4 else h
            require(oracle.close(got, e, 1e-9, scale), "%s at %s: %s, expected %s", name, (u, v), np.asarray(got).tolist(), e.tolist())
