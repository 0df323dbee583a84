"""Derivatives and frames of curves."""
import numpy as np
from hypothesis import strategies as st
from mmcore.numeric.algorithms import tnb

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve
from ..strat import curve_labels, curve_ts, extent

FACETS = []
RULE = ("Random NURBS curves as in C01 and cubic Bezier splines, at parameters that hit knots and domain ends often; a case is trivial when all control "
        "points coincide or, for frames, when the frame is not defined at any sampled parameter.")
ASSUMPTIONS = ["derivatives at a knot are those of the span to its right (of the last span at the end of the domain)",
               "tangents are compared where the speed exceeds 1e-3 of the size of the curve, curvature and frames where they are well conditioned"]


def dscale(D, k, p):
    return max(float(np.abs(D[i]).max()) for i in range(len(D)))


def bound(c, k, D):
    """An absolute scale for rounding in derivatives 0..len(D)-1: grows with the inverse knot spacing."""
    p = c["degree"]
    u = sorted(set(k))
    h = min(b - a for a, b in zip(u, u[1:]))
    w = c.get("weights") or [1.0]
    r = max(w) / min(w)
    return [extent(c["points"]) * (r * 2 * p / h) ** i for i in range(len(D))]


@facet(FACETS, lambda: curve_ts(2), 900, 12000)
def derivatives(case, ctx):
    """derivative, second_derivative and both derivative algorithms up to the degree agree with exact differentiation"""
    c = case["c"]
    curve_labels(ctx, c)
    k, p = gen.curve_knots(c), c["degree"]
    crv = mk_curve(c)
    for t in case["t"]:
        n = max(p, 2)
        D = oracle.curve_derivs(c, k, t, n)
        B = bound(c, k, D)
        tol = lambda i: 1e-9 * B[i] + 1e-9 * float(np.abs(D[i]).max())
        got = crv.derivative(t)
        require(np.all(np.abs(got - D[1]) <= tol(1)), "derivative(%r) = %s, exact %s", t, list(got), D[1].tolist())
        got = crv.second_derivative(t)
        require(np.all(np.abs(got - D[2]) <= tol(2)), "second_derivative(%r) = %s, exact %s", t, list(got), D[2].tolist())
        for name in ("derivatives1", "derivatives2"):
            for d in {1, p}:
                got = np.asarray(getattr(crv, name)(t, d))
                require(got.shape == (d + 1, 3), "%s(%r, %d) has shape %s", name, t, d, got.shape)
                for i in range(d + 1):
                    require(np.all(np.abs(got[i] - D[i]) <= tol(i)), "%s(%r, %d)[%d] = %s, exact %s", name, t, d, i, got[i].tolist(), D[i].tolist())


@facet(FACETS, lambda: curve_ts(3, min_degree=1), 700, 8000)
def frames(case, ctx):
    """tangent, curvature vector, normal and Frenet plane agree with the exact derivatives"""
    c = case["c"]
    curve_labels(ctx, c)
    k = gen.curve_knots(c)
    crv = mk_curve(c)
    defined = False
    size = extent(c["points"])
    pl_all = np.asarray(crv.planes_at(np.array(case["t"])))
    for j, t in enumerate(case["t"]):
        D = oracle.curve_derivs(c, k, t, 2)
        B = bound(c, k, D)
        n = float(np.linalg.norm(D[1]))
        if n < 1e-3 * size or n < 1e-6 * B[1]:
            continue
        defined = True
        T = D[1] / n
        e1 = 1e-9 * B[1] / n + 1e-9
        got = np.asarray(crv.tangent(t))
        require(np.all(np.abs(got - T) <= e1), "tangent(%r) = %s, exact %s", t, got.tolist(), T.tolist())
        perp = D[2] - D[2].dot(T) * T
        K = perp / n ** 2
        ek = (1e-8 * B[2] + e1 * 4 * (np.linalg.norm(D[2]) + B[2] * 1e-3)) / n ** 2 + 1e-9
        got = np.asarray(crv.curvature(t))
        require(np.all(np.abs(got - K) <= ek), "curvature(%r) = %s, exact %s", t, got.tolist(), K.tolist())
        m = float(np.linalg.norm(perp))
        if m < 1e-3 * max(1.0, float(np.linalg.norm(D[2]))) or m < 1e-5 * B[2]:
            continue
        ctx.label("frame")
        N = perp / m
        want = np.array([D[0], T, N, np.cross(T, N)])
        en = (1e-8 * B[2] + e1 * 4 * np.linalg.norm(D[2])) / m + e1 + 1e-8
        for name, got in (("plane_at", np.asarray(crv.plane_at(t))), ("planes_at", pl_all[j])):
            require(np.all(np.abs(got[0] - D[0]) <= 1e-8 * size), "%s(%r) has origin %s, the point is %s", name, t, got[0].tolist(), D[0].tolist())
            require(np.all(np.abs(got[1:] - want[1:]) <= en), "%s(%r) has axes %s, the Frenet frame is %s", name, t, got[1:].tolist(), want[1:].tolist())
        if m > 1e-3 * float(np.linalg.norm(D[2])):  # the same from functions for the derivatives
            F = tnb.frenet_serret_frame(lambda x: D[0], lambda x: D[1], lambda x: D[2], t)
            require(np.all(np.abs(F - want) <= 1e-9 * max(1.0, np.abs(D[0]).max())), "frenet_serret_frame(%r) is %s, the Frenet frame is %s", t, F.tolist(), want.tolist())
        got = np.asarray(crv.normal(t))
        require(np.all(np.abs(got - N) <= en), "normal(%r) = %s, exact %s", t, got.tolist(), N.tolist())
    if not defined:
        ctx.trivial()


@facet(FACETS, lambda: st.tuples(gen.points(4), st.lists(gen.unit(), min_size=3, max_size=3)), 300, 3000)
def cubic(case, ctx):
    """a cubic spline through two ends with two handles is the cubic Bezier curve, with its derivatives"""
    from mmcore.geom.curves._cubic import CubicSpline
    pts, ts = case
    crv = CubicSpline(*[np.array(p) for p in pts])
    c = {"degree": 3, "points": pts, "weights": None}
    k = [0.0] * 4 + [1.0] * 4
    if len({tuple(p) for p in pts}) == 1:
        ctx.trivial()
    for t in ts:
        D = oracle.curve_derivs(c, k, t, 2)
        for name, w in (("evaluate", D[0]), ("derivative", D[1]), ("second_derivative", D[2])):
            got = np.asarray(getattr(crv, name)(t))
            require(oracle.close(got, w, 1e-10, extent(pts) * 24), "%s(%r) = %s, exact %s", name, t, got.tolist(), w.tolist())
        n = np.linalg.norm(D[1])
        if n > 1e-2:
            got = np.asarray(crv.tangent(t))
            require(oracle.close(got, D[1] / n, 1e-7), "tangent(%r) = %s, exact %s", t, got.tolist(), (D[1] / n).tolist())
            T = D[1] / n
            K = (D[2] - D[2].dot(T) * T) / n ** 2
            got = np.asarray(crv.curvature(t))
            require(oracle.close(got, K, 1e-6, float(np.linalg.norm(D[2])) / n ** 2), "curvature(%r) = %s, exact %s", t, got.tolist(), K.tolist())
