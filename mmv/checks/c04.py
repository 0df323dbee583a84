"""Derivatives, normals and frames of surfaces."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve, mk_surf
from ..strat import extent, surf_labels, surf_uvs

FACETS = []
RULE = ("Random NURBS surfaces as in C02 plus ruled and bilinear surfaces, at parameters that hit knots and domain ends often; "
        "a case is trivial when all control points coincide.")
ASSUMPTIONS = ["the derivative methods of a surface are difference quotients with step 1e-3: their value has to lie in the range the exact derivative takes "
               "within two steps of the parameter (half that range as slack)"]
H = 1e-3


def bound(s, ku, kv, order):
    p, q = s["degree"]
    hu = min(b - a for a, b in zip(sorted(set(ku)), sorted(set(ku))[1:]))
    hv = min(b - a for a, b in zip(sorted(set(kv)), sorted(set(kv))[1:]))
    w = [x for r in s["weights"] for x in r] if s.get("weights") else [1.0]
    r = max(w) / min(w)
    return lambda k, l: extent(s["points"]) * (2 * r * p / hu) ** k * (2 * r * q / hv) ** l


@facet(FACETS, lambda: st.tuples(surf_uvs(1, max_degree=4, max_extra=2), st.integers(1, 3)), 700, 8000)
def exact(case, ctx):
    """the exact derivative algorithms (homogeneous, then rational) agree with exact differentiation up to the order asked for"""
    from mmcore.geom import nurbs
    cc, order = case
    s = cc["s"]
    surf_labels(ctx, s)
    ctx.label("order%d" % order)
    ku, kv = gen.surf_knots(s)
    srf = mk_surf(s)
    B = bound(s, ku, kv, order)
    for u, v in cc["uv"]:
        D = oracle.surf_derivs(s, ku, kv, u, v, order)
        sk = nurbs.surface_derivatives_py(tuple(s["degree"]), srf.knots_u, srf.knots_v, np.asarray(srf.control_points_flat_w), srf.shape, u, v, order)
        R = nurbs.rat_surface_derivs_py(sk, order)
        for k in range(order + 1):
            for l in range(order + 1 - k):
                tol = 1e-9 * B(k, l) + 1e-9 * float(np.abs(D[k][l]).max())
                got = np.asarray(R[k][l])[:3]
                require(np.all(np.abs(got - D[k][l]) <= tol), "derivative (%d, %d) at (%r, %r) is %s, exact %s", k, l, u, v, got.tolist(), D[k][l].tolist())


def envelope(s, ku, kv, u, v, k, l):
    """(centre, radius) of the values of derivative (k, l) within two steps."""
    o = k + l
    vals = []
    du = [0.0] if not k else [-2 * H, -H, 0.0, H, 2 * H]
    dv = [0.0] if not l else [-2 * H, -H, 0.0, H, 2 * H]
    for a in du:
        for b in dv:
            vals.append(oracle.surf_derivs(s, ku, kv, u + a, v + b, o)[k][l])
    vals = np.array(vals)
    lo, hi = vals.min(axis=0), vals.max(axis=0)
    return (lo + hi) / 2, (hi - lo)


@facet(FACETS, lambda: surf_uvs(1), 300, 4000)
def first(case, ctx):
    """derivative_u, derivative_v, derivatives, normal and plane_at agree with the exact first derivatives"""
    s = case["s"]
    surf_labels(ctx, s)
    ku, kv = gen.surf_knots(s)
    srf = mk_surf(s)
    size = extent(s["points"])
    for u, v in case["uv"]:
        uv = np.array([u, v])
        env = {"u": envelope(s, ku, kv, u, v, 1, 0), "v": envelope(s, ku, kv, u, v, 0, 1)}
        for d in "uv":
            c, r = env[d]
            got = np.asarray(getattr(srf, "derivative_" + d)(uv))
            require(np.all(np.abs(got - c) <= r + 1e-9 * size / H), "derivative_%s(%s) = %s, the derivative around there is %s +- %s", d, uv.tolist(), got.tolist(), c.tolist(), r.tolist())
        got = np.asarray(srf.derivatives(uv))
        for d, i in (("u", 0), ("v", 1)):
            c, r = env[d]
            require(np.all(np.abs(got[i] - c) <= r + 1e-9 * size / H), "derivatives(%s)[%d] = %s, the derivative around there is %s +- %s", uv.tolist(), i, got[i].tolist(), c.tolist(), r.tolist())
        D = oracle.surf_derivs(s, ku, kv, u, v, 1)
        a, b = env["u"][0], env["v"][0]
        n = np.cross(a, b)
        ru, rv = float(np.abs(env["u"][1]).max()) + 1e-9 * size / H, float(np.abs(env["v"][1]).max()) + 1e-9 * size / H
        err = 4 * (ru * np.linalg.norm(b) + rv * np.linalg.norm(a) + ru * rv)
        got = np.asarray(srf.normal(uv))
        require(np.all(np.abs(got - n) <= err), "normal(%s) = %s, exact cross product %s +- %g", uv.tolist(), got.tolist(), n.tolist(), err)
        got2 = np.asarray(srf.normal_multi(np.array([[u, v], [u, v]])))
        require(oracle.close(got2, np.array([got, got]), 1e-12), "normal_multi differs from normal at %s", uv.tolist())
        if np.linalg.norm(n) > 1e-3 * np.linalg.norm(a) * np.linalg.norm(b) + 10 * err and np.linalg.norm(n) > 1e-6:
            ctx.label("regular")
            pl = np.asarray(srf.plane_at(uv))
            require(oracle.close(pl[0], oracle.surf_point(s, ku, kv, u, v), 1e-9, size), "plane_at(%s) has origin %s", uv.tolist(), pl[0].tolist())
            G = pl[1:] @ pl[1:].T
            require(oracle.close(G, np.eye(3), 1e-9), "plane_at(%s) is not orthonormal: %s", uv.tolist(), pl.tolist())
            require(np.linalg.det(pl[1:]) > 0, "plane_at(%s) is left-handed", uv.tolist())
            x, z = a / np.linalg.norm(a), n / np.linalg.norm(n)
            ex = 4 * ru / np.linalg.norm(a) + 1e-9
            ez = 4 * err / np.linalg.norm(n) + 1e-9
            require(np.all(np.abs(pl[1] - x) <= ex), "plane_at(%s) has x axis %s, the u direction is %s", uv.tolist(), pl[1].tolist(), x.tolist())
            require(np.all(np.abs(pl[3] - z) <= ez), "plane_at(%s) has z axis %s, the normal is %s", uv.tolist(), pl[3].tolist(), z.tolist())


@facet(FACETS, lambda: surf_uvs(1), 150, 2000)
def second(case, ctx):
    """second_derivative_uu, _vv and _uv agree with the exact second derivatives away from kinks"""
    s = case["s"]
    surf_labels(ctx, s)
    ku, kv = gen.surf_knots(s)
    srf = mk_surf(s)
    size = extent(s["points"])
    for u, v in case["uv"]:
        # a difference quotient across a kink does not approximate anything
        if any(0 < abs(u - x) < 5 * H or (u == x and x not in (ku[0], ku[-1])) for x in ku) or \
                any(0 < abs(v - x) < 5 * H or (v == x and x not in (kv[0], kv[-1])) for x in kv):
            ctx.label("near-knot")
            ctx.trivial()
            continue
        # and at the ends, where the method may step outside, the polynomial pieces extend
        for name, k, l in (("uu", 2, 0), ("vv", 0, 2), ("uv", 1, 1)):
            c, r = envelope(s, ku, kv, u, v, k, l)
            got = np.asarray(getattr(srf, "second_derivative_" + name)(np.array([u, v])))
            require(np.all(np.abs(got - c) <= r * 1.5 + 1e-9 * size / H ** 2 * 0.1 + 1e-9), "second_derivative_%s(%r, %r) = %s, the derivative around there is %s +- %s",
                    name, u, v, got.tolist(), c.tolist(), r.tolist())


@facet(FACETS, lambda: st.tuples(gen.curve(), gen.curve(), gen.unit(), gen.unit()), 300, 3000)
def ruled(case, ctx):
    """derivatives of ruled surfaces: along the rulings and, by the chain rule, along the curves"""
    from mmcore.geom.parametric import Ruled
    c0, c1, u, v = case
    k0, k1 = gen.curve_knots(c0), gen.curve_knots(c1)
    srf = Ruled(mk_curve(c0), mk_curve(c1))
    l0, l1 = k0[-1] - k0[0], k1[-1] - k1[0]
    t0, t1 = u * l0 + k0[0], u * l1 + k1[0]
    if any(abs(t0 - x) < 1e-7 and x not in (k0[0], k0[-1]) for x in k0) or any(abs(t1 - x) < 1e-7 and x not in (k1[0], k1[-1]) for x in k1):
        ctx.trivial()
        return
    D0, D1 = oracle.curve_derivs(c0, k0, min(t0, k0[-1]), 2), oracle.curve_derivs(c1, k1, min(t1, k1[-1]), 2)
    uv = np.array([u, v])
    from .c03 import bound as cb
    B = [max(a, b) for a, b in zip(cb(c0, k0, D0), cb(c1, k1, D1))]
    for name, want, sc in (("derivative_v", D1[0] - D0[0], B[0]), ("derivative_u", (1 - v) * l0 * D0[1] + v * l1 * D1[1], B[1] * max(l0, l1)),
                           ("second_derivative_uu", (1 - v) * l0 ** 2 * D0[2] + v * l1 ** 2 * D1[2], B[2] * max(l0, l1) ** 2),
                           ("second_derivative_vv", np.zeros(3), 1.0)):
        got = np.asarray(getattr(srf, name)(uv))
        require(np.all(np.abs(got - want) <= 1e-6 * sc), "%s(%r, %r) = %s, exact %s", name, u, v, got.tolist(), want.tolist())


@facet(FACETS, lambda: st.tuples(gen.points(4), gen.unit(), gen.unit()), 200, 2000)
def bilinear(case, ctx):
    """derivatives of bilinear surfaces"""
    from mmcore.geom.parametric import BiLinear
    (a, b, c, d), u, v = case
    srf = BiLinear(a, b, c, d)
    a, b, c, d = map(np.array, (a, b, c, d))
    for name, want in (("derivative_u", (1 - v) * (b - a) + v * (c - d)), ("derivative_v", (1 - u) * (d - a) + u * (c - b)),
                       ("second_derivative_uv", a - b + c - d), ("second_derivative_uu", np.zeros(3)), ("second_derivative_vv", np.zeros(3))):
        got = np.asarray(getattr(srf, name)(np.array([u, v])))
        require(oracle.close(got, want, 1e-11, 100), "%s(%r, %r) = %s, exact %s", name, u, v, got.tolist(), want.tolist())
