"""Polynomial patches: Bernstein and monomial forms, their derivatives, cross products and normals, Gauss maps."""
import importlib
import math
import subprocess
import sys
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from mmcore.geom.nurbs import NURBSSurface
from mmcore.geom.curves import knot as mk
from mmcore.numeric import monomial as mo
from mmcore.numeric.binom import binomial_coefficient_py

from ..core import facet, require
from .c21 import near

FACETS = []
RULE = "Patches of degree 0 to 5 in either direction, of 1 to 4 components, at parameters inside and outside the unit square; trivial for constant patches."
ASSUMPTIONS = ["the reference evaluates Bernstein polynomials in exact rational arithmetic"]

def coord():
    return st.one_of(st.integers(-6, 6), st.floats(-6, 6).map(lambda x: round(x, 4)))

@st.composite
def patch(draw, top=4, low=0, dim=None):
    n, m = draw(st.integers(low, top)), draw(st.integers(low, top))
    dim = dim or draw(st.integers(1, 4))
    return [[[draw(coord()) for _ in range(dim)] for _ in range(m + 1)] for _ in range(n + 1)]

def par():
    return st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1).map(lambda x: round(x, 4)), st.floats(-1, 2).map(lambda x: round(x, 3)))

def basis(n, t):
    t = Fraction(t)
    return [math.comb(n, i) * t ** i * (1 - t) ** (n - i) for i in range(n + 1)]

def bernstein(cp, u, v):
    n, m, d = np.shape(cp)
    bu, bv = basis(n - 1, u), basis(m - 1, v)
    return np.array([float(sum(bu[i] * bv[j] * Fraction(cp[i][j][k]) for i in range(n) for j in range(m))) for k in range(d)])

def power(c, u, v):
    n, m, d = np.shape(c)
    u, v = Fraction(u), Fraction(v)
    return np.array([float(sum(u ** i * v ** j * Fraction(c[i][j][k]) for i in range(n) for j in range(m))) for k in range(d)])

@st.composite
def forms(draw):
    return {"p": draw(patch(5)), "uv": [draw(par()), draw(par())], "method": draw(st.sampled_from(["mmcore", "scipy"])), "weights": draw(st.lists(st.floats(0.2, 4), min_size=36, max_size=36))}

@facet(FACETS, forms, 250, 4000)
def conversions(case, ctx):
    """Bernstein and monomial forms of a patch are the same polynomial, conversion back and forth gives the same coefficients, rational and homogeneous forms agree"""
    p = np.array(case["p"], float)
    n, m, d = p.shape
    u, v = case["uv"]
    if n * m == 1:
        ctx.trivial()
    ctx.label("degree %d" % (n + m - 2))
    size = (1 + np.abs(p).max()) * 8.0 ** (n + m)
    want = bernstein(p, u, v)
    near(mo.evaluate_bezier_patch(p, u, v), want, 1e-12 * size, "value of the Bezier patch")
    c = mo.bezier_to_monomial(p, bmethod=case["method"])
    near(mo.evaluate_monomial2d(c, u, v), want, 1e-12 * size, "value of its monomial form")
    near(mo.monomial_to_bezier(c, bmethod=case["method"]), p, 1e-12 * size, "Bezier form of its monomial form")
    q = mo.monomial_to_bezier(p, bmethod=case["method"])
    near(bernstein(q, u, v), power(p, u, v), 1e-12 * size, "value of the Bezier form")
    near(mo.evaluate_monomial2d(p, u, v), power(p, u, v), 1e-12 * size, "value of the monomial form")
    require(np.array_equal(p, np.array(case["p"], float)), "a conversion changed its argument")
    if d == 3 and 0 <= min(u, v) and max(u, v) <= 1:
        ctx.label("rational")
        w = np.array(case["weights"][:n * m], float).reshape(n, m)
        H = np.concatenate([p * w[..., None], w[..., None]], axis=2)
        h = bernstein(H, u, v)
        near(mo.evaluate_rational_bezier_patch(p, w, u, v), h[:3] / h[3], 1e-11 * size, "value of the rational patch")
        R = mo.homogeneous_monomial_to_rational_bezier(mo.bezier_to_monomial(H))
        near(R[..., 3], w, 1e-11 * size, "weights from the homogeneous form")
        near(R[..., :3], p, 1e-10 * size, "points from the homogeneous form")

@st.composite
def pairs(draw):
    return {"a": draw(patch(3, dim=3)), "b": draw(patch(3, dim=3)), "uv": [draw(par()), draw(par())]}

@facet(FACETS, pairs, 200, 3000)
def calculus(case, ctx):
    """derivatives, cross products and normals of polynomial patches are those of the polynomials, for functions and for Monomial2D"""
    a, b = (np.array(case[k], float) for k in "ab")
    u, v = case["uv"]
    if a.shape[:2] == (1, 1):
        ctx.trivial()
    A, B = power(a, u, v), power(b, u, v)
    tol = 1e-10 * (1 + np.abs(a).max()) ** 2 * (1 + np.abs(b).max()) * 2.0 ** (sum(a.shape[:2]) * 2 + sum(b.shape[:2]))
    fu, fv = Fraction(u), Fraction(v)
    Du, Dv = (np.array([float(sum((i * fu ** (i - 1) * fv ** j if x else fu ** i * j * fv ** (j - 1)) * Fraction(a[i][j][k])
                                  for i in range(a.shape[0]) for j in range(a.shape[1]) if (i if x else j)))
                        for k in range(3)]) for x in (1, 0))
    N = np.cross(Du, Dv)
    ctx.label("degenerate" if min(a.shape[:2]) == 1 else "patch")
    near(mo.evaluate_monomial2d(mo.cross_product_monomial(a, b), u, v), np.cross(A, B), tol, "cross product")
    du, dv = mo.monomial_partial_derivatives(a)
    near(mo.evaluate_monomial2d(du, u, v), Du, tol, "derivative by u")
    near(mo.evaluate_monomial2d(dv, u, v), Dv, tol, "derivative by v")
    near(mo.evaluate_monomial2d(mo.normal_vector_monomial(a), u, v), N, tol, "normal")
    M = mo.Monomial2D(a)
    uv = np.array([u, v])
    near(M.evaluate(uv), A, tol, "value of Monomial2D")
    near(M.evaluate_v2(u, v), A, tol, "value of Monomial2D at two numbers")
    near(M.cross(mo.Monomial2D(b)).evaluate(uv), np.cross(A, B), tol, "Monomial2D.cross")
    near([x.evaluate(uv) for x in M.monomial_derivatives()], [Du, Dv], tol, "Monomial2D.monomial_derivatives")
    near(M.monomial_normal().evaluate(uv), N, tol, "Monomial2D.monomial_normal")
    size = np.linalg.norm(Du) * np.linalg.norm(Dv)
    if 0.01 <= min(u, v) and max(u, v) <= 0.99 and np.linalg.norm(N) > 0.05 * size + 0.01:
        ctx.label("unit normal")
        near(M.normal(uv), N / np.linalg.norm(N), 2e-3, "Monomial2D.normal")

@st.composite
def surfaces(draw):
    return {"p": draw(patch(4, low=1, dim=3)), "uv": [draw(st.floats(0, 1).map(lambda x: round(x, 4))) for _ in "uv"], "split": draw(st.one_of(st.none(), st.floats(0.1, 0.9))), "side": draw(st.integers(0, 1))}

@facet(FACETS, surfaces, 150, 2000)
def nurbs(case, ctx):
    """a Bezier surface and its Monomial2D are the same surface in both directions; other surfaces are refused; is_bezier tells them apart"""
    g = importlib.import_module("mmcore.numeric.gauss_map")
    p = np.array(case["p"], float)
    u, v = case["uv"]
    deg = (p.shape[0] - 1, p.shape[1] - 1)
    s = NURBSSurface(p, deg)
    tol = 1e-11 * (1 + np.abs(p).max()) * 8.0 ** sum(deg)
    want = bernstein(p, u, v)
    require(bool(g.is_bezier(s)), "a Bezier surface is not is_bezier")
    for name in ("from_bezier", "from_nurbs"):
        M = getattr(mo.Monomial2D, name)(s)
        near(M.evaluate_v2(u, v), want, tol, "Monomial2D.%s" % name)
        for back in ("to_bezier", "to_nurbs"):
            t = getattr(M, back)()
            require(tuple(t.degree) == deg, "degree %s after %s", tuple(t.degree), back)
            near(t.control_points, p, tol, "control points after %s and %s" % (name, back))
            near(t.evaluate_v2(u, v), want, tol, "surface after %s and %s" % (name, back))
    M = mo.Monomial2D.from_bernstein_basis(p)
    near(M.evaluate_v2(u, v), want, tol, "Monomial2D.from_bernstein_basis")
    near(M.to_bernstein_basis(), p, tol, "Monomial2D.to_bernstein_basis")
    if case["split"] is not None:
        side = case["side"]
        ends = [[0.0] * (x + 1) + [1.0] * (x + 1) for x in deg]
        ends[side][deg[side] + 1:deg[side] + 1] = [case["split"]]
        more = np.concatenate([p, p[-1:] + 1.0], axis=0) if side == 0 else np.concatenate([p, p[:, -1:] + 1.0], axis=1)
        s = NURBSSurface(more, deg, np.array(ends[0]), np.array(ends[1]))
        ctx.label("not Bezier")
        require(not g.is_bezier(s), "a surface with a knot inside is_bezier")
        try:
            mo.Monomial2D.from_nurbs(s)
        except NotImplementedError:
            pass
        else:
            require(False, "a surface of two patches became one polynomial")

@st.composite
def gauss(draw):
    p = draw(patch(3, low=1, dim=3))
    n, m = len(p), len(p[0])
    # Mostly graphs over a grid, whose normals do not vanish
    if draw(st.integers(0, 3)):
        p = [[[i + 0.1 * p[i][j][0] / 6, j + 0.1 * p[i][j][1] / 6, p[i][j][2]] for j in range(m)] for i in range(n)]
    return {"p": p, "weights": draw(st.one_of(st.none(), st.lists(st.floats(0.3, 3), min_size=n * m, max_size=n * m))),
            "uv": [[draw(st.floats(0, 1).map(lambda x: round(x, 4))) for _ in "uv"] for _ in range(4)]}

@facet(FACETS, gauss, 150, 2000)
def gauss_maps(case, ctx):
    """the Gauss map of a patch points along its normals everywhere, and its control vectors enclose every normal; that of a rational patch too"""
    g = importlib.import_module("mmcore.numeric.gauss_map")
    p = np.array(case["p"], float)
    n, m, _ = p.shape
    w = None if case["weights"] is None else np.array(case["weights"]).reshape(n, m)
    G = np.array(g.compute_gauss_map(p) if w is None else g.compute_gauss_mapw(p, w))
    require(np.isfinite(G).all(), "Gauss map is not finite")
    W = np.ones((n, m)) if w is None else w
    H = np.concatenate([p * W[..., None], W[..., None]], axis=2)
    ctx.label("polynomial" if w is None else "rational")
    top = np.abs(G).max()
    seen = 0
    for u, v in case["uv"]:
        h = bernstein(H, u, v)
        hu = (n - 1) * bernstein(H[1:] - H[:-1], u, v)
        hv = (m - 1) * bernstein(H[:, 1:] - H[:, :-1], u, v)
        N = np.cross(hu[:3] * h[3] - h[:3] * hu[3], hv[:3] * h[3] - h[:3] * hv[3])
        near(bernstein(G, u, v), N, 1e-9 * (1 + top) * 4.0 ** (n + m), "Gauss map at %s %s" % (u, v))
        if w is None and np.linalg.norm(N) > 1e-3 * (1 + top):
            seen += 1
    if not seen:
        ctx.trivial()
    if w is None and seen and np.linalg.norm(G, axis=2).min() > 1e-9 * (1 + top):
        ctx.label("GaussMap")
        s = NURBSSurface(p, (n - 1, m - 1))
        gm = g.GaussMap.from_surf(s)
        near(np.linalg.norm(np.array(gm._map.control_points), axis=2), np.ones((G.shape[0], G.shape[1])), 1e-9, "length of the vectors of GaussMap")
        C = np.array(gm._map.control_points).reshape(-1, 3)
        from scipy.optimize import nnls
        for u, v in case["uv"]:
            N = bernstein(G, u, v)
            if np.linalg.norm(N) > 1e-3 * (1 + top):
                N /= np.linalg.norm(N)
                # N is a combination of the vectors with no negative coefficient
                require(nnls(C.T, N)[1] < 1e-6, "a normal %s outside the cone of the Gauss map", N)

@st.composite
def elevated(draw):
    n = draw(st.integers(0, 30))
    return {"ij": [draw(st.integers(0, 60)), draw(st.integers(-2, 62))], "n": n, "num": draw(st.one_of(st.integers(1, 6), st.integers(1, 20))), "t": draw(st.floats(0, 1)),
            "pts": [[draw(coord()) for _ in range(3)] for _ in range(n + 1)]}

@facet(FACETS, elevated, 250, 4000)
def binomials(case, ctx):
    """binomial coefficients are exact, also past the table; the degree of a Bezier curve is raised any number of times without moving it"""
    i, j = case["ij"]
    want = math.comb(i, j) if j >= 0 else 0
    ctx.label("past the table" if i > 30 else "table")
    require(binomial_coefficient_py(i, j) == float(want), "binomial %s of %s is %s", j, i, binomial_coefficient_py(i, j))
    p, n, num, t = np.array(case["pts"], float), case["n"], case["num"], case["t"]
    q, d = mk.degree_elevation_bez(p, n, num)
    require(d == n + num and np.shape(q) == (n + num + 1, 3), "degree %s and %s points from degree %s raised by %s", d, np.shape(q), n, num)
    ctx.label("raised past 30" if d > 30 else "raised")
    f = [float(x) for x in basis(n, t)]
    e = [float(x) for x in basis(d, t)]
    near(np.array(e) @ q, np.array(f) @ p, 1e-10 * (1 + np.abs(p).max()), "value after degree elevation")
    near(q[[0, -1]], p[[0, -1]], 1e-10 * (1 + np.abs(p).max()), "ends after degree elevation")

def fresh():
    return st.sampled_from(["mmcore.numeric.gauss_map", "mmcore.numeric.monomial", "mmcore.numeric.binom"])

@facet(FACETS, fresh, 3, 3, cpu=60)
def imports(case, ctx):
    """every module of the polynomial code can be the first one imported"""
    import os
    r = subprocess.run([sys.executable, "-c", "import sys; sys.path[:0] = %r; import %s" % (sys.path, case)], capture_output=True, text=True, env=dict(os.environ))
    require(r.returncode == 0, "importing %s first fails: %s", case, r.stderr[-300:])
