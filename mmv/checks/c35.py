"""Finite differences, Newton's method, quadrature and searches for roots and minima against exact answers."""
import importlib
import math
import warnings
import numpy as np
from hypothesis import strategies as st
from mmcore.numeric.algorithms import surface_area as sa
from mmcore.numeric import bisection as bs
from mmcore.numeric import calgorithms as ca
from mmcore.numeric import divide_and_conquer as dc
from mmcore.numeric.integrate.romberg import romberg1d
from mmcore.numeric.newton import bounded as nb
from mmcore.numeric.newton import cnewton

from ..core import facet, require
from .c21 import near, rot, unit_quaternion, vec3

fdm = importlib.import_module("mmcore.numeric.fdm")

FACETS = []
RULE = "Polynomials in one to four variables with integer or real coefficients, convex functions with a known minimum, systems with a known solution and rows in any order; trivial for constants and where the search starts at the answer."
ASSUMPTIONS = ["minima are claimed for convex functions started within reach of Newton's method, and for separable ones where the search halves boxes", "roots are claimed where they are separated by more than the step of the search", "an integral is claimed for polynomials that the first steps settle and for the exponential function"]

def num(lim=4):
    return st.one_of(st.integers(-lim, lim), st.floats(-lim, lim).map(lambda x: round(x, 6)))

@st.composite
def polys(draw):
    n = draw(st.integers(1, 4))
    terms = draw(st.lists(st.tuples(num(), st.lists(st.integers(0, 3), min_size=n, max_size=n)), min_size=1, max_size=6))
    terms = [[c, e] for c, e in terms if sum(e) <= 3]
    rows = draw(st.integers(1, 4))
    return {"n": n, "terms": terms or [[1, [1] + [0] * (n - 1)]], "p": draw(st.one_of(st.lists(st.integers(-4, 4), min_size=n, max_size=n), st.lists(st.floats(-4, 4), min_size=n, max_size=n))),
            "more": [[draw(num()) for _ in range(n)] for _ in range(rows)], "h": draw(st.sampled_from([None, 1e-2, 1e-3, 1e-4]))}

def poly(terms):
    return lambda p: sum(c * math.prod(p[i] ** k for i, k in enumerate(e) if k) for c, e in terms)

def diff(terms, i):
    return [[c * e[i], [k - (j == i) for j, k in enumerate(e)]] for c, e in terms if e[i]]

def bound(terms, p, h):
    m = 1 + max(abs(float(x)) for x in p)
    return 6 * (1 + sum(abs(c) for c, _ in terms)) * m ** 3

@facet(FACETS, polys, 400, 6000)
def differences(case, ctx):
    """derivatives, gradients, Jacobians and Hessians by finite differences agree with the exact ones of cubic polynomials up to the square of the step, one point or many, whole numbers or not; the point is left as it was"""
    n, terms, h = case["n"], case["terms"], case["h"]
    f = poly(terms)
    if all(not any(e) for _, e in terms):
        ctx.trivial()
    whole = all(isinstance(x, int) for x in case["p"])
    ctx.label("integer point" if whole else "real point", "%d variables" % n)
    p = np.array(case["p"])
    before = p.copy()
    g = [float(poly(diff(terms, i))(p)) for i in range(n)]
    H = [[float(poly(diff(diff(terms, i), j))(p)) for j in range(n)] for i in range(n)]
    m = bound(terms, case["p"], h)
    kw = {} if h is None else {"h": h}
    def same(got, want, err, what):
        got, want = np.asarray(got, float), np.asarray(want, float)
        require(got.shape == want.shape and np.abs(got - want).max() <= err, "%s at %s is %s, and should be %s within %s", what, case["p"], got.tolist(), want.tolist(), err)
    k = h or fdm.DEFAULT_H
    e1 = m * (k * k + 1e-15 / k)
    e2 = m * (k * k + 2e-15 / k / k)
    same(fdm.gradient(f, p, **kw), g, e1, "gradient")
    same(fdm.hessian(f, p, **kw), H, e2, "hessian")
    same(fdm.Hess(f, **kw)(p), H, e2, "Hess")
    same(fdm.Grad(f)(p.astype(float), **kw), g, e1, "Grad")
    for way in ("forward", "backward"):
        same(fdm.Grad(f)(p, method=way, **kw), g, m * (k + 1e-15 / k), "Grad, %s," % way)
    require(np.array_equal(p, before), "the point %s was changed to %s", before.tolist(), p.tolist())
    q = p.astype(float)
    c1 = h or 1e-7
    same(cnewton.gradient(f, q, **kw), g, m * (c1 * c1 + 1e-15 / c1), "cnewton.gradient")
    same(cnewton.hessian(f, q, h or 1e-4), H, m * ((h or 1e-4) ** 2 + 2e-15 / (h or 1e-4) ** 2), "cnewton.hessian")
    same(cnewton.hessian(f, q), H, m * 5e-5, "cnewton.hessian without a step")
    require(np.array_equal(q, before), "the point %s was changed to %s", before.tolist(), q.tolist())
    many = np.array(case["more"])
    m2 = bound(terms, [x for r in case["more"] for x in r], h)
    same(fdm.gradient_multi(f, many, **kw), [[float(poly(diff(terms, i))(r)) for i in range(n)] for r in case["more"]], m2 * (k * k + 1e-15 / k), "gradient_multi")
    same(fdm.hessian_multi(f, many, **kw), [[[float(poly(diff(diff(terms, i), j))(r)) for j in range(n)] for i in range(n)] for r in case["more"]], m2 * (k * k + 2e-15 / k / k), "hessian_multi")
    # a system: the gradient of each variable scaled by its number, plus the polynomial
    F = lambda x: np.array([f(x) * (i + 1) + x[i] ** 2 for i in range(n)])
    J = [[g[j] * (i + 1) + (2 * float(p[i]) if i == j else 0) for j in range(n)] for i in range(n)]
    same(fdm.jac(F, **kw)(q), J, n * e1 + n * m * 1e-14 / k, "jac")

@st.composite
def graphs(draw):
    co = st.lists(num(), min_size=4, max_size=4)
    a = draw(st.integers(-3, 3))
    return {"c": [draw(co) for _ in range(3)], "t": draw(st.one_of(st.integers(-3, 3), st.floats(-3, 3))), "dom": [a, a + draw(st.integers(1, 4))], "u": draw(st.sampled_from([0, 1, 0.5, 1e-4, 1 - 1e-4, 0.3])), "h": draw(st.sampled_from([1e-2, 1e-3, 1e-4]))}

@facet(FACETS, graphs, 300, 4000)
def along_curves(case, ctx):
    """the derivative of a curve in one parameter is exact up to the order of its formula, never leaves the domain when it is given, and the slopes are ratios of its components; tangent and curvature of a curve follow from two derivatives"""
    C = np.array(case["c"], float)
    t, h = case["t"], case["h"]
    f = lambda x: np.array([np.polynomial.polynomial.polyval(x, c) for c in C])
    d = lambda x, k=1: np.array([np.polynomial.polynomial.polyval(x, np.polynomial.polynomial.polyder(c, k)) for c in C])
    if not np.any(C[:, 1:]):
        ctx.trivial()
    m = 200 * (1 + np.abs(C).max())
    for way, err in (("central", h * h), ("forward", h), ("backward", h)):
        near(fdm.fdm(f, way, h)(t), d(t), m * (err + 1e-15 / h), "fdm, %s" % way)
        near(fdm.FDM(f)(t, h=h, method=way), d(t), m * (err + 1e-15 / h), "FDM, %s" % way)
    near(fdm.derivate(f, t, h=h), d(t), m * (h * h + 1e-15 / h), "derivate")
    a, b = case["dom"]
    s = a + case["u"] * (b - a)
    ctx.label("at an end" if s in (a, b) else "near an end" if min(s - a, b - s) <= h else "inside")
    asked = []
    def inside(x):
        asked.append(x)
        return f(x)
    near(fdm.bounded_fdm(inside, h, (a, b))(s), d(s), m * (h + 1e-15 / h), "bounded_fdm")
    require(all(a <= x <= b for x in asked), "bounded_fdm on [%s, %s] at %s asked for %s", a, b, s, asked)
    D = d(t)
    if np.abs(D).min() > 0.1:
        F = fdm.FDM(f)
        for name, want in (("dydx", D[1] / D[0]), ("dzdx", D[2] / D[0]), ("dzdy", D[2] / D[1])):
            got = float(np.ravel(getattr(F, name)(t))[0])
            require(abs(got - want) <= 1e-2 * (1 + abs(want)) * (1 + np.abs(C).max()), "%s is %s, and should be %s", name, got, want)
    d1, d2 = d(t), d(t, 2)
    tan, T, K = np.zeros(3), np.zeros(3), np.zeros(3)
    ca.evaluate_tangent(d1, d2, tan)
    ok = ca.evaluate_curvature(d1, d2, T, K)
    l1, l2 = np.linalg.norm(d1), np.linalg.norm(d2)
    if l1 > 1e-6:
        near(tan, d1 / l1, 1e-12, "evaluate_tangent")
        near(T, d1 / l1, 1e-12, "the tangent of evaluate_curvature")
        require(ok, "evaluate_curvature reports no curvature for the derivative %s", d1.tolist())
        near(K, np.cross(np.cross(d1, d2), d1) / l1 ** 4, 1e-9 * (1 + l2 / l1 ** 2), "evaluate_curvature")
    elif l1 == 0 and l2 > 1e-6:
        near(tan, d2 / l2, 1e-12, "evaluate_tangent")
        near(T, d2 / l2, 1e-12, "the tangent of evaluate_curvature")
        require(not ok, "evaluate_curvature reports a curvature for a zero derivative")

@st.composite
def bowls(draw):
    n = draw(st.integers(1, 4))
    diag = [draw(st.floats(0.2, 5)) for _ in range(n)]
    mix = [[draw(num(1)) for _ in range(n)] for _ in range(n)]
    return {"d": diag, "m": mix, "at": [draw(st.floats(-3, 3)) for _ in range(n)], "start": draw(st.one_of(st.lists(st.integers(-3, 3), min_size=n, max_size=n), st.lists(st.floats(-3, 3), min_size=n, max_size=n))), "quartic": draw(st.sampled_from([0, 0, 0.05])),
            "low": draw(st.sampled_from([0, 0, 1, 100, -50])), "box": [draw(st.tuples(st.floats(-4, 0), st.floats(0.5, 4))) for _ in range(n)], "scale": draw(st.sampled_from([1, 1, 0.05, 20]))}

@facet(FACETS, bowls, 250, 3000)
def minimum(case, ctx):
    """Newton's method in all its versions finds the minimum of a convex function, whatever its value there; within bounds it stays in them, never climbs, and finds the minimum when it is inside"""
    n = len(case["d"])
    M = np.array(case["m"], float)
    A = M.T @ M * 0.3 + np.diag(case["d"])
    at, s = np.array(case["at"]), case["scale"]
    def f(p):
        v = np.asarray(p, float) - at
        return float(s * (v @ A @ v + case["quartic"] * (v @ v) ** 2) + case["low"])
    start = np.array(case["start"])
    if np.abs(start - at).max() < 1e-3:
        ctx.trivial()
    ctx.label("quartic" if case["quartic"] else "quadratic", "minimum %s" % case["low"])
    rough = 1e-5 + 2e-8 * abs(case["low"]) / s
    before = start.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for name, got in (("fdm.newtons_method", fdm.newtons_method(f, start, tol=1e-6)), ("cnewton.newtons_method", cnewton.newtons_method(f, start.astype(float), tol=1e-6))):
            if got is None:
                require(abs(case["low"]) / s >= 40, "%s finds no minimum from %s", name, start.tolist())
                ctx.label("None")
                continue
            near(got, at, rough, name)
        require(np.array_equal(start, before), "the start %s was changed to %s", before.tolist(), start.tolist())
        def F(P):
            V = P.T - at
            return s * (np.einsum("ij,jk,ik->i", V, A, V) + case["quartic"] * np.sum(V * V, axis=1) ** 2)
        many = np.array([start.astype(float), at + 0.5, at - 1])
        got = np.asarray(fdm.multi_newtons_method(F, many, tol=1e-10), float)
        near(got, np.tile(at, (3, 1)), 1e-4, "multi_newtons_method")
        grad = lambda p: 2 * s * (A @ (np.asarray(p) - at)) + 4 * s * case["quartic"] * ((p - at) @ (p - at)) * (p - at)
        hess = lambda p: 2 * s * A + 4 * s * case["quartic"] * (((p - at) @ (p - at)) * np.eye(n) + 2 * np.outer(p - at, p - at))
        near(fdm.newtons_method(f, start, tol=1e-9, grad=grad, hess=hess), at, 1e-8, "newtons_method with derivatives")
        box = case["box"]
        lo, hi = np.array(box).T
        r = nb.bounded_newtons_method(f, start, box, no_warn=True, grad=grad, hess=hess)
        first = np.clip(start, lo, hi)
        if r is None:
            ctx.label("bounded: None")
            require(np.any(at <= lo) or np.any(at >= hi), "bounded_newtons_method finds nothing in %s from %s", box, start.tolist())
        else:
            require(np.all(np.asarray(r) >= lo) and np.all(np.asarray(r) <= hi), "bounded_newtons_method leaves %s for %s", box, np.asarray(r).tolist())
            require(f(r) <= f(first) + 1e-9 * (1 + abs(f(first))), "bounded_newtons_method climbs from %s to %s", f(first), f(r))
            if np.all(at > lo + 1e-3) and np.all(at < hi - 1e-3):
                inside = np.all(first > lo) and np.all(first < hi)
                ctx.label("minimum inside")
                if inside and not case["quartic"]:
                    near(r, at, 1e-6, "bounded_newtons_method")
        d = -grad(first)
        alpha, x, ok = nb.line_search_strong_wolfe(f, grad, list(first), list(d))
        if ok:
            g0 = float(d @ -d)
            require(f(x) <= f(first) + 1e-4 * alpha * g0 + 1e-12 * (1 + abs(f(first))), "the line search ends higher than Armijo allows")
            require(abs(d @ grad(np.array(x))) <= 0.9 * abs(g0) * (1 + 1e-9), "the line search ends with the slope %s of %s", d @ grad(np.array(x)), g0)
            near(x, first + alpha * d, 1e-9 * (1 + np.abs(alpha * d).max()), "the point of the line search")
        else:
            require(np.linalg.norm(d) < 1e-3 or abs(case["low"]) > 10, "the line search fails from %s along %s", first.tolist(), d.tolist())

@st.composite
def systems(draw):
    n = draw(st.integers(1, 5))
    perm = draw(st.permutations(range(n)))
    rows = [[draw(st.sampled_from([0, 0, 1, -1, 0.5])) for _ in range(n)] for _ in range(n)]
    return {"n": n, "perm": list(perm), "rows": rows, "diag": [draw(st.sampled_from([1, 2, -3, 0.5])) for _ in range(n)], "x": [draw(num()) for _ in range(n)], "start": [draw(num()) for _ in range(n)], "bend": draw(st.sampled_from([0, 0, 0.02]))}

@facet(FACETS, systems, 300, 4000)
def equations(case, ctx):
    """Newton's method for systems finds the solution with the equations in any order, from the exact Jacobian and from the numerical one, and says so when the Jacobian is singular"""
    n = case["n"]
    A = np.array(case["rows"], float) * 0.3
    A[np.diag_indices(n)] = 0
    A = np.diag(case["diag"]) + A * 0.8 / max(n - 1, 1)
    A = A[case["perm"]]
    if n == 1:
        ctx.trivial()
    if np.linalg.cond(A) > 1e4:
        ctx.trivial()
        return
    ctx.label("rows in order" if case["perm"] == sorted(case["perm"]) else "rows exchanged", "bent" if case["bend"] else "linear")
    x = np.array(case["x"], float)
    b = case["bend"]
    f = lambda p: A @ (p - x) + b * (A @ np.sin(p - x))
    J = lambda p: A + b * A * np.cos(p - x)
    start = np.array(case["start"], float)
    for how, jac, tol in (("exact", J, 1e-9), ("numerical", fdm.jac(f, 1e-4), 1e-9)):
        near(cnewton.newton_method2(f, jac, start, tol=tol), x, 1e-7, "newton_method2, %s Jacobian" % how)
    require(start.tolist() == [float(v) for v in case["start"]], "the start was changed to %s", start.tolist())
    S = A.copy()
    S[:, 0] = 0
    try:
        got = cnewton.newton_method2(lambda p: S @ (p - x) + 1, lambda p: S, start, tol=1e-12)
    except ValueError:
        return
    require(np.linalg.norm(S @ (got - x) + 1) < 1e-6, "a singular system is answered by %s", got.tolist())

@st.composite
def integrands(draw):
    a = draw(num(3))
    b = draw(st.one_of(num(3), st.floats(0.1, 3).map(lambda d: a - d), st.floats(0.1, 3).map(lambda d: a + d)))
    return {"c": draw(st.lists(num(5), min_size=1, max_size=6)), "ab": [a, b], "e": draw(st.sampled_from([0, 0, 0.5, -1, 2])), "acc": draw(st.sampled_from([1e-4, 1e-7, 1e-10])), "steps": draw(st.sampled_from([4, 8, 16, 20]))}

@facet(FACETS, integrands, 300, 5000)
def quadrature(case, ctx):
    """Romberg's method integrates polynomials and the exponential function to the accuracy asked for, in either direction; the integral of a sum of intervals is the sum of the integrals"""
    P = np.polynomial.polynomial.Polynomial([float(x) for x in case["c"]])
    a, b = map(float, case["ab"])
    e = case["e"] if case["steps"] >= 8 else 0
    f = lambda t: float(P(t)) + (math.exp(e * t) if e else 0)
    I = lambda u, v: float(P.integ()(v) - P.integ()(u)) + ((math.exp(e * v) - math.exp(e * u)) / e if e else 0)
    if a == b or (len(case["c"]) == 1 and not e):
        ctx.trivial()
    ctx.label("backwards" if b < a else "empty" if a == b else "forwards", "exponential" if e else "polynomial")
    err = case["acc"] + 1e-12 * (1 + sum(abs(x) for x in case["c"])) * 4 ** 6
    got = romberg1d(f, a, b, case["steps"], case["acc"])
    require(abs(got - I(a, b)) <= err, "the integral from %s to %s is %s, and should be %s within %s", a, b, got, I(a, b), err)
    mid = (a + 2 * b) / 3
    both = romberg1d(f, a, mid, case["steps"], case["acc"]) + romberg1d(f, mid, b, case["steps"], case["acc"])
    require(abs(both - got) <= 3 * err, "the integral from %s to %s is %s, and in two parts %s", a, b, got, both)
    require(abs(romberg1d(f, b, a, case["steps"], case["acc"]) + got) <= 2 * err, "the integral from %s to %s does not change its sign backwards", a, b)

@st.composite
def lines(draw):
    gaps = draw(st.lists(st.floats(0.2, 1.5), min_size=1, max_size=4))
    a = draw(st.floats(-2, 2))
    where = draw(st.sampled_from(["in", "start", "end"]))
    roots = []
    x = a
    for g in gaps:
        x += g
        roots.append(x)
    end = x + draw(st.floats(0.2, 1))
    return {"roots": roots, "ab": [a, end], "sign": draw(st.sampled_from([1, -1, 3])), "min": {"in": draw(st.floats(0, 1)), "start": 0, "end": 1}[where], "p": draw(st.sampled_from([1, 2, 2, 4])), "k": draw(st.sampled_from([1, 0.1, 5])), "tol": draw(st.sampled_from([1e-2, 1e-3, 1e-5]))}

@facet(FACETS, lines, 200, 3000)
def searches(case, ctx):
    """the searches on an interval find its minimum and maximum wherever they are, the ends included, and every simple root with one near each answer"""
    a, b = case["ab"]
    x0 = a + case["min"] * (b - a)
    ctx.label("end" if case["min"] in (0, 1) else "inside", "%d roots" % len(case["roots"]))
    tol, k, p = case["tol"], case["k"], case["p"]
    f = lambda t: k * np.abs(t - x0) ** p
    g = lambda t: -f(t)
    for name, got in (("iterative", dc.iterative_divide_and_conquer_min(f, (a, b), tol)), ("recursive", dc.recursive_divide_and_conquer_min(f, (a, b), tol)), ("maximum", dc.recursive_divide_and_conquer_max(g, (a, b), tol))):
        require(abs(got[0] - x0) <= tol and abs(abs(got[1]) - f(got[0])) <= 1e-12, "the %s search finds %s, and should find %s", name, got, x0)
    got = bs.scalar_min_1d(f, a, b, step=tol)
    # values within 1e-8 of each other count as equal
    require(abs(got - x0) <= 2 * tol + (2e-8 / k) ** (1 / p), "scalar_min_1d finds %s, and should find %s", got, x0)
    roots = case["roots"]
    F = lambda t: case["sign"] * math.prod(t - r for r in roots)
    step = 0.02
    found, low = bs.bisection1d(F, step=step, start=a, stop=b)
    for r in roots:
        require(any(abs(x - r) <= 1.01 * step for x, _ in found), "bisection1d finds %s, and misses the root %s", found, r)
    for x, v in found:
        require(min(abs(x - r) for r in roots) <= 2.01 * step and v == F(x), "bisection1d finds %s, and the roots are %s", (x, v), roots)
    require(low <= min(F(a), F(b - step)) + 1e-9, "the minimum of bisection1d is %s, and there is %s", low, min(F(a), F(b)))

@st.composite
def boxes(draw):
    n = draw(st.integers(2, 4))
    box = []
    for _ in range(n):
        a = draw(num(2))
        box.append([a, a + draw(st.sampled_from([1, 2, 0.5, 3]))])
    return {"box": box, "at": [draw(st.one_of(st.sampled_from([0, 1, 0.5]), st.floats(0, 1))) for _ in range(n)], "k": [draw(st.sampled_from([1, 1, 3, 0.5])) for _ in range(n)], "wells": [[draw(st.integers(0, 3)), draw(st.integers(0, 3))] for _ in range(draw(st.integers(1, 3)))]}

@facet(FACETS, boxes, 60, 800)
def in_boxes(case, ctx):
    """the minimum of a separable convex function over a box is found wherever it is, corners included, in any number of variables; the search for all minima finds each well once"""
    box = case["box"]
    n = len(box)
    at = [a + u * (b - a) for (a, b), u in zip(box, case["at"])]
    f = lambda *p: sum(k * (x - c) ** 2 for k, x, c in zip(case["k"], p, at))
    ctx.label("%d variables" % n, "at a side" if any(u in (0, 1) for u in case["at"]) else "inside")
    tol = 1e-4 if n < 4 else 1e-2
    near(dc.divide_and_conquer_min_nd(f, [tuple(b) for b in box], tol), at, 2 * tol, "divide_and_conquer_min_nd")
    if n == 2:
        near(dc.divide_and_conquer_min_2d(f, *box, tol), at, 2 * tol, "divide_and_conquer_min_2d")
    if n == 3:
        near(dc.divide_and_conquer_min_3d(f, *box, tol), at, 2 * tol, "divide_and_conquer_min_3d")
    wells = sorted({tuple(w) for w in case["wells"]})
    # a product of paraboloids, at least one apart
    W = lambda x, y: math.prod((x - a) ** 2 + (y - b) ** 2 for a, b in wells)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        found = dc.find_all_minima(W, (-1, 4), (-1, 4), grid_density=9, tol=1e-5)
    hit = [tuple(int(round(c)) for c in m[:2]) for m in found]
    for m, h in zip(found, hit):
        require(math.dist(m[:2], h) <= 1e-3 and h in wells, "find_all_minima finds %s, and the minima are %s", m, wells)
    require(len(set(hit)) == len(hit), "find_all_minima finds a minimum twice: %s", found)
    require(set(hit) == set(wells), "find_all_minima finds %s of the minima %s", found, wells)
    for H, want in (([[2, 1], [1, 3]], 1), ([[-2, 1], [1, -3]], 2), ([[2, 3], [3, 2]], 3), ([[-1, 2], [2, 5]], 3), ([[1, 1], [1, 1]], 0)):
        require(int(fdm.classify_critical_point_2d(np.array(H, float))) == want, "a critical point with the Hessian %s is of the kind %s", H, fdm.classify_critical_point_2d(np.array(H, float)))

@st.composite
def slopes(draw):
    n = draw(st.integers(1, 3))
    v = lambda lo, hi, k=n: draw(st.lists(st.floats(lo, hi).map(lambda x: round(x, 3)), min_size=k, max_size=k))
    return {"A": [v(-2, 2) for _ in range(3)], "ph": v(0, 6.28, 3), "k": v(0, 2, 3), "q": v(0.05, 0.5, 1)[0], "s": draw(st.sampled_from([0.1, 1, 10])), "x": v(-4, 4), "turn": v(-0.5, 0.5), "len": draw(st.sampled_from([0.03, 0.1, 0.3, 1, 3])), "box": v(0, 1, 2 * n)}

@facet(FACETS, slopes, 300, 5000)
def line_searches(case, ctx):
    """along a direction of descent of a wavy function the search succeeds, at a point that is lower and flatter as Wolfe asks, on the line; within bounds it keeps to them; uphill it refuses"""
    A, k, ph, q, s = np.array(case["A"]), np.array(case["k"]), np.array(case["ph"]), case["q"], case["s"]
    f = lambda x: float(s * (q * np.dot(x, x) + (k * np.cos(A @ np.asarray(x) + ph)).sum()))
    g = lambda x: s * (2 * q * np.asarray(x) - A.T @ (k * np.sin(A @ np.asarray(x) + ph)))
    x = np.array(case["x"])
    d = -g(x)
    size = np.linalg.norm(d)
    d = (d + np.array(case["turn"]) * size) * case["len"]
    slope = d @ g(x)
    if size < 1e-2 or slope > -1e-2 * np.linalg.norm(d) * size:
        return ctx.trivial()
    free = np.full(len(x), 1e9)
    for name, (alpha, p, ok) in (("line_search_strong_wolfe", nb.line_search_strong_wolfe(f, g, list(x), list(d))), ("line_search", nb.line_search(f, g, x, d, -free, free))):
        p = np.asarray(p)
        require(ok, "%s fails from %s along %s", name, x.tolist(), d.tolist())
        require(f(p) <= f(x) + 1e-4 * alpha * slope + 1e-12 * (1 + abs(f(x))), "%s ends higher than Armijo allows", name)
        require(abs(d @ g(p)) <= 0.9 * abs(slope) + 1e-12, "%s ends with the slope %s of %s", name, d @ g(p), slope)
        near(p, x + alpha * d, 1e-9 * (1 + np.abs(alpha * d).max()), name + ": the point")
        ctx.label("step 1" if alpha == 1 else "longer" if alpha > 1 else "shorter")
    lo, hi = x - np.array(case["box"][:len(x)]), x + np.array(case["box"][len(x):])
    alpha, p, ok = nb.line_search(f, g, x, d, lo, hi)
    require((p >= lo).all() and (p <= hi).all(), "the line search leaves the bounds for %s", p.tolist())
    if ok:
        require(f(p) <= f(x) + 1e-4 * alpha * slope + 1e-12 * (1 + abs(f(x))), "within bounds the line search ends higher than Armijo allows")
        near(p, np.clip(x + alpha * d, lo, hi), 1e-9 * (1 + np.abs(alpha * d).max()), "the point within bounds")
    for name, r in (("line_search_strong_wolfe", nb.line_search_strong_wolfe(f, g, list(x), list(-d))), ("line_search", nb.line_search(f, g, x, -d, -free, free))):
        require(not r[2] and r[0] == 0 and np.array_equal(r[1], x), "%s goes uphill: %s", name, r)

@st.composite
def patches(draw):
    span = st.tuples(st.floats(-3, 3), st.floats(0.1, 2.5)).map(lambda t: [round(t[0], 3), round(t[0] + t[1], 3)])
    return {"kind": draw(st.sampled_from(["torus", "torus", "plane", "sphere"])), "u": draw(span), "v": draw(span), "R": draw(st.sampled_from([1.5, 3, 10])), "r": draw(st.sampled_from([0.3, 1.0])),
            "exact": draw(st.booleans()), "a": draw(vec3()), "b": draw(vec3()), "whole": draw(st.booleans())}

class Exact:
    """a surface that knows its derivatives"""
    def __init__(self, f, fu, fv, box):
        self.f, self.derivative_u, self.derivative_v, self.box = f, fu, fv, box

    def interval(self):
        return self.box

@facet(FACETS, patches, 60, 800)
def areas(case, ctx):
    """the area of a part of a torus, a sphere or a plane over a rectangle of its domain, given as a function or with derivatives, is the exact one"""
    (u0, u1), (v0, v1), R, r = case["u"], case["v"], float(case["R"]), case["r"]
    kind = case["kind"]
    ctx.label(kind, "exact" if case["exact"] else "differences")
    cos, sin = math.cos, math.sin
    if kind == "plane":
        a, b = np.array(case["a"], float), np.array(case["b"], float)
        want = float(np.linalg.norm(np.cross(a, b))) * (u1 - u0) * (v1 - v0)
        if want < 1e-3:
            return ctx.trivial()
        f, fu, fv = (lambda p: p[0] * a + p[1] * b + 1), (lambda p: a), (lambda p: b)
        scale = np.linalg.norm(a) * np.linalg.norm(b) + want
    else:
        if kind == "sphere":
            v0, v1 = max(v0, -1.4), min(v1, 1.4)  # away from the poles
            R, r = 0.0, R
            if v1 - v0 < 0.05:
                return ctx.trivial()
        f = lambda p: np.array([(R + r * cos(p[1])) * cos(p[0]), (R + r * cos(p[1])) * sin(p[0]), r * sin(p[1])])
        fu = lambda p: np.array([-(R + r * cos(p[1])) * sin(p[0]), (R + r * cos(p[1])) * cos(p[0]), 0.0])
        fv = lambda p: np.array([-r * sin(p[1]) * cos(p[0]), -r * sin(p[1]) * sin(p[0]), r * cos(p[1])])
        want = r * (u1 - u0) * (R * (v1 - v0) + r * (sin(v1) - sin(v0)))
        scale = r * (R + r) * (u1 - u0) * (v1 - v0)
    box = ((u0, u1), (v0, v1))
    if case["exact"]:
        S = Exact(f, fu, fv, box)
        got = sa.surface_rect_area(S) if case["whole"] else sa.surface_rect_area(S, box)
    else:
        got = sa.surface_rect_area(f, box)
    near(got[0], want, (1e-7 if case["exact"] or kind == "plane" else 4e-3) * scale, "area of a %s over %s" % (kind, box))
