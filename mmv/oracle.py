"""Reference models, written from the definitions and independent of the code under test."""
from fractions import Fraction as F
from math import comb

import numpy as np


def span_of(knots, degree, t):
    """The last non-degenerate span whose left end is <= t (right end of the domain: the last one)."""
    n = len(knots) - degree - 1
    lo = degree
    for i in range(degree, n):
        if knots[i] <= t and knots[i] < knots[i + 1]:
            lo = i
    return lo


def de_boor(knots, degree, ctrl, t):
    """B-spline value, exact: ctrl is a list of vectors, numbers or Fractions."""
    k = span_of(knots, degree, t)
    t = F(t)
    U = [F(x) for x in knots]
    d = [[F(x) for x in ctrl[j + k - degree]] for j in range(degree + 1)]
    for r in range(1, degree + 1):
        for j in range(degree, r - 1, -1):
            den = U[j + 1 + k - r] - U[j + k - degree]
            a = (t - U[j + k - degree]) / den
            d[j] = [(1 - a) * x + a * y for x, y in zip(d[j - 1], d[j])]
    return d[degree]


def homog(points, weights):
    if weights is None:
        weights = [1.0] * len(points)
    return [[F(x) * F(w) for x in p] + [F(w)] for p, w in zip(points, weights)]


def curve_point(c, knots, t):
    h = de_boor(knots, c["degree"], homog(c["points"], c["weights"]), t)
    return np.array([float(x / h[-1]) for x in h[:-1]])


def deriv_ctrl(knots, degree, ctrl):
    """Control points and knots of the derivative B-spline (zero-length spans give zero)."""
    out = []
    for i in range(len(ctrl) - 1):
        den = F(knots[i + degree + 1]) - F(knots[i + 1])
        out.append([degree * (y - x) / den if den else F(0) for x, y in zip(ctrl[i], ctrl[i + 1])])
    return knots[1:-1], out


def homog_derivs(knots, degree, ctrl, t, order):
    """Derivatives 0..order of the homogeneous B-spline at t (from the right at a knot, from the left at the end)."""
    return homog_derivs_in(knots, degree, ctrl, t, span_of(knots, degree, t), order)


def homog_derivs_in(knots, degree, ctrl, t, k, order):
    """The same, for the polynomial piece of span k."""
    res, kn, cp, deg = [], list(knots), ctrl, degree
    kk = k
    for o in range(order + 1):
        if deg < 0:
            res.append([F(0)] * len(ctrl[0]))
            continue
        res.append(_de_boor_at(kn, deg, cp, t, kk))
        if deg == 0:
            deg = -1
            continue
        kn, cp = deriv_ctrl(kn, deg, cp)
        deg -= 1
        kk -= 1
    return res


def _de_boor_at(knots, degree, ctrl, t, k):
    t = F(t)
    U = [F(x) for x in knots]
    d = [list(ctrl[j + k - degree]) for j in range(degree + 1)]
    for r in range(1, degree + 1):
        for j in range(degree, r - 1, -1):
            den = U[j + 1 + k - r] - U[j + k - degree]
            a = (t - U[j + k - degree]) / den
            d[j] = [(1 - a) * x + a * y for x, y in zip(d[j - 1], d[j])]
    return d[degree]


def curve_derivs(c, knots, t, order):
    """Derivatives 0..order of the (rational) curve, as floats, from exact arithmetic."""
    H = homog_derivs(knots, c["degree"], homog(c["points"], c["weights"]), t, order)
    w = [h[-1] for h in H]
    out = []
    for k in range(order + 1):
        v = list(H[k][:-1])
        for i in range(1, k + 1):
            v = [x - comb(k, i) * w[i] * y for x, y in zip(v, out[k - i])]
        out.append([x / w[0] for x in v])
    return np.array([[float(x) for x in v] for v in out])


def surf_homog(s):
    w = s["weights"]
    return [[[F(x) * F(w[i][j] if w else 1.0) for x in p] + [F(w[i][j] if w else 1.0)] for j, p in enumerate(row)]
            for i, row in enumerate(s["points"])]


def surf_point(s, ku, kv, u, v):
    p, q = s["degree"]
    H = surf_homog(s)
    rows = [de_boor(kv, q, row, v) for row in H]
    h = de_boor(ku, p, rows, u)
    return np.array([float(x / h[-1]) for x in h[:-1]])


def surf_derivs(s, ku, kv, u, v, order):
    """A[k][l] = d^(k+l)S/du^k dv^l, k+l<=order."""
    p, q = s["degree"]
    H = surf_homog(s)
    rows = [homog_derivs(kv, q, row, v, order) for row in H]  # rows[i][l]
    Aw = [[None] * (order + 1) for _ in range(order + 1)]
    for l in range(order + 1):
        col = homog_derivs(ku, p, [r[l] for r in rows], u, order)
        for k in range(order + 1):
            Aw[k][l] = col[k]
    S = [[None] * (order + 1) for _ in range(order + 1)]
    W = lambda i, j: Aw[i][j][-1]
    for k in range(order + 1):
        for l in range(order + 1 - k):
            val = list(Aw[k][l][:-1])
            for i in range(k + 1):
                for j in range(l + 1):
                    if i or j:
                        f = comb(k, i) * comb(l, j) * W(i, j)
                        val = [x - f * y for x, y in zip(val, S[k - i][l - j])]
            S[k][l] = [x / W(0, 0) for x in val]
    return [[None if x is None else np.array([float(y) for y in x]) for x in r] for r in S]


def close(a, b, rel=1e-9, scale=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    m = max(1.0, scale, float(np.max(np.abs(b))) if b.size else 0.0)
    return bool(np.all(np.abs(a - b) <= rel * m))  # NaN compares false
