"""Brute-force geometry in floats, independent of the code under test: dense sampling, intersection and distance search."""
import numpy as np

from . import gen


def basis(knots, p, n, t, deriv=0):
    """B-spline basis values (or first derivatives) at many t: a len(t) x n matrix."""
    t = np.atleast_1d(np.asarray(t, float))
    U = np.asarray(knots, float)
    last = max(i for i in range(p, n) if U[i] < U[i + 1])
    N = np.zeros((len(t), len(U) - 1))
    for i in range(p, n):
        if U[i] < U[i + 1]:
            N[:, i] = (U[i] <= t) & ((t < U[i + 1]) | ((i == last) & (t <= U[i + 1])))
    for r in range(1, p + 1):
        M = np.zeros((len(t), len(U) - 1 - r))
        for i in range(len(U) - 1 - r):
            a, b = U[i + r] - U[i], U[i + r + 1] - U[i + 1]
            if deriv and r == p:
                if a > 0:
                    M[:, i] += p / a * N[:, i]
                if b > 0:
                    M[:, i] -= p / b * N[:, i + 1]
            else:
                if a > 0:
                    M[:, i] += (t - U[i]) / a * N[:, i]
                if b > 0:
                    M[:, i] += (U[i + r + 1] - t) / b * N[:, i + 1]
        N = M
    return N[:, :n]


class Curve:
    def __init__(self, c):
        self.p, self.k = c["degree"], gen.curve_knots(c)
        w = c.get("weights") or [1.0] * len(c["points"])
        self.h = np.c_[np.array(c["points"], float) * np.array(w)[:, None], w]
        self.a, self.b = self.k[0], self.k[-1]

    def __call__(self, t):
        h = basis(self.k, self.p, len(self.h), t) @ self.h
        return h[:, :-1] / h[:, -1:]

    def d(self, t):
        h = basis(self.k, self.p, len(self.h), t) @ self.h
        g = basis(self.k, self.p, len(self.h), t, 1) @ self.h
        return (g[:, :-1] - h[:, :-1] / h[:, -1:] * g[:, -1:]) / h[:, -1:]

    def grid(self, per_span):
        """Parameters that include all knots."""
        u = sorted(set(self.k))
        return np.concatenate([np.linspace(x, y, per_span, endpoint=False) for x, y in zip(u, u[1:])] + [[u[-1]]])


class Surf:
    def __init__(self, s):
        self.p, self.q = s["degree"]
        self.ku, self.kv = gen.surf_knots(s)
        P = np.array(s["points"], float)
        w = np.array(s["weights"], float) if s.get("weights") else np.ones(P.shape[:2])
        self.h = np.concatenate([P * w[:, :, None], w[:, :, None]], axis=2)
        self.lo, self.hi = np.array([self.ku[0], self.kv[0]]), np.array([self.ku[-1], self.kv[-1]])

    def _h(self, u, v, du=0, dv=0, grid=False):
        A, B = basis(self.ku, self.p, self.h.shape[0], u, du), basis(self.kv, self.q, self.h.shape[1], v, dv)
        return np.einsum("ai,bj,ijk->abk" if grid else "ai,aj,ijk->ak", A, B, self.h)

    def __call__(self, u, v, grid=False):
        h = self._h(u, v, grid=grid)
        return h[..., :-1] / h[..., -1:]

    def d(self, u, v):
        h = self._h(u, v)
        p = h[:, :-1] / h[:, -1:]
        return [(g[:, :-1] - p * g[:, -1:]) / h[:, -1:] for g in (self._h(u, v, 1, 0), self._h(u, v, 0, 1))]

    def grids(self, per_span):
        out = []
        for k in (self.ku, self.kv):
            u = sorted(set(k))
            out.append(np.concatenate([np.linspace(x, y, per_span, endpoint=False) for x, y in zip(u, u[1:])] + [[u[-1]]]))
        return out


def _unit(v):
    n = np.linalg.norm(v)
    return v / n if n > 0 else v


def planar_crossings(A, B, per_span=200, i=0, j=1):
    """Transversal crossings of two plane curves: [(t, s, sine of the angle)], refined by Newton's method."""
    ta, tb = A.grid(per_span), B.grid(per_span)
    pa, pb = A(ta)[:, [i, j]], B(tb)[:, [i, j]]
    da, db = pa[1:] - pa[:-1], pb[1:] - pb[:-1]
    den = da[:, None, 0] * db[None, :, 1] - da[:, None, 1] * db[None, :, 0]
    r = pb[None, :-1] - pa[:-1, None]
    with np.errstate(all="ignore"):
        s = (r[..., 0] * db[None, :, 1] - r[..., 1] * db[None, :, 0]) / den
        t = (r[..., 0] * da[:, None, 1] - r[..., 1] * da[:, None, 0]) / den
        hit = np.argwhere((s >= 0) & (s < 1) & (t >= 0) & (t < 1))
    out = []
    for x, y in hit:
        z = np.array([ta[x] + s[x, y] * (ta[x + 1] - ta[x]), tb[y] + t[x, y] * (tb[y + 1] - tb[y])])
        for _ in range(12):
            z = np.clip(z, [A.a, B.a], [A.b, B.b])
            F = (A(z[0]) - B(z[1]))[0][[i, j]]
            J = np.array([A.d(z[0])[0][[i, j]], -B.d(z[1])[0][[i, j]]]).T
            if abs(np.linalg.det(J)) < 1e-12:
                break
            z = z - np.linalg.solve(J, F)
        z = np.clip(z, [A.a, B.a], [A.b, B.b])
        if np.linalg.norm((A(z[0]) - B(z[1]))[0][[i, j]]) > 1e-8:
            continue
        if any(np.abs(z - np.array(o[:2])).max() < 1e-6 for o in out):
            continue
        u, v = _unit(A.d(z[0])[0][[i, j]]), _unit(B.d(z[1])[0][[i, j]])
        out.append((float(z[0]), float(z[1]), float(abs(u[0] * v[1] - u[1] * v[0]))))
    return out


def curve_surface(C, S, nc=60, ns=12, solve=None):
    """Intersections of a curve and a surface found on a triangulation and refined: [(t, u, v, sine of the angle)]."""
    T = C.grid(nc)
    U, V = S.grids(ns)
    P, Q = S(U, V, grid=True), C(T)
    out = []
    cells = np.array([(a, b) for a in range(len(U) - 1) for b in range(len(V) - 1)])
    a, b = cells[:, 0], cells[:, 1]
    p00, p10, p01, p11 = P[a, b], P[a + 1, b], P[a, b + 1], P[a + 1, b + 1]
    lo = np.minimum(np.minimum(p00, p10), np.minimum(p01, p11))
    hi = np.maximum(np.maximum(p00, p10), np.maximum(p01, p11))
    starts = []
    for k in range(len(T) - 1):
        o, e = Q[k], Q[k + 1]
        pad = 0.3 * np.linalg.norm(hi - lo, axis=1)[:, None] + 0.3 * np.linalg.norm(e - o)
        near = np.nonzero(np.all((np.minimum(o, e) <= hi + pad) & (np.maximum(o, e) >= lo - pad), axis=1))[0]
        starts += [(0.5 * (T[k] + T[k + 1]), 0.5 * (U[a[m]] + U[a[m] + 1]), 0.5 * (V[b[m]] + V[b[m] + 1])) for m in near]
    if not starts:
        return out
    z = np.array(starts)
    L, H = np.array([C.a, *S.lo]), np.array([C.b, *S.hi])
    for _ in range(25):
        F = C(z[:, 0]) - S(z[:, 1], z[:, 2])
        su, sv = S.d(z[:, 1], z[:, 2])
        J = np.stack([C.d(z[:, 0]), -su, -sv], axis=2)
        det = np.linalg.det(J)
        ok = np.abs(det) > 1e-10
        step = np.zeros_like(z)
        step[ok] = np.linalg.solve(J[ok], F[ok][..., None])[..., 0]
        z = np.clip(z - step, L, H)
    F = np.linalg.norm(C(z[:, 0]) - S(z[:, 1], z[:, 2]), axis=1)
    su, sv = S.d(z[:, 1], z[:, 2])
    n = np.cross(su, sv)
    cd = C.d(z[:, 0])
    for m in np.nonzero(F < 1e-9)[0]:
        if any(np.abs(z[m] - np.array(o[:3])).max() < 1e-6 for o in out):
            continue
        nn, cc = np.linalg.norm(n[m]), np.linalg.norm(cd[m])
        sine = abs(cd[m] @ n[m]) / nn / cc if nn > 1e-9 and cc > 1e-9 else 0.0
        out.append((float(z[m][0]), float(z[m][1]), float(z[m][2]), float(sine)))
    return out


class Iso:
    """The curve of a surface at a fixed parameter; axis 0: u is fixed."""

    def __init__(self, S, x, axis):
        self.S, self.x, self.axis = S, x, axis
        self.a, self.b = float(S.lo[1 - axis]), float(S.hi[1 - axis])

    def uv(self, t):
        t = np.atleast_1d(np.asarray(t, dtype=float))
        x = np.full(len(t), self.x)
        return (x, t) if self.axis == 0 else (t, x)

    def __call__(self, t):
        return self.S(*self.uv(t))

    def d(self, t):
        return self.S.d(*self.uv(t))[1 - self.axis]

    def grid(self, per_span):
        return self.S.grids(per_span)[1 - self.axis]


def surface_surface(A, B, lines=9, nc=30, ns=10):
    """Points of the intersection of two surfaces where isolines of A pierce B: [(point, sine, u, v, s, t)]."""
    out = []
    for axis in (0, 1):
        for x in np.linspace(A.lo[axis], A.hi[axis], lines + 2)[1:-1]:
            C = Iso(A, float(x), axis)
            for t, s, r, w in curve_surface(C, B, nc, ns):
                u, v = C.uv(t)
                out.append((C(t)[0], w, float(u[0]), float(v[0]), s, r))
    return out


def project(S, X, per_span=24, steps=12):
    """Distance of points to a surface: the nearest point of a grid, refined by Gauss-Newton."""
    U, V = S.grids(per_span)
    P = S(U, V, grid=True).reshape(-1, 3)
    uv = np.array([(a, b) for a in U for b in V])
    X = np.asarray(X, float)
    k = np.array([((P - x) ** 2).sum(axis=1).argmin() for x in X])
    z, best = uv[k], np.linalg.norm(P[k] - X, axis=1)
    for _ in range(steps):
        r = X - S(z[:, 0], z[:, 1])
        su, sv = S.d(z[:, 0], z[:, 1])
        a, b, c = (su * su).sum(1), (su * sv).sum(1), (sv * sv).sum(1)
        f, g = (su * r).sum(1), (sv * r).sum(1)
        det = a * c - b * b
        ok = det > 1e-12 * np.maximum(a * c, 1e-300)
        det = np.where(ok, det, 1.0)
        z = np.clip(z + np.where(ok, [(c * f - b * g) / det, (a * g - b * f) / det], 0.0).T, S.lo, S.hi)
        best = np.minimum(best, np.linalg.norm(S(z[:, 0], z[:, 1]) - X, axis=1))
    return best
