"""Surface x surface intersection."""
import numpy as np

from hypothesis import strategies as st
from mmcore.numeric.intersection.ssx import ssx
from mmcore.numeric.intersection.ssx.surface_surface import surface_ppi

from .. import gen, geo
from ..core import facet, require
from ..mm import mk_surf

FACETS = []
RULE = ("Pairs of flat patches in any position; gently curved graphs over crossing coordinate planes (300 units wide, up to 3 high plus a tilt); a plane cutting a hill or a channel; in any orientation, at several scales with the tolerance in proportion. "
        "Trivial when the surfaces do not meet.")
ASSUMPTIONS = ["no border of one surface lies on a border of the other: whether they meet there is decided by rounding",
               "curved surfaces: traced points are required to be within 2 % of the surfaces' size of both surfaces, and reference points within 2 % of the traced polyline; the marching step does not keep to its tolerance, and loses its surface parameters (known findings)",
               "surfaces that touch, or cross at less than about 0.3 rad, are not generated; flat patches, hills and channels with a normal near the octant (-, +, -), where the tracer cannot follow them, are left out (known finding)"]

def run(a, b, tol):
    r = surface_ppi(a, b, tol)
    return ([], [], [], []) if r is None else r

def structure(r, A, B, near, exact=None):
    """What holds for every result: one parameter pair per point, parameters in the domains, points near both surfaces (for exact, at their parameters)."""
    curves, uvs, steps, term = r
    require(len(curves) == len(uvs) == len(term), "%d curves, %d parameter rows, %d terminators", len(curves), len(uvs), len(term))
    out = []
    for c, (p, q), t in zip(curves, uvs, term):
        c, p, q = np.array(c), np.array(p), np.array(q)
        require(c.shape == (len(c), 3) and p.shape == q.shape == (len(c), 2), "a curve of %d points has %d and %d parameters", len(c), len(p), len(q))
        for S, u, n in ((A, p, "first"), (B, q, "second")):
            require((S.lo <= u).all() and (u <= S.hi).all(), "a curve leaves the %s surface's domain: %s", n, u[((u < S.lo) | (u > S.hi)).any(axis=1)][0].tolist() if ((u < S.lo) | (u > S.hi)).any() else "")
        e = np.maximum(geo.project(A, c), geo.project(B, c))
        k = int(e.argmax())
        require(e[k] <= near, "point %d of a curve, %s, is %g away from a surface", k, c[k].tolist(), float(e[k]))
        if exact:
            e = np.maximum(np.linalg.norm(A(p[:, 0], p[:, 1]) - c, axis=1), np.linalg.norm(B(q[:, 0], q[:, 1]) - c, axis=1))
            k = int(e.argmax())
            require(e[k] <= exact, "point %d of a curve, %s, is %g away from the point of a surface at its parameters %s %s", k, c[k].tolist(), float(e[k]), p[k].tolist(), q[k].tolist())
        out.append((c, p, q, t))
    return out

def ends(rows, A, B, tol):
    for c, p, q, t in rows:
        if len(t) != 2:
            continue
        for k, kind in ((0, t[0]), (-1, t[-1])):
            if kind.name != "EDGE":
                continue
            for S, u, n in ((A, p[k], "first"), (B, q[k], "second")):
                d = float(np.linalg.norm(S(u[0], u[1])[0] - c[k]))
                require(d <= 2 * tol, "the end %s of a curve is %g away from the %s surface", c[k].tolist(), d, n)
            require(any(abs(x - y) <= 1e-12 for S, u in ((A, p[k]), (B, q[k])) for x, y in zip([*u, *u], [*S.lo, *S.hi])), "a curve ends at %s %s, at no border", p[k].tolist(), q[k].tolist())

def covered(rows, ref, near):
    """Every reference point lies near the traced polylines."""
    if not ref:
        return
    require(rows, "the surfaces meet, e.g. at %s: no intersection is reported", ref[0][0].tolist())
    P = np.concatenate([c[:-1] for c, *_ in rows])
    d = np.concatenate([c[1:] for c, *_ in rows]) - P
    L = np.maximum((d * d).sum(axis=1), 1e-30)
    for p, *_ in ref:
        x = np.clip(((p - P) * d).sum(axis=1) / L, 0, 1)
        e = np.linalg.norm(P + x[:, None] * d - p, axis=1).min()
        require(e <= near, "the surfaces meet at %s, the nearest traced point is %g away", p.tolist(), float(e))

def objects(a, b, tol, rows, near):
    """ssx gives one interpolating curve and its two curves on the surfaces per traced polyline."""
    res = ssx(mk_surf(a), mk_surf(b), tol)
    require(len(res) == len(rows), "ssx gives %d curves, the tracer %d", len(res), len(rows))
    for (cv, c1, c2), (c, p, q, t) in zip(res, rows):
        lo, hi = cv.interval()
        for k, x in ((0, lo), (-1, hi)):
            d = np.abs(np.array(cv.evaluate(float(x))) - c[k]).max()
            require(d <= 1e-6 * (1 + np.abs(c[k]).max()), "the curve of ssx starts or ends %g away from the traced points", float(d))
        D = np.r_[0, np.cumsum(np.linalg.norm(np.diff(c, axis=0), axis=1))]
        T = np.linspace(lo, hi, 201)
        X = np.array([cv.evaluate(float(x)) for x in T])
        for k in range(len(c)):
            d = np.linalg.norm(X - c[k], axis=1).min()
            require(d <= near, "the curve of ssx passes traced point %s at distance %g", c[k].tolist(), float(d))
        closed = all(x.name == "LOOP" for x in t)
        for cs, u in ((c1, p), (c2, q)):
            a_, b_ = cs.interval()
            for k, x in ((0, a_), (-1, b_)):
                if closed and k == -1:
                    continue
                d = np.abs(np.array(cs.evaluate(float(x))) - c[k]).max()
                require(d <= near, "a curve on the surface starts or ends %g away from the traced points", float(d))

def blind(S):
    """Does the normal come near the octant (x <= 0, y >= 0, z <= 0), where the tracer cannot update its parameters (known finding)?"""
    U, V = S.grids(8)
    uv = np.array([(a, b) for a in U for b in V])
    su, sv = S.d(uv[:, 0], uv[:, 1])
    n = np.cross(su, sv)
    m = np.c_[n[:, 2], -n[:, 1], n[:, 0]]
    return bool((m.max(axis=1) < 0.05 * np.linalg.norm(n, axis=1)).any())

# ---- flat patches

@st.composite
def frame(draw):
    """A rotation, from three coordinates of an axis and an angle, or none."""
    if draw(st.integers(0, 2)) == 0:
        return np.eye(3).tolist()
    q = np.array([draw(st.integers(-10, 10)) for _ in range(4)], float)
    if not q.any():
        q[0] = 1
    w, x, y, z = q / np.linalg.norm(q)
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]

@st.composite
def planes(draw):
    s = st.integers(10, 100).map(lambda i: i / 10.0)
    # the first in z = 0, the second through a point of it in a plane at an angle; both rectangles (sheared)
    return {"size": [draw(s), draw(s)], "shear": draw(st.sampled_from([0.0, 0.0, 0.3, -0.4])), "angle": draw(st.integers(6, 30)), "turn": draw(st.integers(0, 62)),
            "at": [draw(st.integers(-9, 9)) / 10.0, draw(st.integers(-9, 9)) / 10.0], "other": [draw(s), draw(s)], "shift": [draw(st.integers(-90, 90)) / 100.0, draw(st.integers(-150, 150)) / 100.0],
            "frame": draw(frame()), "move": [draw(st.integers(-50, 50)) / 10.0 for _ in range(3)], "degree": draw(st.sampled_from([1, 1, 2, 3])), "swap": draw(st.booleans())}

def patch(o, e, f, p):
    x = np.linspace(-1, 1, p + 1)
    return {"degree": [p, p], "points": [[(o + a * e + b * f).tolist() for b in x] for a in x], "weights": None, "knots_u": None, "knots_v": None}

def clip_line(o, d, c, e, f):
    """The parameters x with o + x d = c + a e + b f, |a|, |b| <= 1 (d in the plane of e, f)."""
    M = np.linalg.pinv(np.array([e, f]).T)
    z, w = M @ (o - c), M @ d
    lo, hi = -np.inf, np.inf
    for i in range(2):
        if abs(w[i]) < 1e-12:
            if abs(z[i]) > 1:
                return None
            continue
        x, y = sorted([(-1 - z[i]) / w[i], (1 - z[i]) / w[i]])
        lo, hi = max(lo, x), min(hi, y)
    return (lo, hi)

@facet(FACETS, planes, 130, 2000, cpu=60)
def flat(case, ctx):
    """two flat patches meet in one straight segment with the exact ends, whose points are exactly on both, or not at all"""
    sx, sy = case["size"]
    R, mv = np.array(case["frame"]), np.array(case["move"])
    e1, f1 = np.array([sx, 0, 0]), np.array([case["shear"] * sy, sy, 0])
    at = case["at"][0] * e1 + case["at"][1] * f1
    th, al = case["turn"] / 10.0, case["angle"] / 10.0
    t = np.array([np.cos(th), np.sin(th), 0])
    n = np.array([-np.sin(th) * np.cos(al), np.cos(th) * np.cos(al), np.sin(al)])
    e2, f2 = t * case["other"][0], n * case["other"][1]
    c2 = at + case["shift"][1] * f2 + case["shift"][0] * e2
    (c1, e1, f1), (c2, e2, f2) = [(R @ c + mv, R @ e, R @ f) for c, e, f in ((np.zeros(3), e1, f1), (c2, e2, f2))]
    o, d = R @ at + mv, R @ t
    ranges = [clip_line(o, d, c1, e1, f1), clip_line(o, d, c2, e2, f2)]
    lo, hi = (0, -1) if any(r is None for r in ranges) else (max(r[0] for r in ranges), min(r[1] for r in ranges))
    if abs(case["shift"][1]) > 0.97 and abs(case["shift"][1]) < 1.03 or -0.1 < hi - lo < 0.1:
        ctx.trivial()
        ctx.label("grazing")
        return
    a, b = patch(c1, e1, f1, case["degree"]), patch(c2, e2, f2, 1)
    if case["swap"]:
        a, b = b, a
    A, B = geo.Surf(a), geo.Surf(b)
    if (blind(A) or blind(B)) and not case.get("anyway"):
        ctx.label("blind")
        ctx.trivial()
        return
    tol = 1e-2
    rows = structure(run(mk_surf(a), mk_surf(b), tol), A, B, 2 * tol, 2 * tol)
    if hi <= lo:
        ctx.label("apart")
        ctx.trivial()
        require(not rows, "the patches do not meet, but an intersection is reported: %s", [c.tolist() for c, *_ in rows][:1])
        return
    ctx.label("segment")
    require(len(rows) == 1, "two flat patches have %d intersection curves", len(rows))
    ends(rows, A, B, tol)
    c = rows[0][0]
    want = [o + lo * d, o + hi * d]
    have = sorted([c[0], c[-1]], key=lambda p: float(np.linalg.norm(p - want[0])))
    for w, h in zip(want, have):
        require(np.linalg.norm(w - h) <= 5 * tol, "the segment ends at %s, reported is %s", w.tolist(), h.tolist())
    x = (c - o) @ d
    off = np.linalg.norm(c - o - x[:, None] * d, axis=1)
    require(off.max() <= 5 * tol, "point %s is %g away from the line of intersection", c[off.argmax()].tolist(), float(off.max()))
    require((x >= lo - 5 * tol).all() and (x <= hi + 5 * tol).all(), "the curve leaves the segment")
    objects(a, b, tol, rows, 5 * tol)

# ---- gently curved graphs

@st.composite
def graph(draw, up, r=150):
    p, q = draw(st.sampled_from([(3, 3), (3, 3), (2, 2), (2, 3), (1, 3), (3, 1)]))
    n, m = p + 1 + draw(st.integers(0, 2)), q + 1 + draw(st.integers(0, 2))
    a, b = draw(st.integers(-10, 10)) / 100.0, draw(st.integers(-10, 10)) / 100.0
    h = st.integers(-300, 300).map(lambda i: i / 100.0)
    pts = [[None] * m for _ in range(n)]
    for i in range(n):
        for j in range(m):
            x, y = -r + 2 * r * i / (n - 1), -r + 2 * r * j / (m - 1)
            pts[i][j] = [x, y]
            pts[i][j].insert(up, a * x + b * y + draw(h))
    return {"degree": [p, q], "points": pts, "weights": None, "knots_u": None, "knots_v": None}

@st.composite
def graphs(draw):
    return {"a": draw(graph(2)), "b": draw(graph(draw(st.integers(0, 1)), 180)), "scale": draw(st.sampled_from([1.0, 1.0, 0.1, 10.0])), "frame": draw(frame()), "swap": draw(st.booleans()),
            "weights": draw(st.sampled_from([None, None, 2.0, 0.5]))}

def placed(s, R, k):
    return dict(s, points=[[(k * R @ np.array(p)).tolist() for p in r] for r in s["points"]])

@facet(FACETS, graphs, 60, 900, cpu=60)
def gentle(case, ctx):
    """the intersection of two gently curved sheets is traced completely: from border to border, near every point found by an independent search"""
    R, k = np.array(case["frame"]), case["scale"]
    a, b = placed(case["a"], R, k), placed(case["b"], R, k)
    if case["weights"]:
        a["weights"] = [[case["weights"]] * len(r) for r in a["points"]]
    if case["swap"]:
        a, b = b, a
    A, B = geo.Surf(a), geo.Surf(b)
    tol = 0.01 * k
    rows = structure(run(mk_surf(a), mk_surf(b), tol), A, B, 6 * k, 20 * tol if case.get("exact") else None)
    ends(rows, A, B, tol)
    ref = geo.surface_surface(A, B, lines=5, nc=24, ns=8)
    ctx.label("curves%d" % len(rows))
    if not ref:
        ctx.trivial()
        require(not rows, "the surfaces do not meet, but an intersection is reported: %s", [c.tolist() for c, *_ in rows][:1])
    covered(rows, ref, 6 * k)
    objects(a, b, tol, rows, 6 * k)

# ---- a plane cutting a hill (one closed curve) or a channel (two straight lines)

@st.composite
def cuts(draw):
    kind = draw(st.sampled_from(["hill", "channel", "channel"]))
    return {"kind": kind, "at": draw(st.integers(15, 85)) / 100.0, "tilt": [draw(st.integers(-8, 8)) / 100.0 for _ in range(2)], "squash": draw(st.integers(5, 20)) / 10.0,
            "n": draw(st.integers(4, 6)), "scale": draw(st.sampled_from([1.0, 1.0, 0.1, 10.0])), "frame": draw(frame()), "swap": draw(st.booleans()), "plane": draw(st.integers(1, 3))}

@facet(FACETS, cuts, 60, 900, cpu=60)
def cut(case, ctx):
    """a plane cuts a hill in one closed curve around it and a channel in two separate lines; both are traced completely, and nothing twice"""
    R, k, n, kind = np.array(case["frame"]), case["scale"], case["n"], case["kind"]
    ctx.label(kind)
    x = np.linspace(-5, 5, n)
    if kind == "hill":
        a = {"degree": [3, 3], "points": [[[p, q * case["squash"], -0.12 * (p * p + q * q)] for q in x] for p in x]}
        low = -0.12 * 25
    else:
        a = {"degree": [3, 1], "points": [[[p, q * case["squash"], -0.12 * p * p] for q in (-5.0, 5.0)] for p in x]}
        low = -0.12 * 25
    a.update(weights=None, knots_u=None, knots_v=None)
    T = geo.Surf(a)
    top = float(T.__call__(np.array([(T.lo[0] + T.hi[0]) / 2]), np.array([(T.lo[1] + T.hi[1]) / 2]))[0][2])
    h = top + case["at"] * (low - top) * (0.9 if kind == "hill" else 1.0)
    tx, ty = case["tilt"] if kind == "hill" else (0.0, case["tilt"][1] * 0.1)
    b = patch(np.array([0, 0, h]), np.array([7, 0, 7 * tx]), np.array([0, 7 * case["squash"], 7 * ty]), case["plane"])
    if kind == "channel" and case["at"] < 0.25 and abs(ty) > 0.004:
        b = patch(np.array([0, 0, h]), np.array([7.0, 0, 0]), np.array([0, 7 * case["squash"], 0]), case["plane"])
    a, b = placed(a, R, k), placed(b, R, k)
    if case["swap"]:
        a, b = b, a
    A, B = geo.Surf(a), geo.Surf(b)
    if (blind(A) or blind(B)) and not case.get("anyway"):
        ctx.label("blind")
        ctx.trivial()
        return
    tol = 1e-3 * k
    rows = structure(run(mk_surf(a), mk_surf(b), tol), A, B, 0.2 * k, 20 * tol if case.get("exact") else None)
    ref = geo.surface_surface(A, B, lines=7, nc=24, ns=8)
    covered(rows, ref, 0.2 * k)
    require(len(rows) == (1 if kind == "hill" else 2), "a plane cuts a %s in %d curves", kind, len(rows))
    if kind == "hill":
        for c, p, q, t in rows:
            require([x.name for x in t] == ["LOOP"], "the curve around a hill ends with %s", [x.name for x in t])
    else:
        ends(rows, A, B, tol)
    objects(a, b, tol, rows, 0.2 * k)
