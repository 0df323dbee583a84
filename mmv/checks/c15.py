"""Curve x surface intersection."""
import numpy as np

from hypothesis import strategies as st
from mmcore.numeric.intersection.csx import csx, nurbs_csx

from .. import gen, geo
from ..core import facet, require
from ..mm import mk_curve, mk_surf

FACETS = []
RULE = ("A NURBS surface that is the graph of a rough height field over a coordinate plane, and a random NURBS curve or a straight line, often through a chosen point of the surface; "
        "trivial when the reference search finds no intersection that must be reported.")
ASSUMPTIONS = ["an intersection must be reported when the curve meets the surface at an angle of at least 0.15 rad, away from the borders of the domains",
               "surfaces and curves of up to 3 spans in a direction, degree up to 3, coordinates up to 10, weights from 0.5 to 2",
               "cases in which the curve touches the surface (below 0.05 rad) are left out: every piece near the contact is searched there"]
TOL = 1e-3

@st.composite
def height_surface(draw, flat=False):
    p, q = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    n, m = p + 1 + draw(st.integers(0, 2)), q + 1 + draw(st.integers(0, 2))
    up = draw(st.integers(0, 2))
    nice = draw(st.booleans())
    jit = st.just(0.0) if nice else st.integers(-800, 800).map(lambda i: i / 1000.0)
    h = st.just(draw(st.integers(-2, 2).map(float))) if flat else (st.integers(-2, 2).map(float) if nice else st.floats(-3, 3))
    pts = []
    for i in range(n):
        row = []
        for j in range(m):
            x = [-5 + 10 * i / (n - 1) + draw(jit), -5 + 10 * j / (m - 1) + draw(jit)]
            x.insert(up, draw(h))
            row.append(x)
        pts.append(row)
    w = None
    if draw(st.integers(0, 2)) == 0:
        w = [[draw(st.integers(2, 8).map(lambda i: i / 4.0)) for _ in range(m)] for _ in range(n)]
    ku, kv = draw(gen.clamped_knots(p, n)), draw(gen.clamped_knots(q, m))
    if draw(st.integers(0, 2)) == 0:
        ku = kv = None
    return {"degree": [p, q], "points": pts, "weights": w, "knots_u": ku, "knots_v": kv}

@st.composite
def pair(draw):
    s = draw(height_surface(flat=draw(st.integers(0, 3)) == 0))
    ku, kv = gen.surf_knots(s)
    c = draw(gen.curve(max_degree=3, max_extra=2, rational=False))
    if draw(st.integers(0, 2)) == 0:
        c["weights"] = [draw(st.integers(2, 8).map(lambda i: i / 4.0)) for _ in c["points"]]
    through = draw(st.one_of(st.none(), st.tuples(gen.inside(gen.curve_knots(c)), gen.inside(ku), gen.inside(kv)).map(list)))
    if draw(st.integers(0, 4)) == 0 and len(s["points"]) > 2:  # a folded sheet and a line straight through its storeys
        p = np.array(s["points"])
        up = int(np.argmin(np.ptp(p.reshape(-1, 3), axis=0)))
        x = next(k for k in range(3) if k != up and np.ptp(p[:, 0, k]) > np.ptp(p[0, :, k]))
        i = np.arange(len(p))
        p[..., x] = (p[..., x] / 20 + 5 * np.cos(np.pi * i * draw(st.sampled_from([1, 1, 2])) * (1 if len(p) < 5 else 0.5))[:, None])
        p[..., up] = p[..., up] / 4 + 2.5 * i[:, None]
        s["points"] = p.tolist()
        e = np.zeros(3)
        e[up] = 20.0
        c = {"degree": 1, "points": [(-e).tolist(), e.tolist()], "weights": None, "knots": None}
        through = [0.5, draw(gen.inside(ku)), draw(gen.inside(kv))]
    return {"s": s, "c": c, "through": through}

def sound(res, C, S):
    for kind, p, (t, u, v) in res:
        require(C.a <= t <= C.b and S.lo[0] <= u <= S.hi[0] and S.lo[1] <= v <= S.hi[1], "intersection (%r, %r, %r) lies outside of the domains", t, u, v)
        a, b = C(t)[0], S(u, v)[0]
        require(np.linalg.norm(a - b) <= 2 * TOL, "intersection (%r, %r, %r): the curve and the surface are %g apart there", float(t), float(u), float(v), float(np.linalg.norm(a - b)))
        require(np.linalg.norm(np.asarray(p) - a) <= 2 * TOL, "intersection at %r reports the point %s, which is not the curve's %s", float(t), np.asarray(p).tolist(), a.tolist())
    for i in range(len(res)):
        for j in range(i):
            d = np.abs(np.asarray(res[i][1]) - np.asarray(res[j][1])).max()
            require(d >= TOL * 0.5, "the same intersection is reported twice: %s and %s", res[i][2], res[j][2])

@facet(FACETS, pair, 260, 4000, cpu=60)
def crossings(case, ctx):
    """what is reported is an intersection inside both domains, once each, sorted along the curve, and every clear crossing is reported with its type"""
    c, s = case["c"], case["s"]
    C, S = geo.Curve(c), geo.Surf(s)
    if case["through"] is not None:
        t, u, v = case["through"]
        move = (S(u, v) - C(t))[0]
        c = dict(c, points=[[x + y for x, y in zip(p, move.tolist())] for p in c["points"]])
        C = geo.Curve(c)
    known = geo.curve_surface(C, S)
    if any(w < 0.05 for *_, w in known) or degenerate(C) or touching(C, S):
        ctx.label("skipped-tangential")
        ctx.trivial()
        return
    a, b = mk_curve(c), mk_surf(s)
    res = nurbs_csx(a, b, tol=TOL)
    sound(res, C, S)
    must = [(t, u, v) for t, u, v, w in known if w > 0.15 and C.a + 0.003 < t < C.b - 0.003
            and S.lo[0] + 0.003 < u < S.hi[0] - 0.003 and S.lo[1] + 0.003 < v < S.hi[1] - 0.003]
    ctx.label("crossings%d" % min(len(must), 4))
    if not must:
        ctx.trivial()
    for t, u, v in must:
        p = C(t)[0]
        near = [r for r in res if np.linalg.norm(np.asarray(r[1]) - p) <= 20 * TOL]
        require(near, "the curve crosses the surface at (%r, %r, %r), point %s, which is not reported: %s", t, u, v, p.tolist(), [(r[0], np.asarray(r[2]).tolist()) for r in res])
        require(lowest_sine(C, S, t, u, v) < 0.1 or any(r[0] == "transversal" for r in near), "the crossing at (%r, %r, %r) is reported as %s", t, u, v, [r[0] for r in near])
    table = csx(mk_curve(c), mk_surf(s), tol=TOL)
    require(table.shape == (len(res), 3), "csx returns a table of shape %s for %d intersections", table.shape, len(res))
    require((np.diff(table[:, 0]) >= 0).all(), "csx does not sort along the curve: %s", table[:, 0].tolist())
    want = np.array(sorted([list(r[2]) for r in res])).reshape(-1, 3)
    have = np.array(sorted(table.tolist())).reshape(-1, 3)
    require(np.allclose(want, have, rtol=0, atol=1e-9), "csx reports %s, nurbs_csx %s", have.tolist(), want.tolist())

def lowest_sine(C, S, t, u, v, e=1e-5):
    """The smallest sine of the angle in the neighbourhood: both sides of a crease count."""
    d = np.array([(i, j, k) for i in (-e, e) for j in (-e, e) for k in (-e, e)])
    z = np.clip(np.array([t, u, v]) + d, [C.a, *S.lo], [C.b, *S.hi])
    su, sv = S.d(z[:, 1], z[:, 2])
    n, cd = np.cross(su, sv), C.d(z[:, 0])
    w = (n * cd).sum(axis=1) / np.maximum(np.linalg.norm(n, axis=1) * np.linalg.norm(cd, axis=1), 1e-12)
    return float(np.abs(w).min()) if (w > 0).all() or (w < 0).all() else 0.0

def degenerate(C):
    """Does the curve (nearly) stop somewhere?"""
    return float(np.linalg.norm(C.d(C.grid(60)), axis=1).min()) * (C.b - C.a) < 0.05

def touching(C, S):
    """Is the curve close to the surface and nearly parallel to it somewhere?"""
    t = C.grid(60)
    U, V = S.grids(16)
    P = S(U, V, grid=True).reshape(-1, 3)
    uv = np.array([(x, y) for x in U for y in V])
    su, sv = S.d(uv[:, 0], uv[:, 1])
    n = np.cross(su, sv)
    ln = np.linalg.norm(n, axis=1)
    if ln.min() < 1e-3:
        return True
    n /= ln[:, None]
    Q, d = C(t), C.d(t)
    d = d / np.linalg.norm(d, axis=1)[:, None]
    for i in range(len(t)):
        r = P - Q[i]
        k = np.argsort((r * r).sum(axis=1))[:4]
        for j in k:
            if abs(r[j] @ n[j]) < 0.1 and np.linalg.norm(r[j]) < 1.0 and abs(d[i] @ n[j]) < 0.05:
                return True
    return False

@st.composite
def lines(draw):
    s = draw(height_surface(flat=True))
    ku, kv = gen.surf_knots(s)
    up = max(range(3), key=lambda k: -np.ptp([p[k] for r in s["points"] for p in r]))
    return {"s": s, "up": up, "u": draw(gen.inside(ku)), "v": draw(gen.inside(kv)), "span": [draw(st.sampled_from([0.5, 1.0, 2.0, 7.3])), draw(st.sampled_from([0.5, 1.0, 2.0, 7.3]))],
            "tilt": draw(st.sampled_from([[0.0, 0.0], [0.0, 0.0], [1.0, 0.0], [0.3, -0.7]])), "side": draw(st.sampled_from([0, 0, 0, 1]))}

@facet(FACETS, lines, 160, 2500, cpu=60)
def straight(case, ctx):
    """a straight line pierces a flat surface exactly once, at the known parameter and point, or not at all when it ends before it"""
    S = geo.Surf(case["s"])
    p = S(case["u"], case["v"])[0]
    d = np.zeros(3)
    d[case["up"]] = 1.0
    others = [k for k in range(3) if k != case["up"]]
    d[others] = case["tilt"]
    lo, hi = case["span"]
    if case["side"]:
        ends = [p + 0.05 * d, p + (hi + 0.05) * d]
    else:
        ends = [p - lo * d, p + hi * d]
    C = geo.Curve({"degree": 1, "points": [e.tolist() for e in ends], "weights": None, "knots": None})
    res = nurbs_csx(mk_curve({"degree": 1, "points": [e.tolist() for e in ends], "weights": None, "knots": None}), mk_surf(case["s"]), tol=TOL)
    sound(res, C, S)
    if case["side"]:
        ctx.label("misses")
        require(not res, "the line ends %g before the surface, but an intersection is reported: %s", 0.05, res)
        return
    border = not (S.lo[0] + 0.003 < case["u"] < S.hi[0] - 0.003 and S.lo[1] + 0.003 < case["v"] < S.hi[1] - 0.003)
    ctx.label("border" if border else "inside")
    if border:
        ctx.trivial()
    require(len(res) <= 1, "a straight line and a flat surface have %d intersections: %s", len(res), res)
    if not border:
        require(len(res) == 1, "the line pierces the surface at %s, nothing is reported", p.tolist())
        require(np.linalg.norm(np.asarray(res[0][1]) - p) <= 2 * TOL, "the line pierces the surface at %s, reported is %s", p.tolist(), np.asarray(res[0][1]).tolist())
        require(abs(res[0][2][0] - lo / (lo + hi)) <= 2 * TOL, "the line pierces the surface at parameter %r, reported is %r", lo / (lo + hi), float(res[0][2][0]))
