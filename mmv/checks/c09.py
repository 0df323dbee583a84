"""Histories of edits and copies on surfaces, against a plain model."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_surf
from ..strat import extent, far_inside, mult, surf_labels

FACETS = []
RULE = ("Random NURBS surfaces with histories of up to 8 operations (insert knots, normalise, replace knots, change the degree's knots, copy, change the arrays handed in or out); "
        "a case is trivial when no operation was applied.")
ASSUMPTIONS = ["after every operation every live surface is compared with its model at 5 parameter pairs within 1e-8"]


@st.composite
def history(draw):
    s = draw(gen.surface(max_degree=3, max_extra=2))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(["insert_u", "insert_v", "normalize", "knots_u", "knots_v", "copy", "copy", "spoil-input", "spoil-output", "derive"]))
        ops.append([op, draw(st.integers(0, 5)), draw(st.integers(1, 999)) / 1000.0, draw(st.integers(1, 2))])
    return {"s": s, "ops": ops}


class Model:
    def __init__(self, s):
        self.s = copy.deepcopy(s)
        self.ku, self.kv = (list(x) for x in gen.surf_knots(s))

    def params(self):
        f = lambda k, x: gen.snap(k, k[0] + x * (k[-1] - k[0]), 1e-7)
        return [(self.ku[0], self.kv[0]), (self.ku[-1], self.kv[-1]), (f(self.ku, 0.31), f(self.kv, 0.77)), (f(self.ku, 0.5), self.kv[-1]), (f(self.ku, 0.87), f(self.kv, 0.12))]

    def scale(self):
        w = [x for r in self.s["weights"] for x in r] if self.s.get("weights") else [1.0]
        return extent(self.s["points"]) * max(w) / min(w)


def verify(srf, m, msg, base):
    """m.s/base hold the shape: the surface of the first model re-parametrised"""
    got = [float(x) for d in srf.interval() for x in d]
    require(got == [m.ku[0], m.ku[-1], m.kv[0], m.kv[-1]], "%s: interval %s, expected %s", msg, got, [m.ku[0], m.ku[-1], m.kv[0], m.kv[-1]])
    require([float(x) for x in srf.knots_u] == m.ku, "%s: u knots %s, expected %s", msg, list(srf.knots_u), m.ku)
    require([float(x) for x in srf.knots_v] == m.kv, "%s: v knots %s, expected %s", msg, list(srf.knots_v), m.kv)
    n, k = len(m.ku) - m.s["degree"][0] - 1, len(m.kv) - m.s["degree"][1] - 1
    require(list(srf.shape)[:2] == [n, k], "%s: size %s, expected %s", msg, srf.shape, (n, k))
    for u, v in m.params():
        want = oracle.surf_point(m.s, m.ku, m.kv, u, v)
        got = srf.evaluate(np.array([u, v]))
        require(oracle.close(got, want, 1e-8, m.scale()), "%s: at (%r, %r) %s, expected %s", msg, u, v, list(got), want.tolist())
    ps = np.array(m.params())
    got = np.asarray(srf.evaluate_multi(ps))
    require(oracle.close(got, [oracle.surf_point(m.s, m.ku, m.kv, u, v) for u, v in m.params()], 1e-8, m.scale()), "%s: evaluate_multi differs", msg)


@facet(FACETS, history, 350, 5000, cpu=120)
def histories(case, ctx):
    """every surface of a pool stays equal to its model through edits and copies of any of them"""
    from mmcore.geom.nurbs import NURBSSurface
    s = case["s"]
    surf_labels(ctx, s)
    pts = np.array(s["points"])
    if s["weights"]:
        w = np.array(s["weights"])[:, :, None]
        pts = np.concatenate([pts * w, w], axis=2)
    ku = None if s["knots_u"] is None else np.array(s["knots_u"])
    kv = None if s["knots_v"] is None else np.array(s["knots_v"])
    pool = [(NURBSSurface(pts, tuple(s["degree"]), ku, kv), Model(s))]
    verify(*pool[0], "at first", None)
    for op, who, f, n in case["ops"]:
        srf, m = pool[who % len(pool)]
        msg = "after %s on surface %d of %d" % (op, who % len(pool), len(pool))
        ctx.label(op)
        if op in ("insert_u", "insert_v"):
            d = 0 if op == "insert_u" else 1
            k = m.kv if d else m.ku
            t = gen.snap(k, k[0] + f * (k[-1] - k[0]), 1e-3)
            cnt = min(n, m.s["degree"][d] - mult(k, t))
            if cnt < 1 or not far_inside(k, t):
                continue
            ref = copy.deepcopy(m)
            (srf.insert_knot_v if d else srf.insert_knot_u)(t, cnt)
            k[:] = sorted(k + [t] * cnt)
            cw = np.asarray(srf.control_points_w)
            require(cw.shape == (len(m.ku) - m.s["degree"][0] - 1, len(m.kv) - m.s["degree"][1] - 1, 4), "%s: control points of shape %s", msg, cw.shape)
            wts = cw[:, :, 3]
            m.s["points"] = (cw[:, :, :3] / wts[:, :, None]).tolist()
            m.s["weights"] = wts.tolist()
            for u, v in ref.params():
                require(oracle.close(oracle.surf_point(m.s, m.ku, m.kv, u, v), oracle.surf_point(ref.s, ref.ku, ref.kv, u, v), 1e-8, ref.scale()), "%s: the shape changed at (%r, %r)", msg, u, v)
        elif op == "normalize":
            srf.normalize_knots()
            for k, got in ((m.ku, srf.knots_u), (m.kv, srf.knots_v)):
                want = [(x - k[0]) / (k[-1] - k[0]) for x in k]
                require(oracle.close(got, want, 1e-12), "%s: knots %s, expected %s", msg, list(got), want)
                k[:] = [float(x) for x in got]
        elif op in ("knots_u", "knots_v"):
            k = m.ku if op == "knots_u" else m.kv
            a, b = 1.0 + n, 2.0 * n
            k[:] = [a + b * x for x in k]
            new = np.array(k)
            setattr(srf, op, new)
            new[:] = -5.0
        elif op == "copy":
            if len(pool) >= 4:
                continue
            new = srf.copy()
            require(new == srf and hash(new) == hash(srf), "%s: the copy is not equal to the surface", msg)
            pool.append((new, copy.deepcopy(m)))
        elif op == "spoil-input":
            pts[:] = 99.0
            for k in (ku, kv):
                if k is not None:
                    k[:] = 99.0
        elif op == "spoil-output":
            srf.evaluate(np.array(m.params()[2]))[:] = 55.0
            np.asarray(srf.knots_u)[:] = 55.0
            np.asarray(srf.knots_v)[:] = 55.0
            np.asarray(srf.control_points)[:] = 55.0
        elif op == "derive":
            uv = np.array(m.params()[2])
            srf.normal(uv)
            srf.derivative_u(uv)
            require(np.array_equal(uv, m.params()[2]), "%s: the parameter array was changed", msg)
        for i, (x, y) in enumerate(pool):
            verify(x, y, msg + ", surface %d" % i, None)


@facet(FACETS, lambda: st.tuples(gen.surface(), st.integers(0, 10 ** 6)), 250, 2500)
def equality(case, ctx):
    """surfaces built alike are equal with equal hashes; surfaces that differ in one coordinate or knot vector are not"""
    s, seed = case
    surf_labels(ctx, s)
    x, y = mk_surf(s), mk_surf(s)
    require(x == y and hash(x) == hash(y), "two surfaces of the same data differ")
    r = np.random.RandomState(seed)
    pts = copy.deepcopy(s["points"])
    pts[r.randint(len(pts))][r.randint(len(pts[0]))][r.randint(3)] += 0.5
    require(not (x == mk_surf(dict(s, points=pts))), "equal although a control point differs")
    ku, kv = gen.surf_knots(s)
    require(not (x == mk_surf(dict(s, knots_u=[2 * a + 1 for a in ku], knots_v=kv))), "equal although the u knots differ")
    require(not (x == mk_surf(dict(s, knots_u=ku, knots_v=[2 * a + 1 for a in kv]))), "equal although the v knots differ")


@facet(FACETS, lambda: gen.surface(), 250, 2500)
def control_points(case, ctx):
    """control points come back in Cartesian and in homogeneous form, as a net and flat, as they were given"""
    s = case
    surf_labels(ctx, s)
    srf = mk_surf(s)
    P = np.array(s["points"])
    W = np.array(s["weights"]) if s["weights"] else np.ones(P.shape[:2])
    sc = extent(s["points"])
    H = np.concatenate([P * W[:, :, None], W[:, :, None]], axis=2)
    for name, want in (("control_points", P), ("control_points_flat", P.reshape(-1, 3)), ("control_points_w", H), ("control_points_flat_w", H.reshape(-1, 4))):
        got = np.asarray(getattr(srf, name))
        require(oracle.close(got, want, 1e-12, sc * float(W.max())), "%s = %s, expected %s", name, got.tolist(), want.tolist())
    d = [max(1, s["degree"][0] - 1), max(1, s["degree"][1] - 1)]
    srf.degree = d
    n, m = P.shape[:2]
    require(list(srf.degree) == d, "degree %s after setting %s", list(srf.degree), d)
    require([list(x) for x in srf.interval()] == [[0, n - d[0]], [0, m - d[1]]], "interval %s after setting the degree to %s", srf.interval(), d)
    ku, kv = gen.default_knots(n, d[0]), gen.default_knots(m, d[1])
    u, v = 0.6 * ku[-1], 0.3 * kv[-1]
    s2 = dict(s, degree=d)
    require(oracle.close(srf.evaluate(np.array([u, v])), oracle.surf_point(s2, ku, kv, u, v), 1e-9, sc * float(W.max() / W.min())), "evaluation after setting the degree to %s", d)
