"""Strategies shared by the NURBS checks."""
from hypothesis import strategies as st

import numpy as np

from . import gen, oracle
from .core import require


@st.composite
def curve_ts(draw, n=3, **kw):
    """A curve and n parameters of its domain."""
    c = draw(gen.curve(**kw))
    k = gen.curve_knots(c)
    return {"c": c, "t": [draw(gen.param(k)) for _ in range(n)]}


@st.composite
def surf_uvs(draw, n=3, **kw):
    s = draw(gen.surface(**kw))
    ku, kv = gen.surf_knots(s)
    return {"s": s, "uv": [[draw(gen.param(ku)), draw(gen.param(kv))] for _ in range(n)]}


def curve_labels(ctx, c):
    ctx.label("degree%d" % c["degree"], "rational" if c.get("weights") and len(set(c["weights"])) > 1 else "polynomial")
    k = gen.curve_knots(c)
    p = c["degree"]
    inner = k[p + 1:-p - 1]
    ctx.label("bezier" if not inner else "multiple-knots" if len(set(inner)) < len(inner) else "simple-knots")
    if len({tuple(x) for x in c["points"]}) == 1:
        ctx.trivial()


def surf_labels(ctx, s):
    ctx.label("degree%dx%d" % tuple(s["degree"]))
    w = s.get("weights")
    ctx.label("rational" if w and len({x for r in w for x in r}) > 1 else "polynomial")
    if len({tuple(p) for r in s["points"] for p in r}) == 1:
        ctx.trivial()


def extent(points):
    """The size of a point set."""
    flat = points
    while isinstance(flat[0][0], list):
        flat = [p for r in flat for p in r]
    return max(1.0, max(abs(x) for p in flat for x in p))


def curve_samples(c, m=7):
    """Parameters that tell two splines of this structure apart: the knots and points between."""
    k = gen.curve_knots(c)
    u = sorted(set(k))
    out = list(u)
    for a, b in zip(u, u[1:]):
        out += [a + (b - a) * f for f in (0.25, 0.5, 0.8)]
    return out


def surf_samples(s, extra=()):
    ku, kv = gen.surf_knots(s)
    grid = []
    for k in (ku, kv):
        a, b = k[0], k[-1]
        grid.append([a + (b - a) * f for f in (0.0, 0.3, 0.65)] + [b])
    return [(u, v) for u in grid[0] for v in grid[1]] + [tuple(x) for x in extra]


def far_inside(knots, t, eps=1e-4):
    return min(t - knots[0], knots[-1] - t) > eps * max(1.0, knots[-1] - knots[0])


def mult(knots, t):
    return sum(1 for x in knots if x == t)


SCALES = [1 / 256, 1 / 32, 64.0, 1024.0]


def scaled(c, h):
    """The curve (or surface) over a domain stretched h times: the same control points."""
    c = dict(c)
    for key in ("knots", "knots_u", "knots_v"):
        if key in c:
            k = gen.curve_knots(c) if key == "knots" else gen.surf_knots(c)[key == "knots_v"]
            c[key] = [x * h for x in k]
    return c


def same_scaled(got, want, h, scale, what):
    """Two curves or surfaces with the same control points, the first over a domain h times as long."""
    for name in ("knots", "knots_u", "knots_v"):
        if hasattr(want, name):
            a, b = [float(x) for x in getattr(got, name)], [h * float(x) for x in getattr(want, name)]
            require(oracle.close(a, b, 1e-12, max(map(abs, b))), "%s: over a domain %s times as long the %s are %s, expected %s", what, h, name, a, b)
    a, b = np.asarray(got.control_points), np.asarray(want.control_points)
    require(a.shape == b.shape and oracle.close(a, b, 1e-9, scale), "%s: over a domain %s times as long the control points are %s, and otherwise %s", what, h, a.tolist(), b.tolist())
