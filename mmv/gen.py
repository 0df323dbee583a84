"""Strategies.  Every case is a JSON value."""
import math

from hypothesis import strategies as st


def coord(lim=10.0):
    return st.one_of(
        st.integers(-5, 5).map(float),
        st.integers(-int(lim * 1000), int(lim * 1000)).map(lambda i: i / 1000.0),
        st.floats(-lim, lim, allow_nan=False, width=64).map(lambda x: 0.0 if abs(x) < 1e-6 else x),
    )


def points(n, dim=3, c=None):
    c = coord() if c is None else c
    return st.lists(st.lists(c, min_size=dim, max_size=dim), min_size=n, max_size=n)


def weight():
    return st.one_of(st.just(1.0), st.integers(1, 16).map(lambda i: i / 4.0), st.floats(0.2, 5.0))


def unit():
    """A number of [0,1], the ends included often."""
    return st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.integers(0, 1000).map(lambda i: i / 1000.0), st.floats(0.0, 1.0))


@st.composite
def clamped_knots(draw, degree, n, nice=False):
    """A clamped knot vector for n control points: any domain, interior knots of any multiplicity up to the degree."""
    start = draw(st.one_of(st.just(0.0), st.integers(-5, 5).map(float), st.integers(-3000, 3000).map(lambda i: i / 1000.0)))
    k = n - degree - 1
    interior, x = [], start
    while len(interior) < k:
        x += draw(st.one_of(st.just(1.0), st.integers(1, 12).map(lambda i: i / 4.0), st.integers(100, 3000).map(lambda i: i / 1000.0)))
        m = draw(st.sampled_from([1] * 4 + list(range(1, degree + 1))))
        interior += [x] * min(m, k - len(interior))
    x += draw(st.one_of(st.just(1.0), st.integers(1, 12).map(lambda i: i / 4.0), st.integers(100, 3000).map(lambda i: i / 1000.0)))
    if draw(st.booleans()) and x != start:  # normalised domain
        interior = [(i - start) / (x - start) for i in interior]
        start, x = 0.0, 1.0
    return [start] * (degree + 1) + interior + [x] * (degree + 1)


@st.composite
def curve(draw, max_degree=5, max_extra=6, rational=True, dim=3, min_degree=1, default_knots=True, c=None):
    p = draw(st.integers(min_degree, max_degree))
    n = p + 1 + draw(st.integers(0, max_extra))
    knots = draw(clamped_knots(p, n))
    if default_knots and draw(st.integers(0, 5)) == 0:
        knots = None
    w = None
    if rational and draw(st.booleans()):
        w = draw(st.lists(weight(), min_size=n, max_size=n))
    return {"degree": p, "points": draw(points(n, dim, c)), "weights": w, "knots": knots}


@st.composite
def surface(draw, max_degree=3, max_extra=3, rational=True, c=None):
    p, q = draw(st.integers(1, max_degree)), draw(st.integers(1, max_degree))
    n = p + 1 + draw(st.integers(0, max_extra))
    m = q + 1 + draw(st.integers(0, max_extra))
    c = coord() if c is None else c
    pts = draw(st.lists(points(m, 3, c), min_size=n, max_size=n))
    w = None
    if rational and draw(st.booleans()):
        w = draw(st.lists(st.lists(weight(), min_size=m, max_size=m), min_size=n, max_size=n))
    ku, kv = draw(clamped_knots(p, n)), draw(clamped_knots(q, m))
    if draw(st.integers(0, 5)) == 0:
        ku = kv = None
    return {"degree": [p, q], "points": pts, "weights": w, "knots_u": ku, "knots_v": kv}


def default_knots(n, p):
    return [0.0] * (p + 1) + [float(i) for i in range(1, n - p)] + [float(n - p)] * (p + 1)


def curve_knots(c):
    return c["knots"] if c["knots"] is not None else default_knots(len(c["points"]), c["degree"])


def surf_knots(s):
    n, m = len(s["points"]), len(s["points"][0])
    return (s["knots_u"] if s["knots_u"] is not None else default_knots(n, s["degree"][0]),
            s["knots_v"] if s["knots_v"] is not None else default_knots(m, s["degree"][1]))


@st.composite
def param(draw, knots):
    """A parameter of the domain: the ends and the knots themselves often."""
    a, b = knots[0], knots[-1]
    kind = draw(st.integers(0, 4))
    if kind == 0:
        return draw(st.sampled_from(knots))
    if kind == 1:
        return draw(st.sampled_from([a, b]))
    return snap(knots, min(b, max(a, a + (b - a) * draw(unit()))))


def snap(knots, t, eps=1e-5):
    """Either a knot exactly or clearly between knots."""
    k = min(knots, key=lambda x: abs(x - t))
    return k if abs(k - t) <= eps * max(1.0, knots[-1] - knots[0]) else t


@st.composite
def inside(draw, knots, margin=0.002):
    """A parameter inside the domain: an interior knot or between knots, rarely an end."""
    inner = sorted({x for x in knots if knots[0] < x < knots[-1]})
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return draw(st.sampled_from([knots[0], knots[-1]]))
    if kind <= 4 and inner:
        k = draw(st.sampled_from(inner))
        if kind == 1:  # a knot up to rounding
            k = math.nextafter(k, draw(st.sampled_from([-math.inf, math.inf])))
        return k
    f = draw(st.one_of(st.sampled_from([0.5, 0.25, 0.75]), st.integers(1, 999).map(lambda i: i / 1000.0), st.floats(margin, 1 - margin)))
    return snap(knots, knots[0] + (knots[-1] - knots[0]) * f, 1e-3)
