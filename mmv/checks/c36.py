"""Union, intersection and difference of closed curves in the plane."""
import math

import numpy as np
from hypothesis import strategies as st
from mmcore.geom.curves import curve_bool as cb
from mmcore.geom.nurbs import NURBSCurve

from ..core import facet, require
from ..mm import mk_curve

FACETS = []
NEAR = 0.04  # intersections are looked for with a tolerance of 0.01
RULE = "Star-shaped closed curves of degree 1 to 3, rational or not, boxes and thin ones among them, apart, nested or crossing any number of times; trivial when the curves do not meet."
ASSUMPTIONS = [
    "a point of one curve is judged where it is a tenth of the smaller curve away from the other", "pieces are judged to end on each other to 0.04: intersections are looked for with a tolerance of 0.01",
    "curves lie in planes of constant z",
    "operands that share a piece of their boundary are not generated",
]


def r3(lo, hi):
    return st.floats(lo, hi).map(lambda x: round(x, 3))


@st.composite
def closed(draw):
    """Control points round a centre; the last one is the first."""
    size = draw(st.sampled_from([1.0, 1.0, 2.0, 5.0]))
    if draw(st.integers(0, 4)) == 0:
        deg, a, b = 1, size * draw(r3(0.4, 1)), size * draw(r3(0.4, 1))
        pts = [[a, b], [-a, b], [-a, -b], [a, -b]]
        s = draw(st.integers(0, 3))
        pts = pts[s:] + pts[:s]
    else:
        deg = draw(st.sampled_from([1, 2, 3]))
        n = draw(st.integers(max(4, deg + 1), 9))
        turn = draw(r3(0, 6.28))
        pts = []
        for i in range(n):
            ang = turn + (i + draw(r3(0, 0.6))) / n * 2 * math.pi
            rad = size * draw(r3(0.6, 1))
            pts.append([round(rad * math.cos(ang), 4), round(rad * math.sin(ang), 4)])
    if draw(st.integers(0, 3)) == 0:  # a thin one
        k, f = draw(st.integers(0, 1)), draw(r3(0.06, 0.2)) / size
        pts = [[x * f, y] if k == 0 else [x, y * f] for x, y in pts]
    if draw(st.booleans()):
        pts.reverse()
    w = draw(st.lists(r3(0.5, 2), min_size=len(pts), max_size=len(pts))) if deg > 1 and draw(st.integers(0, 2)) == 0 else None
    return {"degree": deg, "points": pts, "weights": w, "at": [draw(r3(-3, 3)), draw(r3(-3, 3))], "size": size}


@st.composite
def pair(draw):
    one, two = draw(closed()), draw(closed())
    far = draw(st.sampled_from([0, 0, 0, 1, 2]))
    if far:  # apart along x, y or both, by a lot of times their size
        two["at"] = [two["at"][0] + draw(st.sampled_from([-40.0, 0.0, 5.0, 12.0, 30.0])), two["at"][1] + draw(st.sampled_from([-30.0, 0.0, 0.0, 0.0, 0.0, 15.0]))]
    if draw(st.integers(0, 3)) == 0:  # a thin wall to the right of the other
        w, h, t = draw(r3(0.01, 0.06)), draw(r3(6, 9)), draw(r3(-0.3, 0.3))
        two = {"degree": 1, "points": [[w + t, h], [t, h], [-t, -h], [w - t, -h]], "weights": None, "at": [one["at"][0] + one["size"] + draw(r3(0.5, 6)), one["at"][1]], "size": 1.0}
        if draw(st.booleans()):
            one, two = two, one
    elif draw(st.integers(0, 6)) == 0:  # nested, both centres the same
        two["at"] = list(one["at"])
    return {"one": one, "two": two, "z": draw(st.sampled_from([0.0, 0.0, 1.5]))}


def make(c, z):
    p = [[x + c["at"][0], y + c["at"][1], z] for x, y in c["points"]]
    w = c["weights"]
    return mk_curve({"degree": c["degree"], "points": p + p[:1], "weights": None if w is None else w + w[:1], "knots": None})


def dense(c, n):
    t0, t1 = c.interval()
    return np.asarray(c.evaluate_multi(np.linspace(t0, t1, n)))


def inside(poly, q):
    """Even-odd rule for a closed polygon."""
    a, b = poly[:, :2], np.roll(poly[:, :2], -1, 0)
    m = (a[:, 1] > q[1]) != (b[:, 1] > q[1])
    x = (b[m, 0] - a[m, 0]) * (q[1] - a[m, 1]) / (b[m, 1] - a[m, 1]) + a[m, 0]
    return int((x > q[0]).sum()) % 2 == 1


def nearest(poly, q):
    """Distance of a point from a chain of segments."""
    a, d = poly[:-1, :2], poly[1:, :2] - poly[:-1, :2]
    dd = np.maximum((d * d).sum(1), 1e-300)
    t = np.clip(((q[:2] - a) * d).sum(1) / dd, 0, 1)
    return float(np.hypot(*(a + t[:, None] * d - q[:2]).T).min())


@facet(FACETS, pair, 90, 1500, cpu=120)
def kept_parts(case, ctx):
    """A part of either curve is in the result exactly when the operation keeps it there."""
    one, two = make(case["one"], case["z"]), make(case["two"], case["z"])
    before = [np.array(c.control_points) for c in (one, two)]
    P = [dense(c, 1201) for c in (one, two)]
    small = min(case["one"]["size"], case["two"]["size"])
    margin = 0.1 * small
    if any(np.mean([nearest(P[1 - k], q) < 2 * NEAR for q in P[k][::6]]) > 0.1 for k in (0, 1)):
        ctx.label("partly the same")
        ctx.trivial()
        return
    meets = False
    for k in (0, 1):
        sides = {inside(P[1 - k], q) for q in P[k][::20]}
        meets = meets or len(sides) == 2
    if not meets:
        ctx.trivial()
        ctx.label("apart or nested")
    else:
        ctx.label("crossing")
    kinds = (cb.BooleanOperationType.UNION, cb.BooleanOperationType.INTERSECTION, cb.BooleanOperationType.DIFFERENCE)
    found = []
    for op in kinds:
        parts = cb.curve_boolean_operation(one, two, op)
        found.append([dense(s, 600) for s in parts])
        if op == kinds[0]:
            require(len(cb.curve_boolean_operation(one, two)) == len(parts), "the operation is a union unless said otherwise")
    for a, b, c in zip((one, two), before, (0, 1)):
        require(np.array_equal(np.array(a.control_points), b), "the operands are changed by the operation: curve %d", c)
    for op, parts in zip(kinds, found):
        name = op.name.lower()
        # every piece lies on one of the operands
        for s in parts:
            for q in s[::60]:
                d = min(nearest(P[0], q), nearest(P[1], q))
                require(d <= 0.02 * small + 1e-6, "a piece of the %s is off both curves by %g at %s", name, d, q)
                require(abs(q[2] - case["z"]) <= 1e-9, "a piece of the %s leaves the plane: %s", name, q)
        for k in (0, 1):
            for q in P[k][13::41]:
                if nearest(np.vstack([P[1 - k], P[1 - k][:1]]), q) < margin:
                    continue
                ins = inside(P[1 - k], q)
                want = {"union": not ins, "intersection": ins, "difference": ins if k else not ins}[name]
                d = min((nearest(s, q) for s in parts), default=math.inf)
                require((d < 0.03 * small) == want, "the point %s of curve %d, %s the other, %s in the %s (distance %g)", q, k + 1, "inside" if ins else "outside", "is not" if want else "is", name, d)
                ctx.label(name + (" keeps" if want else " drops"))


def clear(case, P, cross, small):
    """The curves cross at good angles, away from each other crossing and from corners, and do not touch elsewhere."""
    if any(x[1] < 0.35 for x in cross) or any(np.hypot(*(x[0] - y[0])) < 4 * NEAR for i, x in enumerate(cross) for y in cross[:i]):
        return False
    for k, c in enumerate((case["one"], case["two"])):
        corners = [[x + c["at"][0], y + c["at"][1]] for x, y in c["points"]] if c["degree"] == 1 else [P[k][0][:2]]
        if any(nearest(P[1 - k], np.array(q)) < 2 * NEAR for q in corners):
            return False
        for q in P[k][::6]:
            if nearest(P[1 - k], q) < NEAR and all(np.hypot(*(q[:2] - x[0])) > 4 * NEAR for x in cross):
                return False
    return True


@facet(FACETS, pair, 60, 800, cpu=120)
def closed_results(case, ctx):
    """Results are closed: wherever a piece ends, another begins; the pieces of a union and an intersection are all the pieces there are."""
    one, two = make(case["one"], case["z"]), make(case["two"], case["z"])
    P = [dense(c, 1201) for c in (one, two)]
    small = min(case["one"]["size"], case["two"]["size"])
    # crossings of the sampled curves, all at a good angle and apart from each other
    cross = []
    a, d = P[0][:-1, :2], np.diff(P[0][:, :2], axis=0)
    for p, q in zip(P[1][:-1, :2], P[1][1:, :2]):
        e = q - p
        den = d[:, 0] * e[1] - d[:, 1] * e[0]
        ok = np.abs(den) > 1e-14
        den = np.where(ok, den, 1)
        w = p - a
        s, t = (w[:, 0] * e[1] - w[:, 1] * e[0]) / den, (w[:, 0] * d[:, 1] - w[:, 1] * d[:, 0]) / den
        for i in np.nonzero(ok & (s >= 0) & (s < 1) & (t >= 0) & (t < 1))[0]:
            cross.append((a[i] + s[i] * d[i], abs(den[i]) / (np.linalg.norm(d[i]) * np.linalg.norm(e))))
    if not clear(case, P, cross, small):
        ctx.trivial()
        return
    ctx.label("%d crossings" % len(cross))
    if not cross:
        ctx.trivial()
    total = {}
    for op in cb.BooleanOperationType:
        parts = cb.curve_boolean_operation(one, two, op)
        ends = [dense(s, 2)[i] for s in parts for i in (0, 1)]
        todo = set(range(len(ends)))
        while todo:  # ends that are near each other, or near one that is
            front = [todo.pop()]
            group = list(front)
            while front:
                e = ends[front.pop()]
                more = [j for j in todo if np.linalg.norm(ends[j] - e) < NEAR]
                todo.difference_update(more)
                front += more
                group += more
            require(len(group) % 2 == 0, "%d ends of pieces of the %s at %s", len(group), op.name.lower(), ends[group[0]])
        total[op.name] = sum(np.linalg.norm(np.diff(dense(s, 400), axis=0), axis=1).sum() for s in parts)
    whole = sum(np.linalg.norm(np.diff(p, axis=0), axis=1).sum() for p in P)
    require(abs(total["UNION"] + total["INTERSECTION"] - whole) <= 0.01 * whole, "the union (length %g) and the intersection (%g) have not the length of both curves (%g)", total["UNION"], total["INTERSECTION"], whole)
    back = cb.curve_boolean_operation(two, one, cb.BooleanOperationType.DIFFERENCE)
    rest = sum(np.linalg.norm(np.diff(dense(s, 400), axis=0), axis=1).sum() for s in back)
    require(abs(total["DIFFERENCE"] + rest - whole) <= 0.01 * whole, "the differences both ways (lengths %g and %g) have not the length of both curves (%g)", total["DIFFERENCE"], rest, whole)


@st.composite
def values(draw):
    tol = draw(st.sampled_from([1e-5, 1e-3, 0.1]))
    xs = []
    for _ in range(draw(st.integers(1, 6))):
        x = draw(r3(-2, 2))
        xs += [x + draw(st.floats(-0.4, 0.4)) * tol for _ in range(draw(st.integers(1, 3)))]
    return {"x": draw(st.permutations(xs)), "tol": tol, "bad": draw(st.sampled_from([3, -1, 7, "union"]))}


@facet(FACETS, values, 200, 3000)
def merged_values(case, ctx):
    """Values within the tolerance of the one before are one value, their mean; an unknown operation is refused."""
    x, tol = np.sort(np.array(case["x"])), case["tol"]
    gaps = np.diff(x)
    if np.any(np.abs(gaps - tol) < 1e-9 * (1 + tol)):
        ctx.trivial()
        return
    want = [g.mean() for g in np.split(x, np.nonzero(gaps > tol)[0] + 1)]
    if len(want) == len(x):
        ctx.trivial()
    got = np.asarray(cb.unique_with_tolerance(np.array(case["x"]), tol))
    require(got.shape == (len(want),) and np.allclose(got, want, rtol=0, atol=1e-12), "values %s within %g are %s, not %s", case["x"], tol, got, want)
    sq = make({"degree": 1, "points": [[0, 0], [1, 0], [1, 1], [0, 1]], "weights": None, "at": [0, 0]}, 0.0)
    other = make({"degree": 1, "points": [[0, 0], [1, 0], [1, 1], [0, 1]], "weights": None, "at": [0.5, 0.3]}, 0.0)
    try:
        r = cb.curve_boolean_operation(sq, other, case["bad"])
    except ValueError:
        return
    require(False, "the operation %r gives %s", case["bad"], r)
