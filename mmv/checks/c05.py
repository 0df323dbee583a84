"""Inserting, removing and refining knots keeps the curve."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve
from ..strat import SCALES, curve_labels, curve_samples, extent, far_inside, mult, same_scaled, scaled

FACETS = []
RULE = ("Random NURBS curves as in C01; a case is trivial when the parameter is an end of the domain, when the knot is already as multiple as the degree, "
        "or when all control points coincide.")
ASSUMPTIONS = ["two curves are the same when they agree within 1e-8 (relative to the control net) at every knot and at three points of every span",
               "only knots whose removal changes nothing are removed: the code removes other knots as well and an existing test pins that",
               "the two stand-alone refinement and removal functions work on the points they are given (homogeneous ones for rational curves)"]


@st.composite
def insertion(draw, **kw):
    c = draw(gen.curve(**kw))
    k = gen.curve_knots(c)
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops.append([draw(gen.inside(k)), draw(st.integers(1, c["degree"])), draw(st.sampled_from(["insert", "insert", "insert", "multiply"]))])
    return {"c": c, "ops": ops}


def same(crv, c, msg, rel=1e-8):
    k = gen.curve_knots(c)
    scale = extent(c["points"])
    w = c.get("weights") or [1.0]
    scale *= max(w) / min(w)
    for t in curve_samples(c):
        got, want = crv.evaluate(t), oracle.curve_point(c, k, t)
        require(oracle.close(got, want, rel, scale), "%s: at %r the curve gives %s, it was %s", msg, t, list(got), want.tolist())


@facet(FACETS, insertion, 900, 12000)
def insert(case, ctx):
    """a history of knot insertions leaves the shape, and adds exactly the knots asked for, control points and Greville abscissae in step"""
    c = case["c"]
    curve_labels(ctx, c)
    k = list(gen.curve_knots(c))
    p = c["degree"]
    crv = mk_curve(c)
    done = 0
    for t, n, op in case["ops"]:
        room = p - mult(k, t)
        if not far_inside(k, t) or any(0 < abs(t - x) < 1e-4 for x in k):
            continue
        if op == "insert":
            n = min(n, room)
            if n < 1:
                continue
            crv.insert_knot(t, n)
        else:
            n = max(room, 0)
            crv.multiply_knot(t)
        k = sorted(k + [t] * n)
        done += n
        ctx.label(op, "existing-knot" if room < p else "new-knot")
        msg = "after %s of knot %r x%d" % (op, t, n)
        got = [float(x) for x in crv.knots]
        require(got == k, "%s: knots %s, expected %s", msg, got, k)
        cp = np.asarray(crv.control_points)
        require(len(cp) == len(k) - p - 1, "%s: %d control points for %d knots", msg, len(cp), len(k))
        g = [float(np.mean(k[i + 1:i + 1 + p])) for i in range(len(cp))]
        require(oracle.close(np.asarray(crv.greville_abscissae), g, 1e-9, max(abs(x) for x in k)), "%s: Greville abscissae %s, expected %s", msg,
                np.asarray(crv.greville_abscissae).tolist(), g)
        require(list(crv.interval()) == [k[0], k[-1]], "%s: interval %s", msg, crv.interval())
        same(crv, c, msg)
    if not done:
        ctx.trivial()


@facet(FACETS, lambda: st.tuples(insertion(rational=True), st.integers(1, 5)), 600, 8000)
def removal(case, ctx):
    """removing knots that were just inserted restores the control points, however many at once"""
    from mmcore.geom import nurbs
    case, m = case
    c = case["c"]
    curve_labels(ctx, c)
    k = list(gen.curve_knots(c))
    p = c["degree"]
    t, n, _ = case["ops"][0]
    s = mult(k, t)
    n = min(n, p - s)
    m = min(m, n)
    # removal divides by the relative distance to the next knots, once for every degree
    near = min(abs(t - x) / (k[-1] - k[0]) for x in k if x != t)
    if near < 0.02:
        m = min(m, 1)
    if not far_inside(k, t) or any(0 < abs(t - x) < 1e-3 for x in k) or n < 1:
        ctx.trivial()
        return
    crv = mk_curve(c)
    if n > m:
        crv.insert_knot(t, n - m)
    before = homogeneous(crv)
    crv.insert_knot(t, m)
    ctx.label("multiplicity%d" % s, "removed%d" % m)
    got = np.asarray(nurbs.knot_removal(p, np.array(crv.knots), homogeneous(crv), t, 1e-6 * extent(c["points"]), m))
    require(got.shape == before.shape, "removing %r %d times gives %d control points, expected %d", t, m, got.shape[0], before.shape[0])
    span = min(b - a for a, b in zip(sorted(set(k + [t])), sorted(set(k + [t]))[1:]))
    require(oracle.close(got, before, 1e-6, extent(c["points"]) / min(1.0, span / (k[-1] - k[0])) ** m), "removing the inserted knot %r %d times gives %s, it was %s", t, m, got.tolist(), before.tolist())


def homogeneous(crv):
    w = np.array(crv.weights)
    return np.concatenate([np.array(crv.control_points)[:, :3] * w[:, None], w[:, None]], axis=1)


def oracle_h(c):
    return [[float(x) for x in r] for r in oracle.homog(c["points"], c["weights"])]


def expected_new(k, p, density):
    """Every distinct knot (and, from density 2 on, the midpoints between them, repeatedly) up to multiplicity p."""
    want = sorted(set(k))
    for _ in range(density - 1):
        want = sorted(set(want) | {(a + b) / 2 for a, b in zip(want, want[1:])})
    return [x for x in want if k[0] < x < k[-1] for _ in range(p - mult(k, x))]


@facet(FACETS, lambda: st.tuples(gen.curve(), st.integers(1, 3)), 500, 6000)
def refine(case, ctx):
    """knot refinement keeps the curve: every span is halved `density` times"""
    from mmcore.geom import nurbs
    c, density = case
    curve_labels(ctx, c)
    ctx.label("density%d" % density)
    k, p = gen.curve_knots(c), c["degree"]
    h = np.array(oracle_h(c))
    try:
        cp, kn = nurbs.knot_refinement(p, np.array(k), h, density=density)
    except Exception as e:  # documented: nothing left to insert
        if "Cannot refine" in str(e):
            require(not expected_new(k, p, density), "refused, but %s can be inserted", expected_new(k, p, density))
            ctx.trivial()
            ctx.label("refused")
            return
        raise
    cp, kn = np.asarray(cp), np.asarray(kn)
    require(len(kn) == len(cp) + p + 1, "%d knots for %d points", len(kn), len(cp))
    require(list(kn) == sorted(kn), "knots not sorted: %s", list(kn))
    left = list(kn)
    for x in k:
        require(any(abs(x - y) < 1e-12 for y in left), "knot %r lost: %s", x, list(kn))
        left.remove(min(left, key=lambda y: abs(x - y)))
    require(len(left) > 0, "nothing was refined")
    new = expected_new(k, p, density)
    require(len(new) == len(left) and all(abs(x - y) < 1e-9 for x, y in zip(sorted(left), new)), "inserted %s, expected %s", sorted(left), new)
    w = c.get("weights") or [1.0]
    scale = extent(c["points"]) * max(w) * max(w) / min(w)
    for t in curve_samples(c):
        want_p = [float(x) for x in oracle.de_boor(k, p, oracle.homog(c["points"], c["weights"]), t)]
        got_p = [float(x) for x in oracle.de_boor(list(kn), p, cp.tolist(), t)]
        require(oracle.close(got_p, want_p, 1e-8, scale), "at %r the refined curve gives %s, it was %s", t, got_p, want_p)


@facet(FACETS, lambda: st.tuples(gen.curve(), gen.unit(), st.integers(1, 3)), 500, 5000)
def insertion_functions(case, ctx):
    """the stand-alone knot insertion on points and on knot vectors (Boehm) keeps the curve"""
    from mmcore.geom import nurbs
    c, f, n = case
    curve_labels(ctx, c)
    k, p = gen.curve_knots(c), c["degree"]
    t = gen.snap(k, k[0] + f * (k[-1] - k[0]), 1e-4)
    s = mult(k, t)
    n = min(n, p - s)
    if not far_inside(k, t) or n < 1:
        ctx.trivial()
        return
    h = np.array(oracle_h(c))
    span = nurbs.find_span(len(h) - 1, p, t, np.array(k), 0)
    cp = np.asarray(nurbs.knot_insertion(p, np.array(k), h, t, n, s, span))
    kn = np.asarray(nurbs.knot_insertion_kv(np.array(k), t, span, n))
    require([float(x) for x in kn] == sorted(k + [t] * n), "knots %s, expected %s", list(kn), sorted(k + [t] * n))
    require(len(cp) == len(h) + n, "%d points, expected %d", len(cp), len(h) + n)
    w = c.get("weights") or [1.0]
    scale = extent(c["points"]) * max(w)
    for t2 in curve_samples(c):
        want = [float(x) for x in oracle.de_boor(k, p, oracle.homog(c["points"], c["weights"]), t2)]
        got = [float(x) for x in oracle.de_boor(list(kn), p, cp.tolist(), t2)]
        require(oracle.close(got, want, 1e-9, scale), "at %r: %s, it was %s", t2, got, want)


@facet(FACETS, lambda: st.tuples(insertion(), st.sampled_from(SCALES), st.integers(1, 3)), 400, 6000)
def units(case, ctx):
    """insertion, refinement and removal do not depend on the unit of the parameter: over a domain stretched by a power of two the control points are the same"""
    from mmcore.geom import nurbs
    case, h, density = case
    c = case["c"]
    curve_labels(ctx, c)
    k, p = gen.curve_knots(c), c["degree"]
    d = scaled(c, h)
    scale = extent(c["points"]) * max(c.get("weights") or [1]) / min(c.get("weights") or [1])
    x, y = mk_curve(c), mk_curve(d)
    for t, n, _ in case["ops"]:
        n = min(n, p - mult([float(q) for q in x.knots], t))
        if not far_inside(k, t) or any(0 < abs(t - q) < 1e-3 for q in k) or n < 1:
            continue
        x.insert_knot(t, n)
        y.insert_knot(t * h, n)
        same_scaled(y, x, h, scale, "%d knots at %r inserted" % (n, t))
    hom = np.array(oracle_h(c))
    if not expected_new(k, p, density):
        return ctx.trivial()
    cp, kn = nurbs.knot_refinement(p, np.array(k), hom.copy(), density=density)
    cq, km = nurbs.knot_refinement(p, np.array(d["knots"]), hom.copy(), density=density)
    require(oracle.close(km, np.array(kn) * h, 1e-12, max(map(abs, km))), "refined knots over a domain %s times as long: %s, expected %s", h, list(km), (np.array(kn) * h).tolist())
    require(oracle.close(cq, cp, 1e-9, scale * max(c.get("weights") or [1])), "refined control points over a domain %s times as long: %s, and otherwise %s", h, np.asarray(cq).tolist(), np.asarray(cp).tolist())
