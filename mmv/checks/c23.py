"""Interval arithmetic."""
import math
from fractions import Fraction as F

from hypothesis import strategies as st
from mmcore.numeric.interval import Comparison, Interval

from ..core import facet, require

FACETS = []
RULE = "Intervals on both sides of and around zero, degenerate ones, with numbers from inside and their ends; trivial when all intervals are single numbers."
ASSUMPTIONS = ["intervals have finite ends in order; results may be off by rounding, two units in the last place, since the class does not round outward",
               "dividing by an interval that ends at zero, and negative powers of one around zero, may raise", "the intersection is asked of intervals that meet"]

NUM = st.one_of(st.integers(-5, 5).map(float), st.integers(-4000, 4000).map(lambda i: i / 64), st.floats(-1e6, 1e6, allow_subnormal=False).filter(lambda x: x == 0 or abs(x) > 1e-6))

@st.composite
def pairs(draw):
    iv = st.tuples(NUM, NUM).map(sorted)
    return {"a": list(draw(iv)), "b": list(draw(iv)), "s": draw(NUM), "x": draw(st.floats(0, 1)), "y": draw(st.floats(0, 1)), "e": draw(st.integers(-3, 5)), "n": draw(st.integers(0, 4)), "inplace": draw(st.booleans())}

def pick(i, f):
    return [i[0], i[1], min(i[1], max(i[0], i[0] + f * (i[1] - i[0])))] + ([0.0] if i[0] <= 0 <= i[1] else [])

def slack(v):
    return 4 * math.ulp(float(abs(v))) if math.isfinite(v) else 0

def encloses(r, v, scale, what, *args):
    t = 4 * math.ulp(scale)
    require(float(r.low) - t <= v <= float(r.upp) + t, "%s does not hold %s" % (what, v), *args)

def tight(r, values, scale, what, *args):
    t = 4 * math.ulp(scale)
    require(r.low <= r.upp, what + ": the ends are in the wrong order", *args)
    require(abs(float(r.low) - float(min(values))) <= t and abs(float(r.upp) - float(max(values))) <= t, what + " and should be [%s, %s]" % (float(min(values)), float(max(values))), *args)

@facet(FACETS, pairs, 2500, 40000)
def arithmetic(case, ctx):
    """sums, differences, products, quotients and powers of intervals, and of an interval and a number, hold the result for every number in them and are no wider than needed; the operands stay as they were"""
    a, b, s = case["a"], case["b"], case["s"]
    A, B = Interval(*a), Interval(*b)
    if a[0] == a[1] and b[0] == b[1]:
        ctx.trivial()
    ctx.label("around-zero" if b[0] < 0 < b[1] else "one-side")
    ops = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}
    def inplace(op, x, y):
        x = Interval(x.low, x.upp)
        k = x
        if op == "+": x += y
        elif op == "-": x -= y
        elif op == "*": x *= y
        else: x /= y
        require(x is k, "%s= makes another interval", op)
        return x
    def run(op, Y):
        return inplace(op, A, Y) if case["inplace"] else ops[op](A, Y)
    for op, f in ops.items():
        for y, Y in ((b, B), ([s, s], s)):
            if op == "/" and (y[0] == 0 or y[1] == 0):
                try:
                    r = run(op, Y)
                except ZeroDivisionError:
                    continue
                require(math.isinf(r.low) or math.isinf(r.upp), "%s / %s gives %s", a, y, r)
                continue
            r = run(op, Y)
            if op == "/" and y[0] < 0 < y[1]:
                for v in (1e300, -1e300):
                    require(a[0] == a[1] == 0 or a[0] > 0 and r.upp > v or a[1] < 0 and r.low < v or r.low < v < r.upp, "%s / %s gives %s, and the quotients are not bounded", a, y, r)
                continue
            vals = [f(F(p), F(q)) for p in a for q in y]
            scale = float(max(abs(v) for v in vals)) + (max(abs(v) for v in a + list(y)) if op in "+-" else 0)
            for p in pick(a, case["x"]):
                for q in pick(y, case["y"]):
                    encloses(r, float(f(F(p), F(q))), scale, "%s %s %s gives %s, which for %s and %s" % (a, op, y, r, p, q))
            tight(r, vals, scale, "%s %s %s gives %s" % (a, op, y, r))
    r = s + A
    tight(r, [F(s) + F(x) for x in a], abs(s) + max(map(abs, a)), "%s + %s gives %s" % (s, a, r))
    require(A.to_tuple() == tuple(a) and B.to_tuple() == tuple(b), "the operands changed")

@facet(FACETS, pairs, 1500, 20000)
def powers(case, ctx):
    """powers and reciprocals of intervals hold those of every number in them and are no wider than needed"""
    a, e = case["a"], case["e"]
    if a[0] == a[1]:
        ctx.trivial()
    A = Interval(*a)
    if a[0] != 0 != a[1]:
        r = ~A
        if a[0] < 0 < a[1]:
            require(r.low < -1e300 and r.upp > 1e300, "the reciprocal of %s is %s", a, r)
        else:
            tight(r, [1 / F(x) for x in a], float(max(abs(1 / F(x)) for x in a)), "the reciprocal of %s is %s" % (a, r))
    if e < 0 and a[0] <= 0 <= a[1]:
        if a[0] == 0 or a[1] == 0:
            return
        for f in (lambda: A ** e, lambda: Interval.pow(A, e)):
            try:
                r = f()
            except ZeroDivisionError:
                continue
            for x in pick(a, case["x"]):
                if abs(x) > 1e-3:
                    encloses(r, float(F(x) ** e), float(abs(F(x) ** e)), "%s ** %d gives %s, which for %s" % (a, e, r, x))
        return
    vals = [F(x) ** e for x in a] + ([F(0)] if e > 0 and a[0] <= 0 <= a[1] else [])
    scale = float(max(map(abs, vals))) * 8
    for r in (A ** e, Interval.pow(A, e)):
        for x in pick(a, case["x"]):
            encloses(r, float(F(x) ** e), scale, "%s ** %d gives %s, which for %s" % (a, e, r, x))
        tight(r, vals, scale, "%s ** %d gives %s" % (a, e, r))

@facet(FACETS, pairs, 1500, 20000)
def relations(case, ctx):
    """intervals compare as less or greater only when all their numbers do, as at most or at least when some may; union, intersection and membership are those of the sets; parts cover the interval"""
    a, b, s = case["a"], case["b"], case["s"]
    A, B = Interval(*a), Interval(*b)
    if a[0] == a[1] and b[0] == b[1]:
        ctx.trivial()
    for y, Y in ((b, B), ([s, s], s)):
        below, above = a[1] < y[0], a[0] > y[1]
        ctx.label("less" if below else "greater" if above else "overlap")
        want = Comparison.TRUE if below else Comparison.FALSE if above else Comparison.MAYBE
        require(A.compare(Y) == want, "%s compared with %s gives %s", a, Y, A.compare(Y))
        require((A < Y) == below and (A > Y) == above, "%s < %s gives %s, > %s", a, y, A < Y, A > Y)
        require((A <= Y) == (not above) and (A >= Y) == (not below), "%s <= %s gives %s, >= %s", a, y, A <= Y, A >= Y)
        require((Y in A) == (a[0] <= y[0] and y[1] <= a[1]), "%s in %s gives %s", y, a, Y in A)
        for u in [A | Y] + ([A.merge(Y)] if Y is B else []):
            require(u.to_tuple() == (min(a[0], y[0]), max(a[1], y[1])), "%s | %s gives %s", a, y, u)
        if not below and not above:
            u = A & Y
            require(u.to_tuple() == (max(a[0], y[0]), min(a[1], y[1])), "%s & %s gives %s", a, y, u)
    parts = A.subdivide(case["n"])
    require(len(parts) == 2 ** case["n"], "%d steps of halving give %d parts", case["n"], len(parts))
    require(parts[0].low == a[0] and parts[-1].upp == a[1] and all(p.upp == q.low for p, q in zip(parts, parts[1:])) and all(p.low <= p.upp for p in parts), "the parts %s do not cover %s", parts, a)
    w = (a[1] - a[0]) / len(parts)
    require(all(abs((p.upp - p.low) - w) <= 8 * math.ulp(max(map(abs, a))) for p in parts), "the parts %s of %s differ in size", parts, a)
    v = A.evaluate(case["x"])
    require(abs(v - (a[0] + case["x"] * (a[1] - a[0]))) <= 4 * math.ulp(max(map(abs, a))), "%s at %s is %s", a, case["x"], v)
    require(A.evaluate(0.0) == a[0] and abs(float(A) - (a[0] + a[1]) / 2) <= math.ulp(max(map(abs, a))), "the start of %s is %s, its middle %s", a, A.evaluate(0.0), float(A))
    require(tuple(A) == tuple(a) == A.to_tuple() and Interval.from_tuple(tuple(a)).to_tuple() == tuple(a) and Interval(tuple(a)).to_tuple() == tuple(a), "%s does not survive being made a tuple", a)
    require(A.lower().to_tuple() == (a[0], a[0]) and A.upper().to_tuple() == (a[1], a[1]) and Interval(s).to_tuple() == (s, s), "ends of %s", a)
