"""Sorting, unique values, grouping."""
import numpy as np

from hypothesis import strategies as st
from mmcore.ds.union_find import UnionFind, group_tuples
from mmcore.numeric.algorithms import quicksort as Q

from ..core import facet, require

FACETS = []
RULE = "Arrays with many repeated values, sorted, reversed and constant ones, whole, strided-copied and as parts of larger arrays; histories of unions; trivial below two elements."
ASSUMPTIONS = ["values are finite; arrays are contiguous (the routines take a pointer to the first item) and have at most a few thousand items (the sort recurses once per item on sorted input)",
               "unique sorts the array handed in, as its callers expect: only its values are required to stay the same"]

@st.composite
def arrays(draw):
    k = draw(st.integers(0, 5))
    v = {0: st.integers(-3, 3).map(float), 1: st.integers(-1000, 1000).map(lambda i: i / 8.0), 2: st.floats(allow_nan=False, allow_infinity=False)}[min(k, 2)]
    a = draw(st.lists(v, min_size=1, max_size=60 if k < 5 else 300))
    o = draw(st.integers(0, 3))
    a = sorted(a) if o == 1 else sorted(a, reverse=True) if o == 2 else a
    return {"a": a, "pad": draw(st.integers(0, 3)), "given": draw(st.booleans())}

@facet(FACETS, arrays, 1500, 25000)
def sorting(case, ctx):
    """quicksort sorts in place, argsort gives a permutation that sorts, unique gives the distinct values in increasing order; memory around the array is left alone"""
    a, k = np.array(case["a"], float), case["pad"]
    n = len(a)
    if n < 2:
        ctx.trivial()
    def inside():
        big = np.full(n + 2 * k, 12345.0)
        big[k:k + n] = a
        return big, big[k:k + n]
    def outside(big, what):
        require((big[:k] == 12345).all() and (big[k + n:] == 12345).all(), "%s writes outside its array", what)
    want = np.sort(a)
    big, x = inside()
    Q.quicksort(x)
    require(np.array_equal(x, want), "quicksort of %s gives %s", a.tolist(), x.tolist())
    outside(big, "quicksort")
    big, x = inside()
    i = np.array(Q.argsort(x))
    require(sorted(i.tolist()) == list(range(n)), "argsort gives %s, not a permutation", i.tolist())
    require(np.array_equal(a[i], want), "argsort of %s gives %s", a.tolist(), i.tolist())
    require(np.array_equal(x, a), "argsort changed the array handed in")
    outside(big, "argsort")
    big, x = inside()
    if case["given"]:
        rb = np.full(n + 2 * k, 12345.0)
        u = np.array(Q.unique(x, rb[k:k + n]))
        outside(rb, "unique, in its result,")
    else:
        u = np.array(Q.unique(x))
    require(np.array_equal(u, np.unique(a)), "unique of %s gives %s", a.tolist(), u.tolist())
    require(np.array_equal(np.sort(x), want), "unique changed the values of the array handed in")
    outside(big, "unique")

@st.composite
def unions(draw):
    n = draw(st.integers(1, 14))
    e = st.integers(0, n - 1)
    return {"n": n, "ops": draw(st.lists(st.tuples(st.booleans(), e, e), max_size=25)), "tuples": draw(st.lists(st.lists(st.integers(0, 12), min_size=1, max_size=4), max_size=12))}

@facet(FACETS, unions, 1200, 20000)
def grouping(case, ctx):
    """after any sequence of unions two items have the same representative exactly when they are connected; tuples that share a number, also through others, are grouped, each once"""
    n = case["n"]
    u, part = UnionFind(n), [{i} for i in range(n)]
    if n < 2:
        ctx.trivial()
    for join, x, y in case["ops"]:
        if join:
            u.union(x, y)
            if part[x] is not part[y]:
                m = part[x] | part[y]
                for i in m:
                    part[i] = m
        require((u.find(x) == u.find(y)) == (part[x] is part[y]), "find(%d) = %d and find(%d) = %d", x, u.find(x), y, u.find(y))
    for i in range(n):
        require(u.find(i) in part[i], "the representative of %d is %d, not in its set", i, u.find(i))
        for j in range(n):
            require((u.find(i) == u.find(j)) == (part[i] is part[j]), "%d and %d are %s, their representatives are %d and %d", i, j, "joined" if part[i] is part[j] else "apart", u.find(i), u.find(j))
    T = [tuple(t) for t in case["tuples"]]
    got = group_tuples(T)
    comp = list(range(len(T)))
    for _ in T:
        for i, s in enumerate(T):
            for j, t in enumerate(T):
                if set(s) & set(t):
                    comp[i] = comp[j] = min(comp[i], comp[j])
    want = {}
    for i, t in enumerate(T):
        want.setdefault(comp[i], []).append(t)
    require(sorted(sorted(g) for g in got) == sorted(sorted(g) for g in want.values()), "group_tuples(%s) = %s, expected %s", T, got, list(want.values()))
