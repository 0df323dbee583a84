"""Spatial trees against brute force."""
from hypothesis import strategies as st
from mmcore.ds.bkdtree import BalancedKDTree
from mmcore.ds.tree.rtree import Box, Rectangle, RStarTree

from ..core import facet, require

FACETS = []
RULE = "Histories of insertions, deletions and queries on small integer grids (ties in every coordinate, repeated points) and on reals; trivial below three items."
ASSUMPTIONS = ["points are tuples of the same length; deleting a point that is there more than once removes one of them"]

@st.composite
def histories(draw):
    d = draw(st.integers(1, 3))
    # a power of two, so that scaled grids still tie
    h = draw(st.sampled_from([1, 1, 1 / 16, 1 / 1024, 64]))
    c = draw(st.sampled_from([st.integers(0, 3), st.integers(0, 12), st.floats(-10, 10)])).map(lambda x: x * h)
    p = st.tuples(*[c] * d)
    op = st.one_of(st.tuples(st.just("insert"), p), st.tuples(st.just("delete"), p), st.tuples(st.just("delete at"), st.integers(0, 60)), st.tuples(st.just("near"), p))
    return {"d": d, "start": [list(x) for x in draw(st.lists(p, max_size=30))], "ops": [[k, list(v) if isinstance(v, tuple) else v] for k, v in draw(st.lists(op, max_size=30))],
            "q": [list(x) for x in draw(st.lists(p, min_size=1, max_size=8))], "k": draw(st.integers(0, 9))}

def d2(p, q):
    return sum((a - b) ** 2 for a, b in zip(p, q))

@facet(FACETS, histories, 900, 15000)
def kdtree(case, ctx):
    """a k-d tree holds exactly the points of a list with the same history, whatever coordinates they share; the nearest points are those brute force finds; building leaves the list handed in as it was"""
    start = [tuple(p) for p in case["start"]]
    given = list(start)
    t, model = BalancedKDTree(given), list(start)
    require(given == start, "building reordered the list handed in")
    if len(start) + len(case["ops"]) < 3:
        ctx.trivial()
    ctx.label("ties" if len({p[0] for p in start}) < len(start) else "distinct", "dim%d" % case["d"])
    def check(what):
        seen = []
        def walk(n, depth, lo, hi):
            if n is None:
                return 0
            require(n.axis == depth % case["d"], "%s: a node at depth %d splits axis %d", what, depth, n.axis)
            require(all(a <= x <= b for a, x, b in zip(lo, n.point, hi)), "%s: %s is on the wrong side of a splitting point above it", what, n.point)
            seen.append(n.point)
            l2, h2 = list(hi), list(lo)
            l2[n.axis], h2[n.axis] = min(hi[n.axis], n.point[n.axis]), max(lo[n.axis], n.point[n.axis])
            s = 1 + walk(n.left, depth + 1, lo, l2) + walk(n.right, depth + 1, h2, hi)
            require(s == n.size, "%s: a subtree of %d points says %d", what, s, n.size)
            return s
        inf = float("inf")
        walk(t.root, 0, [-inf] * case["d"], [inf] * case["d"])
        require(sorted(seen) == sorted(model), "%s: the tree holds %s, and should hold %s", what, sorted(seen), sorted(model))
    def near(q, k):
        n = t.nearest_neighbor(q)
        require((n is None) == (not model), "the nearest point to %s is %s, of %d", q, n, len(model))
        if model:
            best = min(d2(p, q) for p in model)
            require(n in model and d2(n, q) == best, "the nearest point to %s is %s, and one at squared distance %s is there", q, n, best)
        g = t.k_nearest_neighbors(q, k)
        want = sorted(d2(p, q) for p in model)[:k]
        require([d2(p, q) for p in g] == want, "the %d points nearest to %s are at squared distances %s, and should be at %s", k, q, [d2(p, q) for p in g], want)
        left = list(model)
        for p in g:
            require(p in left, "%s is among the nearest points more often than in the tree", p)
            left.remove(p)
    check("built")
    for op, v in case["ops"]:
        if op == "insert":
            t.insert(tuple(v))
            model.append(tuple(v))
        elif op == "near":
            near(tuple(v), case["k"])
        else:
            p = tuple(v) if op == "delete" else model[v % len(model)] if model else None
            if p is not None:
                t.delete(p)
                if p in model:
                    model.remove(p)
        check("%s %s" % (op, v))
    for q in case["q"]:
        near(tuple(q), case["k"])

@st.composite
def boxes(draw):
    d = draw(st.sampled_from([2, 3]))
    h = draw(st.sampled_from([1, 1, 1 / 16, 1 / 1024, 64]))
    c = draw(st.sampled_from([st.integers(0, 8), st.integers(0, 60), st.floats(-10, 10)])).map(lambda x: x * h)
    b = st.tuples(st.tuples(*[c] * d), st.tuples(*[c] * d)).map(lambda t: [[min(a) for a in zip(*t)], [max(a) for a in zip(*t)]])
    m = draw(st.integers(2, 8))
    # half of the smallest node that splits
    return {"d": d, "max": m, "min": draw(st.integers(1, (m + 1) // 2)), "boxes": draw(st.lists(b, max_size=40)), "queries": draw(st.lists(b, min_size=1, max_size=6))}

@facet(FACETS, boxes, 500, 8000)
def rtree(case, ctx):
    """after any insertions a search of an R-tree gives exactly the boxes that meet the one searched for, each once; every node encloses what is below it and none is overfull"""
    kind = Rectangle if case["d"] == 2 else Box
    t = RStarTree(max_children=case["max"], min_children=case["min"])
    made = []
    ctx.label("splits" if len(case["boxes"]) > case["max"] else "one node", "dim%d" % case["d"])
    if len(case["boxes"]) < 3:
        ctx.trivial()
    names = ["minx", "miny", "minz"][:case["d"]], ["maxx", "maxy", "maxz"][:case["d"]]
    def ends(r):
        return [getattr(r, n) for n in names[0]], [getattr(r, n) for n in names[1]]
    def inside(node, top):
        require(top or node.mbr is not None, "a node has no box")
        require(len(node.children) <= case["max"], "a node has %d children, more than %d", len(node.children), case["max"])
        for ch in node.children:
            if not top or node.mbr is not None:
                (a, b), (c, d) = ends(node.mbr), ends(ch.mbr)
                require(all(x <= y for x, y in zip(a, c)) and all(x >= y for x, y in zip(b, d)), "a node with box %s has a child with box %s", ends(node.mbr), ends(ch.mbr))
            if not node.is_leaf:
                inside(ch, False)
    for lo, hi in case["boxes"]:
        r = kind(*lo, *hi)
        t.insert(r)
        made.append((r, lo, hi))
    for r, lo, hi in made:
        require(ends(r) == (lo, hi), "a box inserted changed")
    inside(t.root, True)
    for lo, hi in case["queries"] + [[lo, hi] for _, lo, hi in made]:
        got = t.search(kind(*lo, *hi))
        want = [r for r, a, b in made if all(x <= y for x, y in zip(a, hi)) and all(x <= y for x, y in zip(lo, b))]
        require(sorted(map(id, got)) == sorted(map(id, want)), "a search for %s to %s gives %s, and should give %s", lo, hi, sorted(map(ends, got)), sorted(map(ends, want)))
