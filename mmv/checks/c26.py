"""Bounding boxes as objects and bounding volume hierarchies against brute force."""
import itertools

import numpy as np
from hypothesis import strategies as st
from mmcore.geom import bvh as B

from ..core import facet, require
from .c21 import near

FACETS = []
RULE = "Boxes, points, segments and triangles on small integer grids (flat, touching, nested and equal ones) and on reals; trivial when fewer than two objects."
ASSUMPTIONS = ["boxes are three-dimensional and finite; triangles are larger than 1e-2 (the triangle test has an absolute threshold)", "rays and segments are asked for clear hits and misses: barycentric coordinates and parameters 0.02 away from the ends, angles over a degree",
               "results that touch a triangle's rim are not judged"]

@st.composite
def coords(draw):
    k = draw(st.sampled_from([4, 10, 0]))
    return st.integers(0, k).map(float) if k else st.integers(-6400, 6400).map(lambda i: i / 64)

def corners(c):
    return st.tuples(st.tuples(c, c, c), st.tuples(c, c, c)).map(lambda t: [[min(a) for a in zip(*t)], [max(a) for a in zip(*t)]])

@st.composite
def boxes(draw):
    c = draw(coords())
    b = corners(c)
    f = st.floats(0, 1)
    return {"a": draw(b), "b": draw(b), "p": list(draw(st.tuples(c, c, c))), "f": [draw(f) for _ in range(3)], "axis": draw(st.integers(0, 2)), "order": list(draw(st.permutations([0, 1, 2])))}

def same(box, lo, hi, scale, what, *args):
    near(box.min_point, lo, 1e-12 * scale, what + ": lower corner", *args)
    near(box.max_point, hi, 1e-12 * scale, what + ": upper corner", *args)
    near(box.center, (np.array(lo) + hi) / 2, 1e-12 * scale, what + ": centre", *args)
    near(box.dims, np.array(hi) - lo, 1e-12 * scale, what + ": size", *args)
    near(np.asarray(box), [lo, hi], 1e-12 * scale, what + ": as array", *args)

@facet(FACETS, boxes, 800, 12000)
def box(case, ctx):
    """splitting a box anywhere parts it exactly, in two, four and eight; merging, expanding, intersecting, evaluating, corners, edges, faces and measures are those of the box, and the parts answer like boxes of their own"""
    (alo, ahi), (blo, bhi) = map(np.array, case["a"]), map(np.array, case["b"])
    P, f, k = np.array(case["p"]), np.array(case["f"]), case["axis"]
    box = lambda lo, hi: B.BoundingBox(lo, hi)
    A, O = box(alo, ahi), box(blo, bhi)
    s = 1 + max(abs(alo).max(), abs(ahi).max(), abs(blo).max(), abs(bhi).max())
    if (alo == ahi).all():
        ctx.trivial()
    l, r = A.split(k, f[0])
    m = alo[k] + (ahi[k] - alo[k]) * f[0]
    lh, rl = ahi.copy(), alo.copy()
    lh[k] = rl[k] = m
    same(l, alo, lh, s, "left part of %s split at %s" % (case["a"], f[0]))
    same(r, rl, ahi, s, "right part of %s split at %s" % (case["a"], f[0]))
    for h in (l, r):
        h0, h1 = h.min_point, h.max_point
        want = bool(np.all(h0 <= bhi) and np.all(blo <= h1))
        require(bool(h.intersect(O)) == want, "the part %s meets %s: %s", h, O, h.intersect(O))
    parts = A.split4(case["order"][0], case["order"][1], f[0], f[1]), A.split8(*case["order"], *f)
    for n, q in zip((4, 8), parts):
        require(len(q) == n, "split%d gives %d parts", n, len(q))
        near(sum(x.volume() for x in q), np.prod(ahi - alo), 1e-11 * s ** 3, "volume of the parts")
        near(min(tuple(x.min_point) for x in q), alo, 1e-12 * s, "first corner of the parts")
        near(np.min([x.min_point for x in q], axis=0), alo, 1e-12 * s, "lower corner of the parts")
        near(np.max([x.max_point for x in q], axis=0), ahi, 1e-12 * s, "upper corner of the parts")
        for x, y in itertools.combinations(q, 2):
            require(not bool(np.all(x.min_point + 1e-9 * s < y.max_point) and np.all(y.min_point + 1e-9 * s < x.max_point)), "parts %s and %s overlap", x, y)
    near(A.evaluate(f), alo + (ahi - alo) * f, 1e-12 * s, "%s at %s", case["a"], case["f"])
    near(A.centroid(), (alo + ahi) / 2, 1e-12 * s, "centroid")
    near(A.volume(), np.prod(ahi - alo), 1e-12 * s ** 3, "volume")
    meet = bool(np.all(alo <= bhi) and np.all(blo <= ahi))
    require(bool(A.intersect(O)) == meet and bool(O.intersect(A)) == meet, "%s meets %s: %s", A, O, A.intersect(O))
    require(bool(A.intersect_disjoint(O)) == bool(np.all(alo < bhi) and np.all(blo < ahi)), "%s meets the inside of %s: %s", A, O, A.intersect_disjoint(O))
    for g in (A.intersection(O), A & O):
        require((g is not None) == meet, "%s and %s share %s", A, O, g)
        if meet:
            same(g, np.maximum(alo, blo), np.minimum(ahi, bhi), s, "shared box")
    for g in (A.merge(O), A | O):
        same(g, np.minimum(alo, blo), np.maximum(ahi, bhi), s, "merged box")
    e = box(alo, ahi)
    e.expand(O)
    same(e, np.minimum(alo, blo), np.maximum(ahi, bhi), s, "expanded box")
    same(A, alo, ahi, s, "the box itself, afterwards,")
    inside = bool(np.all(alo <= P) and np.all(P <= ahi))
    require(A.contains_point(P) == inside, "%s contains %s: %s", A, P, A.contains_point(P))
    many = np.array([P, A.evaluate(f), ahi + 1])
    require(list(map(bool, A.contains_points(many))) == [bool(np.all(alo <= x) and np.all(x <= ahi)) for x in many], "%s contains %s: %s", A, many.tolist(), A.contains_points(many))
    cs = A.get_corners()
    want = sorted(itertools.product(*zip(alo.tolist(), ahi.tolist())))
    require(sorted(map(tuple, cs.tolist())) == want, "the corners of %s are %s", A, cs.tolist())
    if (alo < ahi).all():
        ed = {tuple(sorted(map(tuple, x.tolist()))) for x in A.get_edges()}
        we = {tuple(sorted(x)) for x in itertools.combinations(want, 2) if sum(a != b for a, b in zip(*x)) == 1}
        require(len(A.get_edges()) == 12 and ed == we, "the edges of %s are %s", A, sorted(ed))
        fs = A.get_faces()
        wf = {tuple(sorted(x for x in want if x[i] == v)) for i in range(3) for v in (alo[i], ahi[i])}
        require(len(fs) == 6 and {tuple(sorted(map(tuple, x.tolist()))) for x in fs} == wf, "the faces of %s are %s", A, [x.tolist() for x in fs])
        for x in fs:
            require(all(sum(p != q for p, q in zip(x[i], x[(i + 1) % 4])) == 1 for i in range(4)), "the corners of the face %s are not in order", x.tolist())
    require(bool(A.is_non_zero_volume()) == bool((alo < ahi).all()) and bool(A.is_consistency()) and bool(A.is_finite()), "validity of %s", A)
    d = [x for x in ahi - alo if x > 1e-6]
    if all(x > 1e-6 or x == 0 for x in ahi - alo):
        near(A.size_metric(), np.prod(d) if d else 1.0, 1e-11 * s ** 3, "size of %s", A)

@st.composite
def scenes(draw):
    c = draw(coords())
    n = draw(st.integers(1, 24))
    b = draw(st.lists(corners(c), min_size=n, max_size=n))
    m = draw(st.lists(corners(c), min_size=1, max_size=10))
    return {"a": b, "b": m, "leaf": draw(st.sampled_from([1, 1, 2, 3, 5])), "q": draw(st.lists(corners(c), min_size=1, max_size=4)), "p": [list(x) for x in draw(st.lists(st.tuples(c, c, c), min_size=1, max_size=5))]}

def signed(lo, hi, p):
    d = np.abs(p - (lo + hi) / 2) - (hi - lo) / 2
    return min(d.max(), 0.0) + np.linalg.norm(np.maximum(d, 0))

@facet(FACETS, scenes, 500, 8000)
def hierarchy(case, ctx):
    """a hierarchy holds every object once in boxes that enclose it and leaves the list handed in as it was; queries by box, point and another hierarchy, and for the closest box, give what brute force does"""
    a = [(np.array(lo), np.array(hi)) for lo, hi in case["a"]]
    objs = [B.Object3D(B.BoundingBox(lo, hi), value=i) for i, (lo, hi) in enumerate(a)]
    given = list(objs)
    t = B.build_bvh(objs, case["leaf"])
    require([id(x) for x in objs] == [id(x) for x in given], "building reordered the list handed in")
    if len(a) < 2:
        ctx.trivial()
    ctx.label("leaf%d" % case["leaf"])
    def members(o):
        return o.objects if isinstance(o, B.CompoundObject3D) else [o]
    def walk(n):
        if n.object is not None:
            got = list(members(n.object))
            require(len(got) <= case["leaf"], "a leaf holds %d objects", len(got))
        else:
            got = walk(n.left) + walk(n.right)
        lo = np.min([x.bounding_box.min_point for x in got], axis=0)
        hi = np.max([x.bounding_box.max_point for x in got], axis=0)
        require(np.array_equal(n.bounding_box.min_point, lo) and np.array_equal(n.bounding_box.max_point, hi), "a node with objects from %s to %s has the box %s", lo, hi, n.bounding_box)
        return got
    held = walk(t)
    require(sorted(o.value for o in held) == list(range(len(a))), "the hierarchy holds the objects %s, of %d", sorted(o.value for o in held), len(a))
    for f in (B.traverse_leafs, B.traverse_all_objects_in_node):
        r = []
        f(t, r)
        require(sorted(o.value for x in r for o in members(x)) == list(range(len(a))), "%s gives %d objects, of %d", f.__name__, len(r), len(a))
    leaves = []
    B.traverse_leafs(t, leaves)
    span = {id(x): x.bounding_box for x in leaves}
    meets = lambda bb, lo, hi: bool(np.all(bb.min_point <= hi) and np.all(lo <= bb.max_point))
    for lo, hi in case["q"]:
        r = []
        B.traverse_bvh(t, B.BoundingBox(lo, hi), r)
        want = [x for x in leaves if meets(span[id(x)], np.array(lo), np.array(hi))]
        require(sorted(map(id, r)) == sorted(map(id, want)), "a search from %s to %s gives %d leaves, and %d meet it", lo, hi, len(r), len(want))
    for p in map(np.array, case["p"]):
        r = B.contains_point(t, p)
        want = [x for x in leaves if meets(span[id(x)], p, p)]
        require(sorted(map(id, r)) == sorted(map(id, want)), "%d leaves hold %s, and %d are found", len(want), p, len(r))
        sd = {id(x): signed(span[id(x)].min_point, span[id(x)].max_point, p) for x in leaves}
        best = min(sd.values())
        r, d = B.find_closest(t, p)
        near(d, best, 1e-9 * (1 + abs(p).max()), "signed distance of %s to the closest leaf", p)
        require(r and all(sd[id(x)] <= best + 1e-9 for x in r) and len({id(x) for x in r}) == len(r), "leaves at %s from %s are given as closest, and %s is", [sd[id(x)] for x in r], p, best)
        r = B.find_closest(t, p, False)
        if len(leaves) > 1:
            require((r is None) == (not want), "%d leaves hold %s, and looking for the closest of them gives %s", len(want), p, r and len(r[0]))
            if want:
                best = min(sd[id(x)] for x in want)
                near(r[1], best, 1e-9 * (1 + abs(p).max()), "signed distance of %s to the closest leaf around it", p)
                require(r[0] and all(sd[id(x)] <= best + 1e-9 for x in r[0]), "leaves at %s from %s are given as closest, and %s is", [sd[id(x)] for x in r[0]], p, best)
    other = B.build_bvh([B.Object3D(B.BoundingBox(lo, hi), value=i) for i, (lo, hi) in enumerate(case["b"])])
    pairs = [(x, o.value) for x in leaves for o in [B.Object3D(B.BoundingBox(lo, hi), value=i) for i, (lo, hi) in enumerate(case["b"])] if meets(span[id(x)], np.array(case["b"][o.value][0]), np.array(case["b"][o.value][1]))]
    got = B.intersect_bvh_objects(t, other)
    require(sorted((id(x.object), y.object.value) for x, y in got) == sorted((id(x), v) for x, v in pairs), "two hierarchies share %d pairs of leaves, and %d are found", len(pairs), len(got))
    inter = B.intersect_bvh(t, other)
    want = sorted((tuple(np.maximum(span[id(x)].min_point, case["b"][v][0])), tuple(np.minimum(span[id(x)].max_point, case["b"][v][1]))) for x, v in pairs)
    require(sorted((tuple(x.min_point), tuple(x.max_point)) for x in inter) == want, "the shared boxes of two hierarchies are %s, and should be %s", inter, want)

@st.composite
def meshes(draw):
    c = draw(coords())
    p = st.tuples(c, c, c)
    n = draw(st.integers(1, 12))
    tris = draw(st.lists(st.tuples(p, p, p), min_size=n, max_size=n))
    flat = draw(st.integers(0, 5))
    if flat < 3:
        z = draw(c)
        tris = [tuple(tuple(z if i == flat else x for i, x in enumerate(q)) for q in t) for t in tris]
    w = draw(st.tuples(*[st.floats(0.05, 1)] * 3))
    return {"t": [[list(q) for q in t] for t in tris], "a": list(draw(p)), "b": list(draw(p)), "aim": draw(st.one_of(st.none(), st.integers(0, n - 1))), "w": [x / sum(w) for x in w],
            "len": draw(st.floats(0.3, 3)), "leaf": draw(st.sampled_from([1, 1, 2, 4]))}

@facet(FACETS, meshes, 700, 10000)
def casting(case, ctx):
    """a ray finds every triangle of a mesh clearly ahead of it, in order along it, at the exact points, and none clearly off it; a segment finds a triangle exactly when it clearly meets one, flat meshes included"""
    tris = np.array(case["t"])
    a, b = np.array(case["a"]), np.array(case["b"])
    if case["aim"] is not None:
        # through a point of a triangle, so that hits are common
        m = np.array(case["w"]) @ tris[case["aim"]]
        b = a + (m - a) * case["len"]
    d = b - a
    if np.linalg.norm(d) < 0.1:
        ctx.trivial()
        return
    def judge(t, far):
        """(sure hit, sure miss, point)"""
        e1, e2 = t[1] - t[0], t[2] - t[0]
        n = np.cross(e1, e2)
        det = n @ d
        if np.linalg.norm(n) < 1e-4 * max(np.linalg.norm(e1), np.linalg.norm(e2), np.linalg.norm(t[2] - t[1])) ** 2 or np.linalg.norm(n) < 1e-3:
            return False, False, None
        if abs(det) < 0.02 * np.linalg.norm(n) * np.linalg.norm(d):
            return False, False, None
        s = n @ (t[0] - a) / det
        x = a + s * d
        v = np.cross(x - t[0], e2) @ n / (n @ n)
        w = np.cross(e1, x - t[0]) @ n / (n @ n)
        q = (1 - v - w, v, w)
        hit = min(q) > 0.02 and s > 0.02 and (far or s < 0.98)
        miss = min(q) < -0.02 or s < -0.02 or (not far and s > 1.02)
        return hit, miss, x
    size = 1 + abs(tris).max()
    objs = [B.Triangle(t, value=i) for i, t in enumerate(tris)]
    mesh = B.build_bvh_from_mesh(tris.reshape(-1, 3), np.arange(3 * len(tris)).reshape(-1, 3), case["leaf"])
    def find(tri):
        return [i for i, t in enumerate(tris) if np.array_equal(t, tri.pts)]
    ray = B.Ray(a.copy(), d)
    j = [judge(t, True) for t in tris]
    ctx.label("hits%d" % min(3, sum(x[0] for x in j)), "flat" if (np.ptp(tris.reshape(-1, 3), axis=0) == 0).any() else "solid")
    if not any(x[0] for x in j):
        ctx.label("miss")
    if case["leaf"] == 1:
        got = B.mesh_bvh_ray_intersection(mesh, ray)
        hit = set()
        for p, tri, dist in got:
            i = find(tri)
            hit.update(i)
            require(not all(j[k][1] for k in i), "a ray from %s along %s is given a triangle it misses, %s", a, d, tri.pts.tolist())
            for k in i:
                if j[k][0]:
                    near(p, j[k][2], 1e-8 * size, "the point where a ray meets %s", tri.pts.tolist())
        require(all(x in hit for x in range(len(tris)) if j[x][0]), "a ray from %s along %s is given the triangles %s of %s, and clearly meets %s", a, d, sorted(hit), tris.tolist(), [x for x in range(len(tris)) if j[x][0]])
        along = [(p - a) @ d for p, _, _ in got]
        require(all(x <= y + 1e-8 * size * np.linalg.norm(d) for x, y in zip(along, along[1:])), "the hits of a ray are at %s along it, out of order", along)
        boxes = {i for o in B.bvh_ray_intersection(B.build_bvh(objs), ray) for i in [o[0].value]}
        require(all(x in boxes for x in range(len(tris)) if j[x][0]), "a ray from %s along %s is given the boxes %s, and clearly meets the triangles %s", a, d, sorted(boxes), [x for x in range(len(tris)) if j[x][0]])
    seg = np.array([a, b])
    j = [judge(t, False) for t in tris]
    if case["leaf"] == 1:
        r = B.bvh_segment_intersection(B.build_bvh(objs), seg)
        boxes = [o.value for o, _ in r]
        require(len(boxes) == len(set(boxes)), "a segment is given the boxes %s", boxes)
        require(all(x in boxes for x in range(len(tris)) if j[x][0]), "the segment %s is given the boxes %s, and clearly meets the triangles %s", seg.tolist(), boxes, [x for x in range(len(tris)) if j[x][0]])
    r = B.mesh_bvh_segment_intersection_one(mesh, seg)
    if any(x[0] for x in j):
        require(r is not None, "the segment %s is given no triangle of %s, and clearly meets %s", seg.tolist(), tris.tolist(), [x for x in range(len(tris)) if j[x][0]])
    if r is not None:
        require(not all(x[1] for x in j), "the segment %s is given the point %s, and meets no triangle of %s", seg.tolist(), r[0], tris.tolist())
        p = np.array(r[0])
        off = min([np.linalg.norm(p - x[2]) for x in j if x[2] is not None and not x[1]] + [0.0 if x[2] is None else np.inf for x in j])
        require(off < 1e-8 * size, "the point %s given for the segment %s is %s off all triangles it may meet", p, seg.tolist(), off)
        require(np.array_equal(seg, [a, b]), "the segment handed in changed")
