"""Vectors, points, matrices and bounding boxes of the object API against plain linear algebra."""
import math
import numpy as np
from hypothesis import strategies as st
from mmcore.api import bbox as mb
from mmcore.api import curves as mc
from mmcore.api import vectors as mv
from mmcore.geom import vec
from mmcore.geom.vec import svm

from ..core import facet, require
from .c21 import near, rot, unit_quaternion, vec3

FACETS = []
RULE = "Vectors and points of either dimension with whole or real coordinates, rotations, coordinate systems, boxes that touch, cross, contain each other or lie apart; histories of operations in place; trivial for zero vectors and single operations."
ASSUMPTIONS = ["vectors and points compare equal within the tolerance of numpy.allclose", "angles of rotations are in radians in the plane and in degrees in space, as implemented"]

def num():
    return st.one_of(st.integers(-9, 9), st.floats(-9, 9).map(lambda x: round(x, 5)))

def tup(n):
    return st.lists(num(), min_size=n, max_size=n)

OPS = ["+", "-", "*", "add", "subtract", "scale", "set", "copy", "x", "last", "iadd", "isub", "imul", "transform", "normalize"]

@st.composite
def histories(draw):
    n = draw(st.sampled_from([2, 3]))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        o = draw(st.sampled_from(OPS))
        ops.append([o, draw(num()) if o in ("scale", "x", "last", "*", "imul") else draw(tup(n)) if o not in ("copy", "normalize", "transform") else [draw(tup(n)) for _ in range(n)] + [draw(tup(n))] if o == "transform" else None])
    return {"n": n, "v": draw(tup(n)), "ops": ops, "point": draw(st.booleans())}

def matrix(n, cells):
    A = np.eye(n + 1)
    A[:n, :n] = cells[:n]
    A[:n, n] = cells[n]
    return A

@facet(FACETS, histories, 400, 6000)
def vectors(case, ctx):
    """a vector or point goes through any history of operations as its coordinates do; what is not in place makes a new one, what is keeps it, and copies are independent"""
    n = case["n"]
    C = [[mv.Vector2D, mv.Point2D], [mv.Vector3D, mv.Point3D]][n - 2][case["point"]]
    M = mv.Matrix2D if n == 2 else mv.Matrix3D
    if len(case["ops"]) < 2:
        ctx.trivial()
    v = C(case["v"])
    w = np.array(case["v"], float)
    olds = []
    for o, x in case["ops"]:
        ctx.label(o)
        before = v
        if o in "+-*":
            if o == "*":
                v, w = v * x, w * x
            else:
                y = C(x)
                v, w = (v + y, w + np.array(x, float)) if o == "+" else (v - y, w - np.array(x, float))
                require(np.array_equal(y.as_array(), x), "the second operand of %s changed", o)
            olds.append((before, before.as_array().copy()))
        elif o in ("add", "iadd"):
            if o == "add" and n == 3:
                require(v.add(C(x)) is True, "add fails")
            else:
                v += C(x)
            w = w + np.array(x, float)
        elif o in ("subtract", "isub"):
            if o == "subtract":
                require(v.subtract(C(x)) is True, "subtract fails")
            else:
                v -= C(x)
            w = w - np.array(x, float)
        elif o in ("scale", "imul"):
            if o == "scale":
                require(v.scale(x) is True, "scale fails")
            else:
                v *= x
            w = w * x
        elif o == "set":
            v.set_with_array(x)
            w = np.array(x, float)
        elif o == "copy":
            olds.append((before, before.as_array().copy()))
            v = v.copy()
        elif o in ("x", "last"):
            setattr(v, "x" if o == "x" else "xyz"[n - 1], x)
            w = w.copy()
            w[0 if o == "x" else n - 1] = x
        elif o == "transform":
            A = matrix(n, x)
            m = M(A)
            u = m @ v
            require(type(u) is C, "a matrix takes a %s to a %s", C.__name__, type(u).__name__)
            require(v.transform(m) is True, "transform fails")
            w = (A @ np.append(w, 1))[:n]
            near(u.as_array(), w, 1e-9 * (1 + np.abs(w).max()), "matrix @ vector")
            require(np.array_equal(m.as_array(), A), "the matrix changed")
        else:
            if np.linalg.norm(w) < 1e-3:
                continue
            require(v.normalize() is True, "normalize fails")
            w = w / np.linalg.norm(w)
        require(type(v) is C, "%s of a %s makes a %s", o, C.__name__, type(v).__name__)
        near(v.as_array(), w, 1e-9 * (1 + np.abs(w).max()), "the vector after %s" % o)
        w = np.array(v.as_array())
        for old, c in olds:
            require(old is not v and np.array_equal(old.as_array(), c), "%s changed the vector made before", o)
    near(v.length, np.linalg.norm(w), 1e-9 * (1 + np.abs(w).max()), "length")
    near([getattr(v, c) for c in "xyz"[:n]], w, 0, "coordinates")
    near(np.array(v), w, 0, "array")
    require(v == C(w) and v.is_equal(C(w)) and not v == C(w + 1 + np.abs(w).max()), "equality of %s", w.tolist())
    flat, deep = mv.Vector2D.cast(v), mv.Vector3D.cast(v)
    near(flat.as_array(), w[:2], 0, "Vector2D.cast")
    near(deep.as_array(), np.append(w, 0)[:3], 0, "Vector3D.cast")
    near(v.as_point().as_array(), w, 0, "as_point")
    T = v.to_translation()
    near((T @ C(np.zeros(n))).as_array(), w, 0, "to_translation")

@st.composite
def pairs(draw):
    n = draw(st.sampled_from([2, 3]))
    a = draw(tup(n))
    kind = draw(st.sampled_from(["any", "any", "parallel", "opposite", "perpendicular"]))
    b = draw(tup(n))
    k = draw(st.sampled_from([1, 2, 0.5, 7]))
    if kind == "parallel":
        b = [x * k for x in a]
    elif kind == "opposite":
        b = [-x * k for x in a]
    elif kind == "perpendicular":
        b = [-a[1] * k, a[0] * k] + [0] * (n - 2)
    return {"n": n, "a": a, "b": b, "c": draw(tup(n)), "kind": kind}

@facet(FACETS, pairs, 400, 6000)
def relations(case, ctx):
    """products, angles, projections, parallel and perpendicular directions are those of linear algebra whatever the lengths; nothing given is changed"""
    n = case["n"]
    a, b, c = (np.array(case[k], float) for k in "abc")
    la, lb = np.linalg.norm(a), np.linalg.norm(b)
    if min(la, lb) < 1e-2:
        ctx.trivial()
        return
    ctx.label(case["kind"])
    C = mv.Vector2D if n == 2 else mv.Vector3D
    A, B = C(a), C(b)
    keep = [x.copy() for x in (a, b, c)]
    near(A.dot(B), a @ b, 1e-9 * la * lb, "dot")
    cross = np.cross(np.append(a, 0)[:3], np.append(b, 0)[:3])
    sin, cos = np.linalg.norm(cross) / la / lb, a @ b / la / lb
    th = math.atan2(sin, cos)
    near(A.angle_to(B), th, 1e-7, "angle_to")
    if sin < 1e-9 or sin > 0.02:
        require(bool(A.is_parallel(B)) == (sin < 1e-9), "is_parallel(%s, %s)", case["a"], case["b"])
    if a @ b == 0 or abs(cos) > 1e-3 and abs(a @ b) > 1e-6:
        require(bool(A.is_perpendicular(B)) == (a @ b == 0), "is_perpendicular(%s, %s)", case["a"], case["b"])
    if n == 3:
        near(A.cross(B).as_array(), cross, 1e-9 * la * lb, "cross")
        near(vec.cross(a, b), cross, 1e-9 * la * lb, "vec.cross")
    near(vec.dot(a, b), a @ b, 1e-9 * la * lb, "vec.dot")
    many = np.array([a, b, a + b + 1])
    near(vec.dot(many, many), [x @ x for x in many], 1e-9 * (1 + many.max() ** 2) * 10, "vec.dot of many")
    near(vec.norm(a), la, 1e-9 * la, "vec.norm")
    near(vec.norm(many), [np.linalg.norm(x) for x in many], 1e-9 * 40, "vec.norm of many")
    near(vec.norm_sq(a), la * la, 1e-9 * la * la, "vec.norm_sq")
    near(vec.dist(a, b), np.linalg.norm(a - b), 1e-9 * (la + lb), "vec.dist")
    near(vec.unit(a), a / la, 1e-12, "vec.unit")
    near(vec.unit(case["a"]), a / la, 1e-12, "vec.unit of a list")
    if np.linalg.norm(many[2]) > 1e-2:
        near(vec.unit(many), [x / np.linalg.norm(x) for x in many], 1e-12, "vec.unit of many")
    near(vec.angle(a / la, b / lb), th, 1e-7, "vec.angle")
    near(vec.projection_length(a, b), a @ b / lb, 1e-9 * la, "projection_length")
    if min(np.linalg.norm(a - c), np.linalg.norm(b - c)) > 1e-2:
        u, v = (a - c) / np.linalg.norm(a - c), (b - c) / np.linalg.norm(b - c)
        near(vec.dot3pt(a, c, b), u @ v, 1e-9, "dot3pt")
        near(vec.angle3pt(a, c, b), math.acos(max(-1, min(1, u @ v))), 1e-6, "angle3pt")
    if n == 2:
        near(vec.perp2d(a), [-a[1], a[0]], 0, "perp2d")
    g = vec.gram_schmidt(a, b)
    near(g @ a, 0, 1e-12 * 10 * la, "the product of gram_schmidt")
    near(g, b / lb - a / la * cos, 1e-12 * 10, "gram_schmidt")
    near(vec.make_perpendicular(a, b) @ a, 0, 1e-11 * la, "the product of make_perpendicular")
    if n == 3 and sin > 0.05:
        d = np.linalg.norm(c)
        if d > 1e-2 and abs(c @ cross) / (d * la * lb) > 0.02:
            U = np.array(vec.orthonormalize(a, b, c))
            near(U @ U.T, np.eye(3), 1e-9, "the products of orthonormalize")
            near(U[0], a / la, 1e-12, "the first of orthonormalize")
            near(U[1] @ cross, 0, 1e-9 * la * lb, "the second of orthonormalize")
            require(U[1] @ b > 0 and U[2] @ c > 0, "orthonormalize turns a vector back")
    for x, y, k in zip((a, b, c), keep, "abc"):
        require(np.array_equal(x, y), "the argument %s was changed from %s to %s", k, y.tolist(), x.tolist())
    s = svm.support_vector(many, a)
    near(s @ a, (many @ a).max(), 1e-12 * (1 + np.abs(many @ a).max()), "the height of the support vector")

@st.composite
def frames(draw):
    n = draw(st.sampled_from([2, 3]))
    def cs():
        if draw(st.booleans()):
            th = draw(st.floats(-3, 3))
            R = [[math.cos(th), math.sin(th)], [-math.sin(th), math.cos(th)]] if n == 2 else rot(draw(unit_quaternion())).tolist()
            k = draw(st.sampled_from([1, 1, 2]))
            return [[k * x for x in r] for r in R] + [draw(tup(n))]
        return [[float(i == j) for j in range(n)] for i in draw(st.permutations(range(n)))] + [draw(tup(n))]
    return {"n": n, "a": cs(), "b": cs(), "p": draw(tup(n)), "ang": draw(st.floats(-3, 3)), "axis": draw(tup(n)), "from": draw(tup(n)), "to": draw(tup(n)), "flip": draw(st.sampled_from([0, 0, 0, 1, -1])), "dirty": draw(tup(n))}

@facet(FACETS, frames, 400, 6000)
def matrices(case, ctx):
    """a matrix made from a coordinate system gives it back and maps the axes to it; aligning two systems maps one to the other; rotations keep lengths and their centre, and turn one direction to another; inverses, copies and products are those of the cells"""
    n = case["n"]
    V, P, M = (mv.Vector2D, mv.Point2D, mv.Matrix2D) if n == 2 else (mv.Vector3D, mv.Point3D, mv.Matrix3D)
    a, b = (np.array(case[k], float) for k in "ab")
    args = lambda f: [P(f[n])] + [V(x) for x in f[:n]]
    p = np.array(case["p"], float)
    m = M.create()
    near(m.as_array(), np.eye(n + 1), 0, "a new matrix")
    size = 1 + max(np.abs(a).max(), np.abs(b).max(), np.abs(p).max())
    require(m.set_with_coordinate_system(*args(a)) is True, "set_with_coordinate_system fails")
    for got, want in zip(m.get_as_coordinate_system(), [a[n], *a[:n]]):
        near(got.as_array(), want, 0, "get_as_coordinate_system")
    near((m @ P(p)).as_array(), a[n] + p @ a[:n], 1e-9 * size ** 2, "the point with given coordinates in a system")
    near(m.translation.as_array(), a[n], 0, "translation")
    near(m.determinant, np.linalg.det(a[:n]), 1e-9 * 10, "determinant")
    c = m.copy()
    inv = m.copy()
    inv.invert()
    near((inv @ (m @ P(p))).as_array(), p, 1e-7 * size ** 2, "the inverse")
    require(m.is_equal_to(c) and np.array_equal(c.as_array(), M(m.as_array()).as_array()) and np.array_equal(M.cast(m.as_array().tolist()).as_array(), m.as_array()), "a matrix differs from its copy, or from one of its cells")
    other = M()
    other.set_with_coordinate_system(*args(b))
    near((m @ other).as_array(), m.as_array() @ other.as_array(), 1e-9 * size ** 2, "the product")
    require(np.array_equal(m.as_array(), c.as_array()), "the product changed the matrix")
    al = M()
    require(al.set_to_align_coordinate_systems(*args(a), *args(b)) is True, "set_to_align_coordinate_systems fails")
    near((al @ (m @ P(p))).as_array(), b[n] + p @ b[:n], 1e-7 * size ** 2, "the point aligned")
    r = M()
    r.translation = V(case["dirty"])
    if n == 2:
        r.set_to_rotation(case["ang"], P(p))
        th = case["ang"]
    else:
        axis = np.array(case["axis"], float)
        if np.linalg.norm(axis) < 1e-2:
            axis = np.array([0.0, 0, 1])
        r.set_to_rotation(math.degrees(case["ang"]), V(axis), P(p))
        near((r @ P(p + 2 * axis)).as_array(), p + 2 * axis, 1e-8 * size * 10, "a point of the axis, rotated")
    R = r.as_array()[:n, :n]
    near(R @ R.T, np.eye(n), 1e-9, "the products of the axes of a rotation")
    near(np.linalg.det(R), 1, 1e-9, "the determinant of a rotation")
    near(np.trace(R), 2 * math.cos(case["ang"]) + (n == 3), 1e-9, "the trace of a rotation")
    near((r @ P(p)).as_array(), p, 1e-8 * size, "the centre of a rotation")
    if n == 2:
        near(R, [[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]], 1e-12, "the rotation")
    else:
        u = axis / np.linalg.norm(axis)
        w = np.cross(u, [1, 0, 0] if abs(u[0]) < 0.7 else [0, 1, 0])
        near(np.dot(np.cross(w, R @ w), u) / (w @ w), math.sin(case["ang"]), 1e-9, "the sine of a rotation")
    f, t = np.array(case["from"], float), np.array(case["to"], float)
    if np.linalg.norm(f) < 1e-2:
        f = np.eye(n)[0]
    if case["flip"] or np.linalg.norm(t) < 1e-2:
        t = f * (case["flip"] or 1) * 2
    r = M()
    r.translation = V(case["dirty"])
    fu, tu = f / np.linalg.norm(f), t / np.linalg.norm(t)
    if n == 3:
        side = np.cross(fu, [1, 0, 0] if abs(fu[0]) < 0.7 else [0, 1, 0])
        gap = np.linalg.norm(np.cross(fu, tu))
        if 0 < gap < 1e-4:
            return
        ctx.label("opposite" if fu @ tu < -1 + 1e-9 else "same" if gap < 1e-9 else "apart")
        require(r.set_to_rotate_to(V(f), V(t), V(side)) is True, "set_to_rotate_to fails from %s to %s", f.tolist(), t.tolist())
        if gap < 1e-9 and fu @ tu < 0:
            require(M().set_to_rotate_to(V(f), V(t)) is False, "opposite directions without an axis are aligned")
    else:
        r.set_to_rotate_to(V(f), V(t))
    near((r @ V(f)).as_array() / np.linalg.norm(f), tu, 1e-7, "the direction rotated to another")
    R = r.as_array()[:n, :n]
    near(R @ R.T, np.eye(n), 1e-9, "the products of the axes of the rotation")
    near(np.linalg.det(R), 1, 1e-9, "the determinant of the rotation")

@st.composite
def boxes(draw):
    n = draw(st.sampled_from([2, 3]))
    lim = draw(st.sampled_from([2, 9]))
    c = st.one_of(st.integers(-lim, lim), st.floats(-lim, lim))
    def box():
        return draw(st.lists(st.lists(c, min_size=n, max_size=n), min_size=1, max_size=5))
    return {"n": n, "a": box(), "b": box(), "p": draw(st.lists(c, min_size=n, max_size=n)), "u": draw(st.lists(st.sampled_from([0, 1, 0.5, -0.5, 1.5]), min_size=n, max_size=n))}

@facet(FACETS, boxes, 500, 8000)
def bounding_boxes(case, ctx):
    """a bounding box has the least and greatest coordinates of its points; containment, overlap, intersection, union, combination and expansion are those of the intervals in every direction; making and copying keep them"""
    n = case["n"]
    B, P = (mb.BoundingBox2D, mv.Point2D) if n == 2 else (mb.BoundingBox3D, mv.Point3D)
    a, b = np.array(case["a"], float), np.array(case["b"], float)
    lo, hi, lo2, hi2 = a.min(0), a.max(0), b.min(0), b.max(0)
    box, other = B(case["a"]), B.create_from_many_points(case["b"])
    if len(a) < 2 or len(b) < 2:
        ctx.trivial()
    def same(x, l, h, what):
        require(type(x) is B and np.array_equal(x.min.as_array(), l) and np.array_equal(x.max.as_array(), h), "%s of %s and %s is %s, and should be from %s to %s", what, case["a"], case["b"], x, l.tolist(), h.tolist())
    same(box, lo, hi, "the box")
    same(B.create_from_min_max_points(P(lo), P(hi)), lo, hi, "create_from_min_max_points")
    same(B.create(P(lo), P(hi)), lo, hi, "create")
    corners = P(lo), P(hi)
    made, twin = B.create(*corners), B.create(*corners)
    made.expand(P(case["p"]))
    made.combine(other)
    same(twin, lo, hi, "a box made of the same corners")
    require(np.array_equal(corners[0].as_array(), lo) and np.array_equal(corners[1].as_array(), hi), "the corners a box was made of are moved with it: %s", corners)
    same(B.cast(case["a"]), lo, hi, "cast")
    same(B(np.array(box)), lo, hi, "the box of the box")
    c = box.copy()
    same(c, lo, hi, "copy")
    near(box.sizes(), hi - lo, 1e-12, "sizes")
    near(box.area() if n == 2 else box.volume(), np.prod(hi - lo), 1e-9, "area or volume")
    near(box.centroid, (lo + hi) / 2, 1e-12 * 20, "centroid")
    v = np.asarray(box.to_vertices())
    require(v.shape == (2 ** n, n) and np.array_equal(v.min(0), lo) and np.array_equal(v.max(0), hi) and len(np.unique(v, axis=0)) == 2 ** int((hi > lo).sum()), "the corners of %s are %s", box, v.tolist())
    for p in ([float(x) for x in case["p"]], (lo + np.array(case["u"]) * (hi - lo)).tolist()):
        want = bool(np.all(lo <= p) and np.all(p <= hi))
        require(bool(box.contains(P(p))) == want, "%s contains %s: %s", box, p, not want)
    meet = bool(np.all(lo <= hi2) and np.all(lo2 <= hi))
    ctx.label("meet" if meet else "apart", "%d-D" % n)
    for x, y in ((box, other), (other, box)):
        require(bool(x.intersects(y)) == meet and bool(x.overlap(y)) == meet, "%s and %s intersect: %s, overlap: %s", x, y, x.intersects(y), x.overlap(y))
        got = x.intersection(y)
        if meet:
            same(got, np.maximum(lo, lo2), np.minimum(hi, hi2), "the intersection")
        else:
            require(got is None, "the intersection of %s and %s is %s", x, y, got)
        same(x.union(y), np.minimum(lo, lo2), np.maximum(hi, hi2), "the union")
    same(box, lo, hi, "the box after all")
    require(c.combine(other) is True, "combine fails")
    same(c, np.minimum(lo, lo2), np.maximum(hi, hi2), "the combination")
    same(other, lo2, hi2, "the other box")
    same(box, lo, hi, "the box its copy was made of")
    e = box.copy()
    p = np.array(case["p"], float)
    require(e.expand(P(p)) is True and e.contains(P(p)), "expand fails")
    same(e, np.minimum(lo, p), np.maximum(hi, p), "the expansion")

@st.composite
def crossings(draw):
    return {"o": draw(tup(3)), "u": draw(tup(3)), "v": draw(tup(3)), "s": draw(num()), "t": draw(num()), "q": draw(st.lists(tup(2), min_size=3, max_size=3))}

@facet(FACETS, crossings, 300, 4000)
def helpers(case, ctx):
    """lines built to cross do so at the parameters found, and the circle through three points passes through them"""
    o, u, v = (np.array(case[k], float) for k in "ouv")
    c = np.linalg.norm(np.cross(u, v))
    if c < 0.1 or c < 1e-2 * np.linalg.norm(u) * np.linalg.norm(v):
        ctx.trivial()
    else:
        s, t = float(case["s"]), float(case["t"])
        a, b = o - s * u, o - t * v
        A = mc.InfiniteLine3D(mv.Point3D(a), mv.Vector3D(u))
        B = mc.InfiniteLine3D(mv.Point3D(b), mv.Vector3D(v))
        ok, s1, t1 = mc.line_line_intersection(A, B)
        k = 1e-9 * (1 + np.abs([s, t]).max()) * (1 + np.abs(o).max() + np.abs(u).max() + np.abs(v).max()) ** 2 / c
        require(ok, "lines that cross are reported parallel")
        near([s1, t1], [s, t], 100 * k, "the parameters of the crossing")
        C = mc.InfiniteLine3D(mv.Point3D(b + 1), mv.Vector3D(2 * u))
        ok, *_ = mc.line_line_intersection(A, C)
        require(not ok, "parallel lines cross")
        L1, L2 = mc.Line3D(mv.Point3D(a), mv.Point3D(a + u)), mc.Line3D.cast([b, b + v])
        near(L1(0.3), a + 0.3 * u, 1e-12 * 100, "a point of a segment")
        near(L1.evaluate_param(0.3).as_array(), L1(0.3), 1e-12 * 100, "evaluate_param")
        near(L1.as_infinite_line()(2.5), a + 2.5 * u, 1e-12 * 100, "as_infinite_line")
        near(A.copy()(-1), a - u, 1e-12 * 100, "a copy")
        sure = min(abs(s), abs(s - 1), abs(t), abs(t - 1)) > 1e-6
        on1, on2 = 0 <= s <= 1, 0 <= t <= 1
        gap = np.cross(u, v) / c
        for x, y, want in ((L1, L2, on1 and on2), (L1, B, on1), (A, L2, on2), (A, B, True)):
            ok, s1, t1 = x.intersect_with_line(y)
            near([s1, t1], [s, t], 100 * k, "the parameters of the intersection")
            if sure and k < 1e-7:
                require(ok == want, "%s and %s intersect: %s", type(x).__name__, type(y).__name__, ok)
                if isinstance(y, mc.Line3D):
                    pts = x.intersect_with_curve(y)
                    require(len(pts) == want, "%d intersections", len(pts))
                    for p, at in pts:
                        near(p.as_array(), o, 1e-6, "the intersection")
                        near(at, [s, t], 100 * k, "the parameters of the intersection")
        D = mc.Line3D(mv.Point3D(b + gap), mv.Point3D(b + gap + v))
        require(not A.intersect_with_line(D)[0] and not D.intersect_with_line(A)[0], "skew lines intersect")
        require(not A.intersect_with_line(C)[0], "parallel lines intersect")
    q = np.array(case["q"], float)
    d = np.linalg.det(np.array([q[1] - q[0], q[2] - q[0]]))
    if abs(d) > 0.5:
        ctx.label("circle")
        x, y, r = mc.circle2d_from_3pt(*q.ravel())
        near(np.hypot(q[:, 0] - x, q[:, 1] - y), [r] * 3, 1e-7 * (1 + r) ** 2, "the distances of the points from the centre")
        C = mc.Circle2D.create_by_three_points(*map(mv.Point2D, q))
        near([C.center.x, C.center.y, C.radius], [x, y, r], 0, "create_by_three_points")
