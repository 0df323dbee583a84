"""Vector kernels."""
import math

import numpy as np

from hypothesis import strategies as st
from mmcore.numeric import vectors as V

from .. import gen
from ..core import facet, require
from .c21 import near, rot, unit_quaternion, vec3

FACETS = []
RULE = "Rows of vectors with zero, equal, parallel and axis-parallel ones among them; trivial when all components are zero."
ASSUMPTIONS = ["lengths by which the code divides (units, projections, lines) are at least 0.001 here"]

@st.composite
def rows(draw):
    n, d = draw(st.integers(1, 6)), draw(st.sampled_from([3, 3, 3, 2, 4]))
    v = lambda: draw(st.lists(st.lists(gen.coord(), min_size=d, max_size=d), min_size=n, max_size=n))
    return {"a": v(), "b": v(), "n": draw(st.integers(0, 3)), "m": draw(st.lists(gen.coord(), min_size=24, max_size=24)), "junk": draw(gen.coord())}

def dirty(x, n):
    """Leaves freed memory of this size filled with x, so that uninitialised results show."""
    for _ in range(4):
        k = [np.full(n, x + 1.0) for _ in range(20)]
        del k

@facet(FACETS, rows, 900, 15000)
def rows_of_vectors(case, ctx):
    """sums, products, norms, units and extreme points of rows of vectors are those of each row, and the rows handed in do not change"""
    a, b = np.array(case["a"]), np.array(case["b"])
    a0, b0 = a.copy(), b.copy()
    n, d = a.shape
    s = 1e-12 * (1 + np.abs(a).max()) * (1 + np.abs(b).max()) * 8
    if not a.any() or not b.any():
        ctx.trivial()
    dirty(case["junk"], n)
    near(V.dot(a, b), (a * b).sum(axis=1), s, "dot")
    dirty(case["junk"], n)
    near(V.dot_array_x_array(a, b), (a * b).sum(axis=1), s, "dot_array_x_array")
    dirty(case["junk"], n)
    near(V.dot_vec_x_array(a[0], b), b @ a[0], s, "dot_vec_x_array")
    dirty(case["junk"], n)
    near(V.dot_array_x_vec(a, b[0]), a @ b[0], s, "dot_array_x_vec")
    near(V.norm(a), np.sqrt((a * a).sum(axis=1)), s, "norm")
    long = np.linalg.norm(a, axis=1) > 1e-3
    u = np.array(V.unit(a[long])) if long.any() else np.zeros((0, d))
    near(u, a[long] / np.linalg.norm(a[long], axis=1)[:, None], 1e-12, "unit")
    for x, y in zip(a, b):
        near(V.scalar_dot(x, y), float(x @ y), s, "scalar_dot")
        near(V.scalar_norm(x), math.sqrt(x @ x), s, "scalar_norm")
        if x @ x > 1e-6:
            near(V.scalar_unit(x), x / np.linalg.norm(x), 1e-12, "scalar_unit")
            y = x.copy()
            require(V.scalar_normalize(y) == 1, "scalar_normalize refuses %s", x.tolist())
            near(y, x / np.linalg.norm(x), 1e-12, "scalar_normalize")
    z = np.zeros(d)
    require(V.scalar_normalize(z) == 0 and not z.any(), "scalar_normalize of a zero vector leaves %s", z.tolist())
    for k in range(n):
        w = np.array(V.support_vector(a, b[k]))
        require(any((w == x).all() for x in a), "support_vector gives %s, none of the vertices", w.tolist())
        near(float(w @ b[k]), float((a @ b[k]).max()), s, "the height of support_vector along %s", b[k].tolist())
    near(np.einsum("ij,ij->i", np.array(V.multi_support_vector(a, b)), b), (b @ a.T).max(axis=1), s, "the heights of multi_support_vector")
    e = a.copy()
    e[long] = u
    dirty(case["junk"], n * d)
    near(V.gram_schmidt(e, b), b - e * (e * b).sum(axis=1)[:, None], s * 4, "gram_schmidt")
    if d == 3:
        near(V.cross(a, b), np.cross(a, b), s, "cross")
        near(V.scalar_cross(a[0], b[0]), np.cross(a[0], b[0]), s, "scalar_cross")
    m = np.array(case["m"])
    k = case["n"] + 1
    A, B = m[:k * 6].reshape(k, 2, 3), m[:k * 6].reshape(k, 3, 2)[::-1].copy()
    dirty(case["junk"], k * 4)
    near(V.matmul_array(A, B), A @ B, 1e-12 * (1 + np.abs(m).max()) ** 2 * 9, "matmul_array")
    require((a == a0).all() and (b == b0).all(), "a row of vectors handed in was changed")

@st.composite
def spots(draw):
    return {"p": draw(st.lists(vec3(), min_size=1, max_size=5)), "r": draw(st.lists(st.tuples(st.integers(1, 90), st.integers(1, 313), st.integers(-314, 314)), min_size=1, max_size=5))}

@facet(FACETS, spots, 600, 10000)
def coordinates(case, ctx):
    """spherical and cylindrical coordinates are those of the points, both ways"""
    p = np.array(case["p"])
    q = np.array([(a / 10, b / 100, c / 100) for a, b, c in case["r"]])
    near(V.spherical_to_cartesian(q), np.c_[q[:, 0] * np.sin(q[:, 1]) * np.cos(q[:, 2]), q[:, 0] * np.sin(q[:, 1]) * np.sin(q[:, 2]), q[:, 0] * np.cos(q[:, 1])], 1e-12, "spherical_to_cartesian")
    near(V.cartesian_to_spherical(np.array(V.spherical_to_cartesian(q))), q, 1e-9, "spherical coordinates, to Cartesian and back")
    near(V.spherical_to_cartesian(np.array(V.cartesian_to_spherical(p))), p, 1e-11 * (1 + np.abs(p).max()), "points, to spherical and back")
    near(V.cylindrical_to_xyz(q), np.c_[q[:, 0] * np.cos(q[:, 1]), q[:, 0] * np.sin(q[:, 1]), q[:, 2]], 1e-12, "cylindrical_to_xyz")
    near(V.cylindrical_to_xyz(np.array(V.courtesan_to_cylindrical(p))), p, 1e-11 * (1 + np.abs(p).max()), "points, to cylindrical and back")
    r = np.array(V.courtesan_to_cylindrical(p))
    near(r[:, 0], np.hypot(p[:, 0], p[:, 1]), 1e-11 * (1 + np.abs(p).max()), "the radius of cylindrical coordinates")

@st.composite
def nearests(draw):
    return {"s": draw(vec3()), "d": draw(vec3()), "p": draw(vec3()), "v": draw(st.lists(vec3(), min_size=1, max_size=3)), "a": draw(vec3()), "b": draw(vec3()), "q": draw(unit_quaternion())}

@facet(FACETS, nearests, 900, 15000)
def projections(case, ctx):
    """projections on vectors and lines are the nearest points of them; components along two vectors give back a vector of their plane"""
    s, d, p, a, b = (np.array(case[k]) for k in "sdpab")
    z = 1 + max(np.abs(x).max() for x in (s, d, p, a, b, np.array(case["v"])))
    if np.linalg.norm(d) > 1e-3:
        t = (p - s) @ d / (d @ d)
        want = s + t * d
        near(V.closest_point_on_ray(s, d, p), want, 1e-11 * z, "closest_point_on_ray")
        near(V.closest_point_on_line(s, s + d, p), want, 1e-9 * z, "closest_point_on_line")
        near(V.vector_projection(p, d), d * (p @ d) / (d @ d), 1e-11 * z, "vector_projection")
        from mmcore.numeric import closest_point as C
        near(C.closest_point_on_ray((s, d), p), want, 1e-11 * z, "closest_point.closest_point_on_ray")
        near(C.closest_point_on_line((s, s + d), p), want, 1e-9 * z, "closest_point.closest_point_on_line")
    else:
        ctx.trivial()
    g = np.array([[a @ a, a @ b], [a @ b, b @ b]])
    if np.linalg.det(g) > 1e-3 * max(1, a @ a) * max(1, b @ b):
        k = np.array(case["v"])
        x = k[:, :1] * a + k[:, 1:2] * b + k[:, 2:] * np.cross(a, b)
        near(V.decompose_vectors(x, a, b), k[:, :2], 1e-6 * z, "decompose_vectors")
        near(V.decompose_vector(x[0], a, b), k[0, :2], 1e-6 * z, "decompose_vector")
    n = V.normal_from_4pt(s, d, p, a)
    near(n, np.cross(p - s, a - d), 1e-11 * z * z, "normal_from_4pt")

@st.composite
def systems(draw):
    n = draw(st.integers(1, 4))
    m = st.lists(st.lists(gen.coord(), min_size=2, max_size=2), min_size=2, max_size=2)
    return {"m": draw(st.lists(m, min_size=n, max_size=n)), "y": draw(st.lists(gen.coord(), min_size=2, max_size=2)), "poly": draw(st.lists(st.lists(gen.coord(), min_size=2, max_size=2), min_size=3, max_size=7))}

@facet(FACETS, systems, 700, 12000)
def small_systems(case, ctx):
    """2 x 2 systems, and Jacobians (one or many) are solved and inverted when they are regular, singular ones are refused; the orientation of a closed polygon is the sign of its area"""
    M, y = np.array(case["m"]), np.array(case["y"])
    dets = M[:, 0, 0] * M[:, 1, 1] - M[:, 0, 1] * M[:, 1, 0]
    inv, status = V.invert_jacobian(M)
    inv, status = np.array(inv), np.array(status)
    require(status.shape == (len(M),), "the status of %d Jacobians has shape %s", len(M), status.shape)
    for i, m in enumerate(M):
        i1, s1 = V.invert_jacobian(m)
        require(s1 == status[i] == (0 if dets[i] else -1), "invert_jacobian(%s): status %s, %s at once", m.tolist(), s1, status[i])
        x = np.full(2, 7.0)
        r = V.solve2x2(m, y, x)
        require(bool(r) == bool(dets[i]), "solve2x2(%s) says %s", m.tolist(), r)
        s = np.abs(m).max()
        if abs(dets[i]) > 1e-4 * max(1, s * s):
            near(m @ np.array(i1), np.eye(2), 1e-9 * max(1, s * s), "a matrix times its invert_jacobian")
            near(inv[i], i1, 0, "invert_jacobian of many, compared with one by one")
            near(m @ x, y, 1e-8 * max(1, s * s) * (1 + np.abs(y).max()), "a matrix times its solve2x2")
        if not dets[i]:
            require((x == 7).all(), "solve2x2 of a singular matrix writes %s", x.tolist())
    p = np.array(case["poly"] + case["poly"][:1])
    area = float((p[:-1, 0] * p[1:, 1] - p[1:, 0] * p[:-1, 1]).sum())
    if abs(area) > 1e-6:
        require(V.points_order(p) == (1 if area > 0 else 0), "points_order of a closed polygon of signed area %g is %d", area / 2, V.points_order(p))
        near(V.det(p), -area, 1e-9 * (1 + np.abs(p).max() ** 2), "det")
        require(list(V.multi_points_order([p, p[::-1].copy()])) == ([1, 0] if area > 0 else [0, 1]), "multi_points_order of a polygon and its reverse is %s", list(V.multi_points_order([p, p[::-1].copy()])))
