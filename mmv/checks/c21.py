"""Planes: frames, projections, intersections."""
import numpy as np

from hypothesis import strategies as st
from mmcore.numeric import plane as P
from mmcore.numeric.plane import cplane as CP

from .. import gen
from ..core import facet, require

FACETS = []
RULE = "Generated planes (origin, orthonormal frame in any orientation, axis-parallel ones often), points, lines and rays; trivial when an intersection is decided by rounding (nearly parallel)."
ASSUMPTIONS = ["intersections are judged when the angle between the planes, or between line and plane, is at least 0.01 rad",
               "points from which a frame is built are not collinear or coincident"]

@st.composite
def unit_quaternion(draw):
    if draw(st.integers(0, 2)) == 0:
        return draw(st.sampled_from([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [1, 1, 0, 0], [1, 0, 0, 1], [1, 1, 1, 1], [0, 1, 1, 0], [1, 0, -1, 0]]))
    q = [draw(st.integers(-9, 9)) for _ in range(4)]
    return q if any(q) else [1, 0, 0, 0]

def rot(q):
    w, x, y, z = np.array(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])

def vec3():
    return st.lists(gen.coord(), min_size=3, max_size=3)

@st.composite
def plane(draw):
    return [draw(vec3()), draw(unit_quaternion())]

def mk(p):
    return np.array([p[0], *rot(p[1]).T], float)

def near(a, b, tol, what, *args):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, what + ": shape %s, expected %s", *args, a.shape, b.shape)
    require(bool((np.abs(a - b) <= tol).all()), what + ": %s, expected %s", *args, a.tolist(), b.tolist())

@st.composite
def frames(draw):
    return {"p": draw(plane()), "x": draw(st.lists(vec3(), min_size=1, max_size=4))}

@facet(FACETS, frames, 900, 15000)
def coordinates(case, ctx):
    """evaluating a plane at local coordinates and its inverse are inverse rigid maps, one point or many; projection, distance and local coordinates agree"""
    p, x = mk(case["p"]), np.array(case["x"], float)
    R = p[1:]
    p0, x0 = p.copy(), x.copy()
    want, back = p[0] + x @ R, (x - p[0]) @ R.T
    tol = 1e-12 * (1 + np.abs(p).max() + np.abs(x).max()) * 10
    near(P.evaluate_plane_arr(p, x), want, tol, "evaluate_plane_arr")
    near(P.inverse_evaluate_plane_arr(p, x), back, tol, "inverse_evaluate_plane_arr")
    for i, v in enumerate(x):
        near(P.evaluate_plane(p, v), want[i], tol, "evaluate_plane(%s)", v.tolist())
        near(P.inverse_evaluate_plane(p, v), back[i], tol, "inverse_evaluate_plane(%s)", v.tolist())
        near(P.project(p, v), v - back[i][2] * R[2], tol, "project(%s)", v.tolist())
        near(P.project_point_by_normal(v, R[2], p[0]), v - back[i][2] * R[2], tol, "project_point_by_normal(%s)", v.tolist())
        near(P.distance(p, v), abs(back[i][2]), tol, "distance(%s)", v.tolist())
    require((p == p0).all() and (x == x0).all(), "the plane or the points handed in were changed")

@st.composite
def triples(draw):
    q = rot(draw(unit_quaternion()))
    o = np.array(draw(vec3()))
    s = st.integers(5, 90).map(lambda i: i / 10.0)
    a = q[0] * draw(s)
    b = a * draw(st.integers(-30, 30)) / 10.0 + q[1] * draw(s)
    return {"o": o.tolist(), "a": (o + a).tolist(), "b": (o + b).tolist(), "n": draw(st.one_of(vec3(), unit_quaternion().map(lambda q: rot(q)[2].tolist()))), "x": draw(st.lists(vec3(), min_size=1, max_size=3))}

@facet(FACETS, triples, 900, 15000)
def construction(case, ctx):
    """planes built from three points, a normal or an equation are right-handed orthonormal frames through the points, with the normal or equation given"""
    o, a, b, x = (np.array(case[k], float) for k in "oabx")
    n = np.cross(a - o, b - o)
    s = 1 + max(np.abs(v).max() for v in (o, a, b, x))
    pl, eq = P.plane_from_3pt(o, a, b)
    n1 = n / np.linalg.norm(n)
    tol = 1e-9 * s * s * s / min(1, np.linalg.norm(n))
    near(pl[0], o, 1e-12 * s, "the origin of plane_from_3pt")
    near(pl[1:] @ pl[1:].T, np.eye(3), 1e-9, "the frame of plane_from_3pt times its transpose")
    near(pl[3], n1, tol, "the normal of plane_from_3pt")
    near(pl[1], (a - o) / np.linalg.norm(a - o), tol, "the x axis of plane_from_3pt")
    near(np.cross(pl[1], pl[2]), pl[3], tol, "x times y of plane_from_3pt")
    near(eq, P.plane_eq_from_pts(o, a, b), 1e-12 * s ** 3, "the equation of plane_from_3pt")
    near(P.plane_signed_distance(eq, [o, a, b]), [0, 0, 0], 1e-11 * s ** 3, "the equation's value at its three points")
    near(P.plane_signed_distance(np.array(eq) / np.linalg.norm(n), x), (x - o) @ n1, tol, "the signed distances of an equation")
    po, pn = P.plane_from_eq(eq)
    near(pn, n1, tol, "the normal of plane_from_eq")
    near(float((po - o) @ n1), 0.0, tol, "the height of plane_from_eq's origin over the plane")
    m = np.array(case["n"], float)
    if np.linalg.norm(m) < 0.1:
        ctx.label("no-normal")
        return
    pl = P.plane_from_normal2(o, m)
    near(pl[0], o, 0, "the origin of plane_from_normal2")
    near(pl[3], m / np.linalg.norm(m), 1e-9, "the normal of plane_from_normal2")
    near(pl[1:] @ pl[1:].T, np.eye(3), 1e-9, "the frame of plane_from_normal2 times its transpose")
    near(np.cross(pl[1], pl[2]), pl[3], 1e-9, "x times y of plane_from_normal2")

@st.composite
def rays(draw):
    p = draw(plane())
    t = draw(st.lists(gen.coord(), min_size=2, max_size=2))
    return {"p": p, "at": t, "d": draw(vec3()), "back": draw(st.integers(-60, 60)) / 10.0}

@facet(FACETS, rays, 900, 15000)
def lines(case, ctx):
    """a line or ray meets a plane at the known point, a ray only ahead of its origin, with the known plane coordinates"""
    p, (u, v), d, k = mk(case["p"]), case["at"], np.array(case["d"]), case["back"]
    hit = p[0] + u * p[1] + v * p[2]
    n = np.linalg.norm(d)
    if n < 0.01 or abs(d @ p[3]) < 0.01 * n:
        ctx.label("parallel")
        ctx.trivial()
        return
    o = hit - k * d
    s = 1 + max(np.abs(x).max() for x in (p, o, hit))
    tol = 1e-11 * s * 100
    near(P.plane_line_intersection(p, (o, d)), hit, tol, "plane_line_intersection")
    w, si, x = P.plane_line_intersection(p, (o, d), full_return=True)
    near(x, hit, tol, "plane_line_intersection, full return")
    near(si, k, tol / min(1, n), "the line parameter")
    ray = np.array([o, d])
    ctx.label("ahead" if k > 0 else "behind" if k < 0 else "at")
    if k == 0:
        return
    pn = np.array([p[0], p[3]])
    got = {"ray_plane_intersection": P.ray_plane_intersection(pn, ray), "plane_ray_intersection": P.plane_ray_intersection(p, ray), "plane_ray_intersection (origin, normal)": P.plane_ray_intersection(pn, ray)}
    r = CP.ray_plane_parametric_intersection(p, ray)
    got["ray_plane_parametric_intersection"] = None if r is None else r[0]
    for name, g in got.items():
        require((g is not None) == (k > 0), "%s of a ray whose plane is %s it gives %s", name, "ahead of" if k > 0 else "behind", g)
        if g is not None:
            near(g, hit, tol, name)
    if r is not None:
        near(r[1], [u, v], tol, "the plane coordinates of ray_plane_parametric_intersection")

@st.composite
def meeting(draw):
    n = draw(st.integers(1, 4))
    return {"a": draw(st.lists(plane(), min_size=n, max_size=n)), "b": draw(st.lists(plane(), min_size=n, max_size=n)), "c": draw(plane()), "grid": draw(st.booleans())}

def on_line(r, a, b, s, what):
    r = np.array(r)
    n = np.cross(a[3], b[3])
    tol = 1e-9 * s / max(np.linalg.norm(n), 1e-3)
    require(bool(np.isfinite(r).all()), "%s is %s", what, r.tolist())
    near(r[1], n, 1e-12, "the direction of " + what)
    for p in (a, b):
        near(float((r[0] - p[0]) @ p[3]), 0.0, tol, "the height of the point of " + what + " over a plane")

@facet(FACETS, meeting, 700, 12000)
def planes(case, ctx):
    """two planes meet in the line of their points and the direction of the product of their normals, one by one or many at once; three planes meet in their common point"""
    A, B, c = np.array([mk(p) for p in case["a"]]), np.array([mk(p) for p in case["b"]]), mk(case["c"])
    s = 1 + max(np.abs(x).max() for x in (A, B, c))
    ok = [np.linalg.norm(np.cross(a[3], b[3])) > 0.01 for a, b in zip(A, B)]
    okc = [np.linalg.norm(np.cross(a[3], c[3])) > 0.01 for a in A]
    if not any(ok):
        ctx.label("parallel")
        ctx.trivial()
    g, h, hr = P.plane_plane_intersection(A, B), P.plane_plane_intersection(A, c), P.plane_plane_intersection(c, A)
    z = np.array(CP.planes_planes_intersect(A, B))
    y = np.array(CP.planes_plane_intersect(A, c))
    for i, (a, b) in enumerate(zip(A, B)):
        if ok[i]:
            one = np.array(P.plane_plane_intersect(a, b))
            on_line(one, a, b, s, "plane_plane_intersect")
            near(CP.plane_plane_normal_intersect(a[0], a[3], b[0], b[3]), one, 0, "plane_plane_normal_intersect, compared with plane_plane_intersect")
            near(P.plane_plane_intersection(a, b), one, 0, "plane_plane_intersection, compared with plane_plane_intersect")
            near(g[i], one, 0, "plane_plane_intersection of many, compared with one by one")
            near(z[i], one, 0, "planes_planes_intersect, compared with one by one")
        if okc[i]:
            one = P.plane_plane_intersect(a, c)
            near(h[i], one, 0, "plane_plane_intersection of many with one, compared with one by one")
            near(y[i], one, 0, "planes_plane_intersect, compared with one by one")
            near(hr[i], P.plane_plane_intersect(c, a), 0, "plane_plane_intersection of one with many, compared with one by one")
        N = np.array([a[3], b[3], c[3]])
        if abs(np.linalg.det(N)) > 0.01:
            want = np.linalg.solve(N, [p[3] @ p[0] for p in (a, b, c)])
            near(P.plane_plane_plane_intersect(a, b, c), want, 1e-8 * s, "plane_plane_plane_intersect")
            near(P.plane_plane_plane_intersect_points_and_normals(a[0], a[3], b[0], b[3], c[0], c[3]), want, 1e-8 * s, "plane_plane_plane_intersect_points_and_normals")
    if case["grid"] and all(ok) and all(okc):
        n = len(A)
        G = np.array([A, A[::-1]])
        H = np.array([B, B[::-1]])
        near(P.plane_plane_intersection(G, H), np.array([g, g[::-1]]), 0, "plane_plane_intersection of two grids")
        near(P.plane_plane_intersection(G, c), np.array([h, h[::-1]]), 0, "plane_plane_intersection of a grid and a plane")
        near(P.plane_plane_intersection(c, G), np.array([hr, hr[::-1]]), 0, "plane_plane_intersection of a plane and a grid")
