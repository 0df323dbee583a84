"""Writing curves and surfaces to STEP files."""
import io

import numpy as np
from hypothesis import strategies as st
from mmcore.compat.step import step_writer as SW
from steputils import p21
from steputils.exceptions import ParseError

from .. import gen, oracle
from ..core import facet, require
from ..mm import mk_curve, mk_surf

FACETS = []
RULE = "Sequences of up to five curves, surfaces, points and planes written to one file and read back; trivial when only points are written."
ASSUMPTIONS = ["files are read back by steputils, whose parser is not under test", "names are ASCII; one that is a single bracket or separator is not written, since steputils does not read it back", "interior knots of one curve are equal or differ by more than 1e-6"]

NAME = st.one_of(st.just(""), st.sampled_from(["surface 1", "it's", "a (b", "c, d)", "x''y", ");", "#12"]), st.text("abcXYZ 09_-+.*#(),;:'", max_size=12)).map(lambda s: s + "." if s in tuple("(),;=") else s)


def snapped(k, f=1.0):
    """Knots closer than 1e-6 are one knot; times f, which brings different knots close to each other."""
    k = None if k is None else [x * f for x in k]
    if k is None:
        return None
    out = []
    for x in k:
        out.append(out[-1] if out and abs(x - out[-1]) < 1e-6 else x)
    return out


CLOSE = st.sampled_from([1.0, 1.0, 1e-2, 1e-4])


@st.composite
def piece(draw):
    kind = draw(st.sampled_from(["curve", "curve", "surface", "surface", "surface", "point", "plane"]))
    if kind == "curve":
        c = draw(gen.curve())
        c["knots"] = snapped(c["knots"], draw(CLOSE))
        return [kind, c]
    if kind == "surface":
        s = draw(gen.surface())
        for k in ("knots_u", "knots_v"):
            s[k] = snapped(s[k], draw(CLOSE))
        return [kind, s, draw(NAME), draw(st.lists(gen.unit(), min_size=3, max_size=3))]
    if kind == "point":
        return [kind, draw(gen.points(1, draw(st.sampled_from([2, 3]))))[0], draw(NAME)]
    return [kind, draw(gen.points(1))[0], draw(st.permutations([0, 1, 2])), draw(st.booleans())]


@st.composite
def files(draw):
    return {"pieces": draw(st.lists(piece(), min_size=1, max_size=5)), "tol": draw(st.sampled_from([1e-7, 1e-3, 0.25])), "array": draw(st.booleans())}


class File:
    def __init__(self, text):
        try:
            self.f = p21.loads(text)
        except ParseError as e:
            bad = [line for line in text.split("\n") if line.startswith(str(e).split(":")[-1].strip(" .") + "=")]
            require(False, "the file is not read back: %s %s", e, bad)
        require(len(self.f.data) == 1, "%d data sections", len(self.f.data))
        self.d = self.f.data[0].instances
        ids = [int(str(i)[1:]) for i in self.d]
        require(len(set(ids)) == len(ids) == text.split("DATA;")[1].count("="), "instances are lost or written twice: %d read", len(ids))
        for i in self.d:
            for n, ps in self.parts(i):
                self.refs(ps, i, n)

    def refs(self, ps, i, n):
        for p in ps:
            if isinstance(p, p21.Reference):
                require(p in self.d, "%s of %s refers to %s, which is not in the file", i, n, p)
            elif isinstance(p, tuple) or isinstance(p, list):
                self.refs(p, i, n)

    def parts(self, ref):
        x = self.d[ref]
        return [(x.entity.name, list(x.entity.params))] if hasattr(x, "entity") else [(e.name, list(e.params)) for e in x.entities]

    def one(self, ref, name):
        ps = self.parts(ref)
        require(len(ps) == 1 and ps[0][0] == name, "%s is %s, expected %s", ref, [n for n, _ in ps], name)
        return ps[0][1]

    def point(self, ref, name="CARTESIAN_POINT"):
        p = self.one(ref, name)
        require(all(type(x) is float for x in p[1]), "%s has coordinates %r, which are not real", ref, p[1])
        return list(p[1])

    def vertex(self, ref):
        return self.point(self.one(ref, "VERTEX_POINT")[1])

    def spline(self, ref, what):
        """-> name, degrees, points (grid of references), knots, weights"""
        k = 1 if what == "CURVE" else 2
        parts = dict(self.parts(ref))
        full = "B_SPLINE_%s_WITH_KNOTS" % what
        require(full in parts, "%s is %s, not a spline", ref, list(parts))
        if len(parts) == 1:
            p = parts[full]
            name, p, w = p[0], p[1:], None
            head, tail = p[:k + 1], p[k + 4 + (k - 1):]
        else:
            names = {"BOUNDED_" + what, "B_SPLINE_" + what, full, what, "GEOMETRIC_REPRESENTATION_ITEM", "RATIONAL_B_SPLINE_" + what, "REPRESENTATION_ITEM"}
            require(set(parts) == names and list(parts) == sorted(parts), "the parts of %s are %s", ref, list(parts))
            head, tail = parts["B_SPLINE_" + what][:k + 1], parts[full]
            name, w = parts["REPRESENTATION_ITEM"][0], parts["RATIONAL_B_SPLINE_" + what][0]
        knots = []
        for m, u in zip(tail[:k], tail[k:2 * k]):
            require(len(m) == len(u) and all(type(x) is float for x in u) and all(a < b for a, b in zip(u, u[1:])), "knots %s of multiplicities %s", u, m)
            knots.append([x for x, n in zip(u, m) for _ in range(n)])
        return name, list(head[:k]), head[k], knots, w

    def same_curve(self, ref, crv, what):
        _, degree, pts, knots, w = self.spline(ref, "CURVE")
        require(degree == [crv.degree], "%s: degree %s, expected %s", what, degree, crv.degree)
        require([self.point(p) for p in pts] == np.asarray(crv.control_points).tolist(), "%s: other control points than the curve", what)
        require(len(knots[0]) == len(crv.knots) and max(abs(np.array(knots[0]) - np.asarray(crv.knots))) <= 1e-8, "%s: knots %s, expected %s", what, knots[0], list(crv.knots))
        self.same_weights(w, np.asarray(crv.weights), what)
        return knots[0]

    def same_weights(self, w, want, what):
        got = np.ones(want.shape) if w is None else np.array(w)
        require(got.shape == want.shape and oracle.close(got * want.flat[0], want * got.flat[0], 1e-12, float(want.max() * got.max())), "%s: weights %s, expected %s", what, w, want.tolist())


@facet(FACETS, files, 150, 2500)
def written(case, ctx):
    """everything written is read back as it was: degrees, points, knots, weights, names, colours; faces are bounded by loops that run head to tail along the boundary; every reference is resolved"""
    w = SW.StepWriter(tolerance=case["tol"])
    done = []
    for p in case["pieces"]:
        ctx.label(p[0])
        if p[0] == "curve":
            c = mk_curve(p[1])
            done.append((w.add_nurbs_curve(c), c))
            ctx.label("rational" if p[1]["weights"] and len(set(p[1]["weights"])) > 1 else "polynomial")
        elif p[0] == "surface":
            s = mk_surf(p[1])
            before = np.array(s.control_points_w), list(s.knots_u), list(s.knots_v)
            done.append((w.add_nurbs_surface(s, color=tuple(p[3]), name=p[2]), s))
            require((before[0] == np.asarray(s.control_points_w)).all() and before[1:] == (list(s.knots_u), list(s.knots_v)), "writing changed the surface")
            ctx.label("rational" if p[1]["weights"] else "polynomial", "quoted" if "'" in p[2] else "plain")
        elif p[0] == "point":
            q = np.array(p[1]) if case["array"] else p[1]
            done.append((w.add_cartesian_point(q, p[2]), None))
        else:
            axes = np.eye(3)[p[2]]
            if np.linalg.det(axes) < 0:
                axes[2] *= -1
            done.append((w.add_plane((p[1], *axes.tolist()))[-1], axes))
    if not any(p[0] in ("curve", "surface") for p in case["pieces"]):
        ctx.trivial()
    out = io.StringIO()
    w.write(out)
    text = out.getvalue()
    f = File(text)
    by = {}
    for i in f.d:
        for n, ps in f.parts(i):
            by.setdefault(n, []).append(ps)
    require(by["UNCERTAINTY_MEASURE_WITH_UNIT"][0][0].param == case["tol"], "tolerance %s, expected %s", by["UNCERTAINTY_MEASURE_WITH_UNIT"], case["tol"])
    require(len(by["GEOMETRIC_REPRESENTATION_CONTEXT"]) == len(by["PRODUCT"]) == 1 and isinstance(by["PRODUCT"][0][3], (tuple, list)), "products %s, contexts %s", by["PRODUCT"], by["GEOMETRIC_REPRESENTATION_CONTEXT"])
    n = {k: sum(p[0] == k for p in case["pieces"]) for k in ("curve", "surface", "plane")}
    for name, want in (("ADVANCED_FACE", n["surface"]), ("OPEN_SHELL", n["surface"]), ("STYLED_ITEM", n["surface"]), ("EDGE_CURVE", n["curve"] + 4 * n["surface"]), ("AXIS2_PLACEMENT_3D", n["plane"] + 1)):
        require(len(by.get(name, [])) == want, "%d of %s, expected %d", len(by.get(name, [])), name, want)
    for (ref, obj), p in zip(done, case["pieces"]):
        if p[0] == "curve":
            e = f.one(ref, "ORIENTED_EDGE")
            require(str(e[4]) == ".T.", "the edge of a curve is reversed")
            edge(f, e[3], obj)
        elif p[0] == "surface":
            face(f, ref, obj, p, by)
        elif p[0] == "point":
            got = f.one(ref, "CARTESIAN_POINT")
            require(got[0] == p[2] and list(got[1]) == p[1], "point %s, expected %s named %r", got, p[1], p[2])
        else:
            got = f.one(ref, "AXIS2_PLACEMENT_3D")
            require(f.point(got[1]) == p[1] and f.point(got[2], "DIRECTION") == obj[2].tolist() and f.point(got[3], "DIRECTION") == obj[0].tolist(),
                    "plane at %s, normal %s, first axis %s; expected %s, %s, %s", f.point(got[1]), f.point(got[2], "DIRECTION"), f.point(got[3], "DIRECTION"), p[1], obj[2], obj[0])


def edge(f, ref, crv, what="curve", tol=0.0):
    e = f.one(ref, "EDGE_CURVE")
    require(str(e[4]) == ".T.", "%s: the sense of the edge is %s", what, e[4])
    if crv is not None:
        f.same_curve(e[3], crv, what)
        for r, t in ((e[1], 0), (e[2], 1)):
            want = np.asarray(crv.start() if t == 0 else crv.end())
            require(oracle.close(f.vertex(r), want, 1e-9, max(1.0, abs(want).max())), "%s: the vertex %s is %s, the end of the curve %s", what, r, f.vertex(r), want)
    return e


def face(f, ref, srf, p, by):
    shell = f.one(ref, "SHELL_BASED_SURFACE_MODEL")
    require(shell[0] == p[2] and len(shell[1]) == 1, "model %s, expected one shell named %r", shell, p[2])
    faces = f.one(shell[1][0], "OPEN_SHELL")[1]
    require(len(faces) == 1, "%d faces", len(faces))
    fc = f.one(faces[0], "ADVANCED_FACE")
    require(len(fc[1]) == 1 and fc[0] == p[2] and str(fc[3]) == ".T.", "face %s", fc)
    name, degree, pts, knots, w = f.spline(fc[2], "SURFACE")
    require(name == p[2] and degree == list(srf.degree), "surface named %r of degree %s, expected %r, %s", name, degree, p[2], srf.degree)
    require([[f.point(q) for q in row] for row in pts] == np.asarray(srf.control_points).tolist(), "other control points than the surface")
    for got, want in zip(knots, (srf.knots_u, srf.knots_v)):
        require(len(got) == len(want) and max(abs(np.array(got) - np.asarray(want))) <= 1e-8, "knots %s, expected %s", got, list(want))
    f.same_weights(w, np.asarray(srf.control_points_w)[..., 3], "surface")
    loop = f.one(f.one(fc[1][0], "FACE_BOUND")[1], "EDGE_LOOP")[1]
    require(len(loop) == 4, "a loop of %d edges", len(loop))
    (u0, u1), (v0, v1) = srf.interval()
    size = max(1.0, float(abs(np.asarray(srf.control_points)).max()))
    at = lambda u, v: np.asarray(srf.evaluate_v2(u, v) if hasattr(srf, "evaluate_v2") else srf.evaluate(np.array([u, v])))
    sides = {"v0": lambda t: at(u0 + (u1 - u0) * t, v0), "v1": lambda t: at(u0 + (u1 - u0) * t, v1), "u0": lambda t: at(u0, v0 + (v1 - v0) * t), "u1": lambda t: at(u1, v0 + (v1 - v0) * t)}
    order = []
    steps = []
    for o in loop:
        o = f.one(o, "ORIENTED_EDGE")
        e = edge(f, o[3], None)
        _, dg, cp, kn, cw = f.spline(e[3], "CURVE")
        cp = np.array([f.point(q) for q in cp])
        cw = None if cw is None else list(cw)
        c = mk_curve({"degree": dg[0], "points": cp.tolist(), "knots": kn[0], "weights": cw})
        a, b = c.interval()
        run = [np.asarray(c.evaluate(a + (b - a) * t)) for t in (0.0, 0.3, 0.7, 1.0)]
        for r, q in ((e[1], run[0]), (e[2], run[-1])):
            require(oracle.close(f.vertex(r), q, 1e-9, size), "vertex %s at %s, the end of its curve at %s", r, f.vertex(r), q)
        fits = [s for s, g in sides.items() if all(oracle.close(q, g(t), 1e-7, size) for t, q in zip((0.0, 0.3, 0.7, 1.0), run))]
        require(fits, "an edge %s of the face does not run along a side of the surface", cp.tolist())
        order.append(fits)
        fwd = str(o[4]) == ".T."
        steps.append((e[1], e[2]) if fwd else (e[2], e[1]))
    require(set().union(*order) == set(sides), "the edges follow the sides %s", order)
    for (_, b), (a, _) in zip(steps, steps[1:] + steps[:1]):
        require(a == b, "the loop goes %s: edges do not share vertices", steps)
    # colour
    rgb = [c for c in by["COLOUR_RGB"] if oracle.close(c[1:], p[3], 1e-12)]
    require(rgb, "no colour %s", p[3])
    styled = [s for s in by["STYLED_ITEM"] if s[2] == ref]
    require(len(styled) == 1, "%d styles for one model", len(styled))
    r = styled[0][1][0]
    for n in ("PRESENTATION_STYLE_ASSIGNMENT", "SURFACE_STYLE_USAGE", "SURFACE_SIDE_STYLE", "SURFACE_STYLE_FILL_AREA", "FILL_AREA_STYLE", "FILL_AREA_STYLE_COLOUR"):
        q = f.one(r, n)
        r = q[-1] if not isinstance(q[-1], (tuple, list)) else q[-1][0]
    require(oracle.close(list(f.one(r, "COLOUR_RGB"))[1:], p[3], 1e-12), "the model is styled %s, expected %s", f.one(r, "COLOUR_RGB"), p[3])


VALUE = st.recursive(st.one_of(st.integers(-999, 999), st.floats(-1e6, 1e6, allow_nan=False, width=64), NAME.map(lambda s: ["s", s])), lambda v: st.lists(v, min_size=1, max_size=4), max_leaves=8)


@st.composite
def assignments(draw):
    return {"name": draw(st.sampled_from(["CARTESIAN_POINT", "AXIS2_PLACEMENT_3D", "A", "COLOUR_RGB"])), "id": draw(st.integers(1, 5000)), "args": draw(st.lists(VALUE, min_size=1, max_size=5)), "space": draw(st.booleans())}


@facet(FACETS, assignments, 400, 6000)
def parsed(case, ctx):
    """a simple assignment is parsed into its name and arguments: numbers, strings with quotes, commas and parentheses, nested lists"""
    def value(v):
        return v[1] if isinstance(v, list) and v and v[0] == "s" else tuple(value(x) for x in v) if isinstance(v, list) else v

    def text(v):
        if isinstance(v, list) and v and v[0] == "s":
            return "'" + v[1].replace("'", "''") + "'"
        return "(" + sep.join(text(x) for x in v) + ")" if isinstance(v, list) else repr(v)
    sep = ", " if case["space"] else ","
    line = "#%d%s=%s%s(%s);" % (case["id"], " " * case["space"], " " * case["space"], case["name"], sep.join(text(a) for a in case["args"]))
    want = tuple(value(a) for a in case["args"])
    ctx.label("nested" if any(isinstance(a, tuple) for a in want) else "flat")
    name, got = SW.parse_assignment(line)
    require(name == case["name"] and got == want and list(map(type, got)) == list(map(type, want)), "%s is parsed into %s %r, expected %r", line, name, got, want)


@st.composite
def multiple(draw):
    u = sorted(draw(st.lists(st.integers(-1000, 1000), min_size=1, max_size=6, unique=True)))
    return {"u": [x / 8.0 for x in u], "m": [draw(st.integers(1, 5)) for _ in u], "eps": draw(st.sampled_from([0.0, 1e-12, 1e-10]))}


@facet(FACETS, multiple, 150, 2000)
def multiplicities(case, ctx):
    """knots are counted, rounding apart"""
    ctx.label("rounded" if case["eps"] else "exact")
    k = [x + case["eps"] * i for x, m in zip(case["u"], case["m"]) for i in range(m)]
    u, m = SW.get_knot_multiplicities(k)
    require(m == case["m"] and oracle.close(u, case["u"], 1e-9), "knots %s: %s times %s, expected %s times %s", k, u, m, case["u"], case["m"])
    require(SW.get_knot_multiplicities([]) == ([], []), "no knots")
