HEAD = """# Deciding the properties of contextmachine/mmcore by property-based testing

mmcore is a CAD kernel: NURBS curves and surfaces in Cython, algorithms on them (splitting, fitting, intersection,
projection), numeric kernels, and the data structures under them. What a user relies on is mathematical: an evaluated
point is *the* point, an operation that rearranges a curve does not move it, an intersection that is there is found, a
container holds what was put in. Almost all of it has an independent definition to compare with, which is what
generated-input search needs.

## How a check works

`python3 run.py ID [--tier quick|thorough]` runs the check of one property (`mmv/checks/<id>.py`).

- A property is split into **facets**: a Hypothesis strategy that yields a JSON value (the *case*), and a function that
  runs the code under test on the case and compares with an oracle (`mmv/core.py`). All randomness is in the strategy,
  so a case is a complete reproduction. Where the code under test draws random numbers, the case holds the seed.
- `run.py` starts one worker process per facet and shard (8 at a time, memory and CPU time limited). A worker that dies (segmentation
  fault, endless loop) is a failure of the case it was running, which is known because each case is logged before it runs.
- A failure is shrunk by Hypothesis, written to `replays/<ID>-<facet>-<hash>.json` and reported as
  `VIOLATION property=<ID> replay=<path>`; `run.py ID --replay FILE` runs it again.
- An exception out of mmcore where the property promises a result is a failure; an error in the harness is reported as
  an error of the harness (exit 2), never as a violation.
- Seeds derive from `VERIF_SEED`, so a run is reproducible; the thorough tier runs 10 to 20 times as many cases.
- Evidence (`evidence/<ID>.json`): cases generated, distinct and non-trivial ones by the rule each module states, labels with
  their frequencies (classes of inputs reached), samples of cases, and the replayed findings.
- The check imports the code from /repo's working tree. Compiled extensions there are used only if they match the sources
  (`mmv/tree.py` compares digests recorded at build time with the current Cython, C and C++ files); otherwise the tree is copied to a scratch
  directory and the changed extensions rebuilt there, so a change in a `.pyx` file is always seen.
- `known_findings.jsonl` lists repaired defects (`fixed`, which suppress nothing) and open ones, whose case is replayed and reported as `KNOWN-FINDING`.
- Checks judge values, not code: nothing looks at sources except to decide what to rebuild.

Oracles are written independently of mmcore (`mmv/oracle.py`, `mmv/geo.py`): de Boor evaluation and differentiation of
(rational) splines in exact rational arithmetic (`fractions`), exact predicates for boxes, triangles and segments, linear programs with
margin for separability, dense-sampling-plus-Newton reference searches for intersections, brute force for trees and
hierarchies, plain lists and dicts for containers.

*Margins.* Floating point makes answers near a change of the truth a matter of rounding. A facet either computes the truth exactly, or
judges only cases that are clear by a stated margin (which is part of its assumptions); the margin is always wider than
what the code could resolve, so that a correct rearrangement of its arithmetic stays quiet.
"""
ORACLE = {
 "C01": "de Boor's recurrence in rational arithmetic on the homogeneous control points; metamorphic: affine maps commute with evaluation.",
 "C02": "tensor-product de Boor in rational arithmetic; closed forms for ruled, bilinear and cylinder surfaces.",
 "C03": "exact differentiation of the rational spline (homogeneous derivatives, quotient rule) in rational arithmetic; frames from these.",
 "C04": "exact partial derivatives; difference-quotient methods must lie in the range the exact derivative takes around the parameter.",
 "C05": "the spline before the operation, evaluated exactly at knots and three points of every span; knot vectors as multisets.",
 "C06": "the spline before the operation, restricted to the part; domains and orientation exactly.",
 "C07": "the surface before the operation, on a grid of knots, cuts and ends; isocurves against the surface.",
 "C08": "a pool of model curves (plain data) with the same history: after each step every live curve evaluates as its model (model-based stateful testing, aliasing included).",
 "C09": "a pool of model surfaces with the same history.",
 "C10": "exact comparison of coordinates; exact slab clipping in rationals; containment of exactly evaluated points.",
 "C11": "the defining relation: same points after elevation and joining, interpolation at the parameters, ruled surface points from the two curves.",
 "C12": "exact basis functions and their derivatives; half-open span by definition; Boehm insertion by comparison of splines.",
 "C13": "the spline model as in C08; periodic splines against the uniform closed B-spline; circles by radius and plane.",
 "C14": "reported pairs: both curves evaluated there; completeness: dense sampling and Newton refinement of the distance, keeping crossings with a margin in angle and distance to the ends.",
 "C15": "reported triples by evaluation; completeness: sampled sign changes of the height over the graph surface, refined, with margins.",
 "C16": "as C15 for each of the eight borders, uniqueness by distance of parameters.",
 "C17": "points by evaluation and distance to both surfaces; flat patches exactly; curved ones against independently sampled contour lines of the difference of heights.",
 "C21": "rigid-motion algebra in numpy; intersections by construction (the meeting point is chosen first).",
 "C22": "the textbook formula in numpy, per row; freed memory is poisoned first so that uninitialised results show.",
 "C23": "rational arithmetic at the ends and at inner points: enclosure, tightness and order of the ends.",
 "C24": "exact intersection in rationals on integer grids (vertex, edge, interior); mapped copies with margin.",
 "C25": "a linear program with margin (scipy) decides overlap, gap and angular separability.",
 "C26": "brute force over all boxes, pairs and triangles; barycentric coordinates with margin for casting.",
 "C27": "numpy sort and unique; sets for unions; guard zones around arrays for memory.",
 "C28": "dict and list with the same history; structural invariants (order, links, heights, balance) after each step.",
 "C29": "list with the same history; nearest points and overlaps by brute force; split invariants of the tree.",
 "C30": "all pairs of segments in rational arithmetic.",
 "C31": "exact even-odd rule and shoelace formula on dyadic coordinates; set operations judged at points off both boundaries; monotone-chain hull.",
 "C18": "exact boundary curves, the bilinear blend of them, and its difference quotients corrected for the third derivative.",
 "C40": "a plain array carried through the same history (stateful); linear algebra of numpy on the cells; intervals for boxes; lines built through a common point at chosen parameters.",
 "C32": "set algebra of exact membership in boxes, discs and balls, points within rounding of a boundary left out; distances worked out from the axis; each cell's corners classified directly; the dual contour worked out by brute force over pairs of neighbouring cells; circles put together from a common point.",
 "C33": "ellipses and ellipsoids with a known angle for each point, bodies that meet in circles of known centre, radius and normal: points are on them, angles increase and go once round, steps are measured; a claimed success is checked against the circle also from hopeless starts.",
 "C34": "numpy's polynomials over the coefficients, evaluated independently (differential), round trips, Python's exact binomials; a subprocess imports each module first.",
 "C20": "the exact derivatives of the generated function at the generated parameter, with the error of the difference formulas; expressions evaluated by numpy at the same parameter; lengths by Gauss-Legendre quadrature of the exact speed; the same question asked before and after a change of the curve.",
 "C36": "the even-odd rule on dense samples of the other curve, for points of each curve away from the other; ends of pieces matched with each other; lengths added up.",
 "C37": "round trip: the text is parsed by steputils, an independent reader, and the curves and surfaces rebuilt from it compared with those written; sides of the surface evaluated and matched with the edges of the loop; arguments generated first and the assignment printed from them.",
 "C35": "exact derivatives of cubic polynomials with the error of each formula; minima and solutions chosen first and the function built around them; antiderivatives; the argument compared before and after, and the points a bounded difference asks for recorded.",
 "C19": "brute force over pairs; dense sampling of curves; the exact foot constructed first and the point put off it along a normal, starts limited to where Newton's method contracts; clamped coordinates on rectangles.",
}
TAIL = """## What the search does not reach

- Modules that cannot be imported at this commit (fundamental_forms, ssx.dqr, ssx.dqr4, api.plane, surfaces.geodesic, renderer): no property is claimed.
- Heuristic intersection routines without a stated contract (curve_surface_ppi, curve_x_plane, proximity_points) are not claimed.
- Everything is explored, nothing is proved: between the sampled inputs a fault may hide. The quick tier takes 5 to 55 s per property, the thorough tier 10 to 20 times that.

## False alarms met while building, and what was done

- C14: implicit-form roots were demanded where a curve folds within half a unit of its domain; the search samples there by design. The property now demands roots with at most one extremum per half unit.
- C14/C15: intersections at grazing angles were demanded; reports there are decided by tolerances. Margins in angle were stated.
- C15: the type of an intersection on a crease depends on which side is differentiated; judged only where the surface is smooth.
- C16/C17: a border of one surface running along a border of the other is decided by rounding; not generated.
- C17: parameters of traced points were compared with the traced positions to the tolerance; the tracer drifts (a known finding), so
  curved pairs are judged by distance in space, flat ones exactly.
- C22, C24: cases within rounding of a change of the answer, off integer grids, are left out.
- C25: hulls that only rounding parts are no longer judged unless coordinates are small integers.
- C26: the triangle test has an absolute threshold (1e-8 on a determinant); triangles below 1e-2 are not generated.
- C05: removing knots that change the curve was demanded to be refused; an existing test pins the opposite, so only removable knots are removed.
- C23: raising for negative powers of an interval around zero was taken for a failure; refusing is sound.
"""
