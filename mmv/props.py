"""The properties, in one place: tools/manifest.py writes properties.jsonl and MANIFEST.json from here."""
PROPS = []


def P(id, title, statement, text, why, files, mechanism, over=("inputs",), observe=(), state=(), note=""):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
                  "anchors": {"files": list(files), "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                              "mechanism": [{"name": a, "where": b} for a, b in mechanism], "observe_at": list(observe), "hook_needed": None},
                  "note": note})


NURBS = "mmcore/geom/nurbs.pyx"
PARAM = "mmcore/geom/parametric.pyx"

P("C01", "A NURBS curve evaluates to the points its definition gives",
  "For every clamped NURBS curve and every parameter of its domain, evaluating one parameter or many returns the point that the B-spline recurrence with the "
  "curve's degree, knots, control points and weights defines, ends and knots included. The reported domain, end points, sampled points and closedness "
  "agree with that, and an affine map of the control points maps every evaluated point.",
  "all degrees 1-5, control nets, positive weights, clamped knot vectors with interior knots of any multiplicity up to the degree, and parameters",
  "the tests evaluate a handful of fixed curves; they cannot reach all knot structures, weights and parameters that fall on knots",
  [NURBS, PARAM], [("span search, basis functions and curve point", NURBS), ("generic curve call, points, start, end", PARAM)],
  observe=["points returned by evaluation"])
P("C02", "A parametric surface evaluates to the points its definition gives",
  "For every clamped NURBS surface and every parameter pair of its domain, evaluating one or many pairs returns the point the tensor-product definition gives, "
  "rational weights included, and domain, size, degrees and corners agree with it. Ruled surfaces join points of equal relative parameter of their two curves "
  "linearly, bilinear surfaces interpolate their four corners, and cylinder surfaces keep their points at the radius, height and angle given.",
  "all degrees, control nets, weights, knot vectors and parameter pairs; all pairs of curves, corners and axes",
  "the tests evaluate a few fixed surfaces at a few parameters",
  [NURBS, PARAM, "mmcore/geom/primitives.pyx"], [("surface point", NURBS), ("ruled and bilinear evaluation", PARAM), ("cylinder evaluation", "mmcore/geom/primitives.pyx")],
  observe=["points returned by evaluation"])
P("C03", "Curve derivatives, tangents, curvature and frames are those of the curve",
  "For every NURBS curve and cubic Bezier spline, and every parameter, the derivatives of every order up to the degree are the exact derivatives of the evaluated curve "
  "(from the right at a knot, from the left at the end), rational weights included. Unit tangent, curvature vector, normal and Frenet frame are the ones these derivatives define "
  "wherever they are well defined.",
  "all curves as for evaluation, all parameters, all derivative orders up to the degree",
  "no test differentiates rational curves or curves with multiple knots at generated parameters",
  [NURBS, PARAM, "mmcore/geom/curves/_cubic.pyx"], [("both derivative algorithms, rational quotient rule", NURBS), ("tangent, curvature, frame", PARAM)],
  observe=["derivative, tangent, curvature and frame vectors"])
P("C04", "Surface derivatives, normals and tangent planes are those of the surface",
  "For every NURBS surface and parameter pair the exact derivative routines return the exact partial derivatives up to the order asked for, and the derivative methods return "
  "them within the error of a difference quotient of small fixed step, also at the ends of the domain. The normal is the cross product of the first derivatives and the tangent plane "
  "is a right-handed orthonormal frame with that normal; ruled and bilinear surfaces have the derivatives of their formulas.",
  "all surfaces as for evaluation, all parameter pairs, orders up to 3",
  "the tests only compare one or two normals and derivatives of fixed polynomial surfaces",
  [NURBS, PARAM], [("surface derivatives and rational quotient rule", NURBS), ("difference quotients, normal, plane, ruled and bilinear derivatives", PARAM)],
  observe=["derivative, normal and frame vectors"])
P("C05", "Inserting, removing and refining knots never changes a curve's shape",
  "After any sequence of knot insertions (also raising a knot to full multiplicity) a NURBS curve, rational or not, passes through the same point at every parameter, has exactly the "
  "requested knots added, and its control points and Greville abscissae match the new knots. Refining halves the spans as often as asked for and removing a just inserted "
  "knot restores the control points, the shape unchanged throughout.",
  "all curves, parameters, multiplicities and sequences of insertions",
  "the tests insert and remove one knot of one polynomial curve",
  [NURBS], [("knot insertion, removal, refinement", NURBS)], over=("inputs", "histories"), observe=["knots, control points, Greville abscissae, evaluated points"])
P("C06", "Splitting, decomposing, trimming and reversing keep a curve's points",
  "Splitting a NURBS curve at one or several parameters, decomposing it into Bezier pieces, trimming it and reversing it give curves that pass through exactly the points of the "
  "corresponding parts of the original at the corresponding parameters, in order and with the stated domains. The original curve is left unchanged.",
  "all curves and all cut parameters away from the domain ends, knots included",
  "the tests split a few fixed curves and look at the number of parts",
  [NURBS], [("split, multi-split, decomposition, trim, reversal, normalisation", NURBS)], observe=["evaluated points, knots and domains of the parts"])
P("C07", "Surface insertion, splitting, decomposition and isocurves keep the points",
  "Inserting knots into a NURBS surface, splitting it in either direction, subdividing it at a parameter pair, decomposing it by its knot spans and normalising its knots give surfaces "
  "whose points at the corresponding parameters are exactly those of the original, on the stated domains, with the original left unchanged. An isocurve or boundary curve runs through "
  "the surface's points at its fixed parameter, rational surfaces included, and a parameter outside the domain is refused.",
  "all surfaces, cut parameters away from the domain ends (knots included), sequences of insertions",
  "the tests extract isocurves of polynomial surfaces only and never compare the parts of a split surface with the whole",
  [NURBS, "mmcore/numeric/intersection/ssx/boundary_intersection.py"],
  [("knot insertion in u and v, split, subdivision, decomposition", NURBS), ("isocurve and boundary extraction", "mmcore/numeric/intersection/ssx/boundary_intersection.py")],
  over=("inputs", "histories"), observe=["evaluated points, knots and domains of the parts"])
P("C08", "Edits, copies and round trips of curves never mix up their data",
  "After any sequence of edits (points, weights, knots, insertion, normalisation), copies, deep copies, pickling and binary serialisation round trips, each curve evaluates, and reports knots, "
  "interval, weights, control points and Greville abscissae, according to its own current data: never a stale cached value, and never influenced by edits of another curve or of arrays handed in or returned. "
  "A copy or round trip equals its source with an equal hash, and curves that differ in a coordinate, weight or knot are not equal.",
  "all curves and all histories of such operations over a pool of curves",
  "the tests evaluate freshly built curves; stale caches and shared buffers only show after particular sequences of operations",
  [NURBS], [("evaluation cache, setters, copy, pickling, serialisation, hashing", NURBS)], over=("histories", "inputs"), observe=["everything a curve reports"],
  state=[("evaluation cache", "points already computed", NURBS)])
P("C09", "Edits and copies of surfaces never mix up their data",
  "After any sequence of knot insertions, normalisations, knot assignments and copies, each NURBS surface evaluates, and reports knots, intervals and size, according to its own current data, never influenced by "
  "edits of another surface or of arrays handed in or returned. A copy equals its source with an equal hash, surfaces that differ in a coordinate or knot are not equal, and control points come back in Cartesian and homogeneous form as given.",
  "all surfaces and all histories of such operations over a pool of surfaces",
  "the tests never edit a copied surface or the arrays a surface was built from",
  [NURBS], [("surface storage, copy, setters, hashing", NURBS)], over=("histories", "inputs"), observe=["everything a surface reports"])
P("C10", "Bounding boxes contain what they bound and box predicates are exact",
  "The bounding box of a point set, and of a NURBS curve or surface (the box of its control points), is the smallest box of those points and contains every point of the curve or surface, rational ones included. "
  "Box overlap, box intersection and point-in-box agree with the coordinate ranges exactly, touching boxes included; a ray or segment is reported to meet a box exactly when it does, and the parameter range and clipped segment inside the box are the exact ones.",
  "all point sets in 2D and 3D, boxes (touching, nested, flat), rays and segments in all directions, curves and surfaces",
  "no test calls the box routines with generated boxes, flat or touching boxes or axis-parallel segments",
  ["mmcore/numeric/_aabb.pyx", "mmcore/numeric/aabb.py", NURBS], [("point boxes, overlap, slab tests, clipping", "mmcore/numeric/_aabb.pyx"), ("curve and surface boxes", NURBS)],
  observe=["boxes, booleans, parameter ranges and clipped segments"])
P("C11", "Curves built from points and from other curves run through them",
  "A curve interpolated through points passes through every one of them in order at its chord-length (or centripetal) parameter, in 2D and 3D, closed rows and repeated neighbours included. Raising the degree of a curve, joining two curves that share an "
  "end point (either way round) and composing a chain of touching curves give a curve through exactly the points of the originals, weights included, with the stated degree and domain; the ruled surface of two curves has them as its edges with straight lines "
  "between points of equal relative parameter. The curves handed in do not change.",
  "all rows of points, all degrees, all pairs and chains of curves, rational ones included",
  "the tests build one ruled surface of polynomial curves; degree elevation, joining and composition are not tested at all",
  ["mmcore/geom/curves/knot.py", "mmcore/geom/curves/bspline.py", "mmcore/construction/ruled.py"],
  [("interpolation, degree elevation, joining, composition", "mmcore/geom/curves/knot.py"), ("ruled construction", "mmcore/construction/ruled.py")], observe=["evaluated points, degree, knots and domain of what is built"])
P("C12", "Knot vector and basis function routines agree with their definitions",
  "For every clamped knot vector and parameter, every span search finds the half-open knot span of the parameter (the last one at the end), every basis function routine gives the exact basis functions and derivatives there, multiplicities and Greville "
  "abscissae are exact, and generated, normalised and merged knot vectors have the right length, ends and multiplicities. The stand-alone knot insertion, curve point, curve derivative and surface point routines agree with the exact definition.",
  "all degrees, clamped knot vectors with multiple interior knots, parameters on and between knots",
  "no test calls these routines at generated knot vectors; several have independent copies",
  [NURBS, "mmcore/geom/curves/knot.py", "mmcore/geom/curves/bspline_utils.py", "mmcore/geom/curves/deboor.pyx"],
  [("span search, basis functions, derivatives", NURBS), ("python copies", "mmcore/geom/curves/knot.py, mmcore/geom/curves/bspline_utils.py"), ("de Boor recursion", "mmcore/geom/curves/deboor.pyx")],
  observe=["returned indices, basis values, knots and points"])
P("C13", "NURBSpline and periodic curves keep to their definition",
  "A NURBSpline evaluates to the exact points and derivatives of its spline, also after any history of assignments, copies and pickling, and splitting it gives its two parts. A curve made periodic, of either class, is the uniform closed spline of its control points, "
  "repeats outside its domain, survives copying and pickling, and opening it restores the curve it was. A circle has all its points at the radius from its centre.",
  "all control points, weights, knots, degrees 1-5, parameters, also outside the domain of periodic curves, and histories of edits",
  "the only test makes three fixed polynomial curves periodic and looks at their ends",
  ["mmcore/geom/curves/_nurbs.pyx", "mmcore/geom/curves/bspline.py", NURBS], [("NURBSpline evaluation, derivatives, periodic form", "mmcore/geom/curves/_nurbs.pyx"), ("split, circle", "mmcore/geom/curves/bspline.py"), ("periodic NURBSCurve", NURBS)],
  over=("inputs", "histories"), observe=["evaluated points and derivatives, domain, control points"])
P("C14", "Curve-curve intersections are real, and every clear crossing is found",
  "Every pair of parameters that the intersection of two parametric curves reports lies in both domains and its two points coincide up to the tolerance; every transversal crossing of the curves, in whichever order they are given, is reported. "
  "The parameters reported for a curve and an implicit form (a plane, a sphere, a coordinate axis) are zeros of the form in the curve's domain, and every clear zero is among them.",
  "all pairs of curves, degrees, weights and knot vectors, planes, spheres and axes",
  "tests look at a few fixed pairs and compare the output with a stored list; missed crossings of other curves go unnoticed",
  ["mmcore/numeric/intersection/ccx/ccx.py", "mmcore/numeric/aabb.py", "mmcore/numeric/divide_and_conquer.py", "mmcore/numeric/routines/__init__.py"],
  [("curve x curve search", "mmcore/numeric/intersection/ccx/ccx.py"), ("sampled boxes", "mmcore/numeric/aabb.py"), ("root finding", "mmcore/numeric/divide_and_conquer.py")],
  over=("inputs",), observe=["reported parameter pairs, points of the curves there"])
P("C15", "Curve-surface intersections are real, unique, and every clear crossing is found",
  "Every intersection of a NURBS curve and a NURBS surface that is reported lies in both domains, its curve point, surface point and reported point coincide up to the tolerance, and no two of them are the same point; "
  "every transversal crossing away from the borders is reported, as transversal. A straight line pierces a flat surface exactly once, at the known parameter, and never when it ends before it. csx returns the same parameters sorted along the curve.",
  "all curves and surfaces, degrees, weights and knot vectors",
  "tests have a few fixed pairs; a search that prunes a piece wrongly only misses crossings of other shapes",
  ["mmcore/numeric/intersection/csx/__init__.py", "mmcore/numeric/intersection/csx/_ncsx.py", "mmcore/numeric/intersection/separability/spatial.py", "mmcore/geom/nurbs.pyx"],
  [("recursive curve x surface search", "mmcore/numeric/intersection/csx/_ncsx.py"), ("csx entry point", "mmcore/numeric/intersection/csx/__init__.py"), ("CurveSurfaceEq", "mmcore/geom/nurbs.pyx")],
  over=("inputs",), observe=["reported parameters and points"])
P("C16", "Borders of two surfaces pierce the other surface where reported, once each",
  "The four borders of a NURBS surface are its curves at the ends of its domain. Every border intersection of two surfaces that is reported lies on both surfaces, on the stated border of the stated surface, at the stated parameters of both; "
  "every transversal crossing of a border with the other surface is reported, and none twice.",
  "all pairs of surfaces, degrees and knot vectors, also with flat surfaces",
  "tests have two fixed pairs; a missed border crossing means a missed branch of an intersection",
  ["mmcore/numeric/intersection/ssx/boundary_intersection.py", "mmcore/numeric/intersection/csx/_ncsx.py"],
  [("border extraction and intersection", "mmcore/numeric/intersection/ssx/boundary_intersection.py")], observe=["reported border points"])
P("C17", "Surface intersections lie on both surfaces and cover every branch",
  "Every point of a traced surface-surface intersection lies on both surfaces within the resolution of the tracer, with one parameter pair per surface inside its domain; curves that end do so on a border of a surface. Every branch of the intersection - open ones between borders, closed ones, "
  "several at once - is traced completely and only once, and surfaces that do not meet give none. Flat patches meet in their exact segment. ssx gives curves through the traced points.",
  "pairs of flat patches in any position, gently curved pairs, planes cutting hills and channels, any orientation and scale",
  "tests have two fixed pairs and compare stored points; a lost branch of another pair goes unnoticed",
  ["mmcore/numeric/intersection/ssx/surface_surface.py", "mmcore/numeric/intersection/ssx/boundary_intersection.py", "mmcore/numeric/intersection/ssx/__init__.py"],
  [("marching tracer, loops, branches", "mmcore/numeric/intersection/ssx/surface_surface.py"), ("border starting points", "mmcore/numeric/intersection/ssx/boundary_intersection.py")],
  over=("inputs",), observe=["traced points, parameters, terminators and curves"])
P("C21", "Plane frames, projections and plane intersections are exact",
  "Evaluating a plane at local coordinates and the inverse are inverse rigid maps; planes built from three points, a normal or an equation are right-handed orthonormal frames on the given points. Projection, distance and the points where a line or ray meets a plane are the exact ones, "
  "a ray only ahead of its origin. Two planes meet in the line along the product of their normals, three planes in their common point, computed alike one by one or in grids.",
  "all planes, axis-parallel ones included, all points, lines and rays",
  "no test covers the plane routines apart from the values the surface intersection happens to need",
  ["mmcore/numeric/plane/cplane.pyx", "mmcore/numeric/plane/__init__.py"], [("evaluation, linear systems, ray tests", "mmcore/numeric/plane/cplane.pyx"), ("construction, projection", "mmcore/numeric/plane/__init__.py")],
  observe=["returned points, frames, directions and parameters"])
P("C22", "Vector kernels compute the products, norms and projections they name",
  "Dot, matrix and cross products, norms, units, extreme points, Gram-Schmidt steps, coordinate conversions, projections on vectors and lines, components along two vectors, inverses of 2x2 systems and polygon orientations are exact up to rounding, for one vector or many at once, "
  "independent of what memory held before, and leave their arguments unchanged. Singular systems are refused.",
  "all rows of vectors, zero and parallel ones included",
  "tests only use these kernels indirectly; batched variants are untested",
  ["mmcore/numeric/vectors.pyx", "mmcore/numeric/closest_point.py"], [("vector kernels", "mmcore/numeric/vectors.pyx")], observe=["returned values"])
P("C24", "Triangle-segment intersection is exact on interiors, edges and vertices",
  "A segment is reported to meet a triangle exactly when it does - at its ends, on edges and at vertices included - at the exact point and with the right classification as vertex, edge or interior. Testing many triangles at once, for the first hit or in parallel gives the same answers.",
  "all triangles and segments off the triangle's plane",
  "no test calls these routines",
  ["mmcore/numeric/algorithms/moller.pyx"], [("Moeller-Trumbore for segments, classification", "mmcore/numeric/algorithms/moller.pyx")], observe=["reported points and flags"])
P("C25", "Overlap and separability tests never separate what meets",
  "The GJK test reports two convex hulls as overlapping when they do and as apart when a gap is between them, whatever their shape - clouds, flat nets, segments -, order and scale, and spatial separability agrees with it. Seen from a common point, two sets are reported spherically separable exactly when a plane through the point parts them.",
  "all point sets; clear overlaps and gaps",
  "intersection searches prune by these tests: a wrong answer silently loses intersections of shapes the tests do not have",
  ["mmcore/numeric/algorithms/_gjk.cpp", "mmcore/numeric/algorithms/cygjk.pyx", "mmcore/numeric/intersection/separability/spatial.py", "mmcore/numeric/intersection/separability/spherical.py"],
  [("GJK", "mmcore/numeric/algorithms/_gjk.cpp"), ("box and GJK test", "mmcore/numeric/intersection/separability/spatial.py"), ("box and circle tests of directions", "mmcore/numeric/intersection/separability/spherical.py")], observe=["boolean answers"])
P("C27", "Sorting, unique values and grouping are exact for every array and history",
  "quicksort sorts an array in place, argsort gives a permutation that sorts it, unique gives its distinct values in increasing order, repeated, sorted and constant input included, without touching memory around it. After any sequence of unions two items of a union-find have the same representative exactly when they are connected, and tuples sharing a number are grouped together, each once.",
  "all arrays of finite numbers, all sequences of unions",
  "no test calls these routines directly",
  ["mmcore/numeric/algorithms/quicksort.pyx", "mmcore/numeric/algorithms/_quicksort.c", "mmcore/numeric/algorithms/_unique.c", "mmcore/ds/union_find.py"],
  [("sorts", "mmcore/numeric/algorithms/_quicksort.c"), ("unique", "mmcore/numeric/algorithms/_unique.c"), ("union-find", "mmcore/ds/union_find.py")], over=("inputs", "histories"), observe=["sorted arrays, indices, representatives, groups"])
P("C28", "Trees, circular lists, skip lists and queues follow their history",
  "After any sequence of operations an AVL tree and a skip list hold exactly the keys set and not deleted since, in order, each with the data last given to it, an AVL tree stays balanced, a circular list holds exactly its items, in order and linked both ways round, its hooks told of each item that comes or goes, "
  "and a priority queue hands out its items smallest first. Reversing a run of a sorted sequence reverses just that run. Looking up or removing what is not there changes nothing.",
  "all sequences of operations",
  "no test uses these containers; errors show only after particular sequences",
  ["mmcore/ds/tree/avl.py", "mmcore/ds/cdll/cdll.py", "mmcore/numeric/algorithms/sweep_line/skiplist.py", "mmcore/numeric/algorithms/sweep_line/sortseq.py", "mmcore/numeric/algorithms/sweep_line/priority_queue.py"],
  [("AVL tree", "mmcore/ds/tree/avl.py"), ("circular list", "mmcore/ds/cdll/cdll.py"), ("skip list", "mmcore/numeric/algorithms/sweep_line/skiplist.py"), ("sorted sequence", "mmcore/numeric/algorithms/sweep_line/sortseq.py")], over=("histories",), observe=["contents, links, heights"])
P("C29", "Spatial trees answer nearest-point and overlap queries like brute force",
  "After any insertions and deletions a k-d tree holds exactly the points put in and not deleted, those sharing coordinates included, splits them on the right sides, and finds the nearest point and the k nearest points in order; building it leaves the list of points as it was. "
  "After any insertions a search of an R-tree gives exactly the boxes that meet the one asked for, each once.",
  "all sequences of insertions, deletions and queries, ties and repeated points included",
  "no test uses these trees; pruning errors lose results only for particular layouts",
  ["mmcore/ds/bkdtree.py", "mmcore/ds/tree/rtree.py"], [("k-d tree", "mmcore/ds/bkdtree.py"), ("R-tree", "mmcore/ds/tree/rtree.py")], over=("inputs", "histories"), observe=["contents, query results"])
P("C30", "Sweep-line segment intersection finds every meeting point",
  "For a set of segments that do not overlap along a stretch, each segment is given exactly the points strictly inside it where it meets another one - crossings, ends touching it, points shared by many segments - each once and in order from its start; vertical and horizontal segments, common ends and closed polygons included.",
  "all sets of segments whose meeting points are distinguishable",
  "no test calls the sweep; degenerate contacts need particular layouts",
  ["mmcore/numeric/algorithms/sweep_line/sweep_intersector.py", "mmcore/numeric/algorithms/sweep_line/segment.py", "mmcore/numeric/algorithms/sweep_line/sortseq.py"],
  [("event loop", "mmcore/numeric/algorithms/sweep_line/sweep_intersector.py"), ("order of segments", "mmcore/numeric/algorithms/sweep_line/segment.py")], observe=["points reported per segment"])
P("C23", "Interval arithmetic encloses every result and is no wider",
  "The sum, difference, product, quotient or power of intervals, or of an interval and a number, holds the result for every choice of numbers from them and has attained ends in order; dividing by an interval around zero gives an unbounded one. Intervals compare as less or greater only when all their numbers do; "
  "union, intersection, membership and subdivision are those of the sets; operands stay as they were unless assigned to.",
  "all intervals with finite ends, around zero included",
  "tests never touch the class; its use in separability tests exercises comparisons only",
  ["mmcore/numeric/interval/_interval.py"], [("interval class", "mmcore/numeric/interval/_interval.py")], observe=["ends of results, answers"])
P("C26", "Bounding volume hierarchies answer every query like brute force",
  "A bounding box split anywhere, in two, four or eight, gives boxes that part it exactly; merged, expanded and shared boxes, corners, edges, faces, measures and containment are exact. A hierarchy holds each object once in nested tight boxes and leaves the list handed in as it was; queries by box, by point, for the closest box and between two hierarchies "
  "give exactly what testing every pair does. Rays and segments find the triangles of a mesh they clearly hit, flat meshes included, at the exact points and in order, and none they clearly miss.",
  "all sets of boxes and triangles, all queries",
  "tests use the hierarchy through two intersections; flat boxes and pruning need particular layouts",
  ["mmcore/geom/bvh/__init__.py", "mmcore/numeric/_aabb.pyx", "mmcore/numeric/algorithms/moller.pyx"],
  [("boxes, hierarchy, queries, casting", "mmcore/geom/bvh/__init__.py"), ("slab tests", "mmcore/numeric/_aabb.pyx")], observe=["objects, boxes and points returned"])
P("C31", "Plane polygon tests and set operations are exact in general position",
  "Areas of polygons are exact whichever way round and from whichever corner they are given. The point-in-polygon tests agree with the even-odd rule for every point off the boundary, level with corners included, plain or by hierarchy. The union, intersection and difference of two simple polygons whose corners are off each other's boundary "
  "cover exactly the points they should, crossing, nested or apart; operators leave their operands as they were. Clipping by a convex polygon keeps exactly the common points. Segments in general position intersect when they cross, and the convex hull is exactly that of the points, in order.",
  "all simple polygons, points off their boundaries, sets of points with ties and repeats",
  "no test calls the polygon module; faults need particular layouts (nesting, level corners)",
  ["mmcore/geom/polygon.py"], [("set operations, membership, clipping, hull", "mmcore/geom/polygon.py")], observe=["polygons, areas and answers returned"])
P("C18", "Surfaces made from boundary curves pass through them",
  "A Coons patch passes through its four boundary curves and blends them bilinearly, a ruled surface joins its two curves by segments, at equal relative parameters whatever the domains of the curves. Derivatives of any surface by difference quotients, together or one by one, are its derivatives up to the square of the step, "
  "its normal is their unit product and its frame orthonormal. Isolines, isoparametric segments, the boundary and curves drawn in the domain run on the surface where they should.",
  "all boundary curves meeting at corners, all parameters",
  "tests use these surfaces at most with curves on [0, 1]",
  ["mmcore/geom/surfaces/__init__.py", "mmcore/geom/evaluator/surface_evaluator.pyx", "mmcore/geom/parametric.pyx"],
  [("constructed surfaces, curves on surfaces", "mmcore/geom/surfaces/__init__.py"), ("difference quotients", "mmcore/geom/evaluator/surface_evaluator.pyx")], observe=["points, derivatives, frames"])
P("C19", "Closest points and perpendicular feet are found within the tolerance",
  "The closest pair of points of a plane set is the one brute force finds. The closest point found on a curve is in its domain, at the distance reported, no farther than both ends, and the nearest up to the tolerance where the distance has one minimum per step of the search; many points are answered as one by one. "
  "From a start near the foot of a perpendicular, inversion and the local search end at the foot. On a rectangle the closest point is the nearest, asked one by one or all at once.",
  "all point sets, curves and points; starts near a foot",
  "the one test of closest points measures speed; local searches and batches are untested",
  ["mmcore/numeric/closest_point.py", "mmcore/numeric/algorithms/point_inversion.py", "mmcore/numeric/divide_and_conquer.py"],
  [("closest points", "mmcore/numeric/closest_point.py"), ("Newton inversion", "mmcore/numeric/algorithms/point_inversion.py"), ("searches by halving", "mmcore/numeric/divide_and_conquer.py")], observe=["parameters and distances returned"])

P("C35", "Differences, Newton's method, quadrature and searches are as accurate as stated",
  "Derivatives, gradients, Jacobians and Hessians by finite differences are exact up to the order of their formula and leave the point alone. Every version of Newton's method finds the minimum of a convex function or the solution of a system with its equations in any order; within bounds it stays in them and never climbs. "
  "Romberg's method integrates to the accuracy asked for, in either direction, and areas of surfaces are exact. Searches over intervals and boxes find the minimum wherever it is, ends and corners included, and every separated root.",
  "all polynomials, convex functions and regular systems; all points, steps and boxes",
  "no test calls these routines directly: the geometry above them samples a few well-scaled functions",
  ["mmcore/numeric/fdm.py", "mmcore/numeric/newton/", "mmcore/numeric/integrate/romberg.pyx", "mmcore/numeric/bisection.py", "mmcore/numeric/divide_and_conquer.py", "mmcore/numeric/calgorithms.pyx", "mmcore/numeric/algorithms/surface_area.py"],
  [("finite differences", "mmcore/numeric/fdm.py"), ("Newton's method", "mmcore/numeric/newton/cnewton.pyx"), ("bounded Newton", "mmcore/numeric/newton/bounded.py"), ("Romberg", "mmcore/numeric/integrate/romberg.pyx"), ("searches", "mmcore/numeric/divide_and_conquer.py")], observe=["values, points and functions returned; points asked for"])

P("C40", "Vectors, matrices, lines and boxes of the object API follow linear algebra",
  "Points and vectors go through any history of operations as their coordinates do; operations in place keep the object, the others leave their operands alone. Products, angles, parallelism do not depend on lengths. A matrix made from a coordinate system gives it back, aligning maps one system to the other, rotations keep lengths and their centre and take one direction to another. "
  "Bounding boxes have the extent of their points; containment, overlap, intersection, union and expansion are those of the intervals in every direction; making and copying keep them. Lines meet where they do, at the parameters of each.",
  "all vectors, matrices, boxes and lines; all histories of operations",
  "no test imports these modules",
  ["mmcore/api/vectors.py", "mmcore/api/_base_vectors.py", "mmcore/api/bbox.py", "mmcore/api/curves.py", "mmcore/geom/vec/"],
  [("vectors and matrices", "mmcore/api/vectors.py"), ("operations", "mmcore/api/_base_vectors.py"), ("boxes", "mmcore/api/bbox.py"), ("lines", "mmcore/api/curves.py"), ("vector functions", "mmcore/geom/vec/__init__.py")], observe=["coordinates, cells and predicates returned; operands before and after"])

P("C32", "Implicit shapes and their combinations know inside from outside, and bounds",
  "A point is in a union, intersection or difference of shapes when it is in either, both, or the first alone, asked one by one or many at once, and bounds hold the shape. Spheres, cylinders and tubes give the signed distance to their surface and its unit gradient, after being moved or resized too. "
  "Trees over a shape part its bounds into full, empty and border cells that tell the truth, to the size asked for; the dual contour joins exactly the neighbouring cells the boundary passes between. Circles meet, touch and are nearest where they are.",
  "all arrangements of shapes and all points; all histories of moving",
  "the tests build one body and sample a few points of it",
  ["mmcore/geom/implicit/", "mmcore/geom/primitives.pyx", "mmcore/geom/circle.py"],
  [("implicit operations", "mmcore/geom/implicit/implicit.py"), ("trees", "mmcore/geom/implicit/tree"), ("dual contouring", "mmcore/geom/implicit/dc"), ("primitives", "mmcore/geom/primitives.pyx"), ("circles", "mmcore/geom/circle.py")], observe=["values, signs and bounds returned; kinds of cells; contour edges"])
P("C33", "Points found and traced on implicit curves and surfaces lie on them, all the way",
  "From a start near an implicit curve, surface or intersection of two the point found lies on it, near the start, or failure is reported: success is never claimed off the intersection. Marching gives points on the curve about a step apart, in one direction, once round or to the end given and no more than asked for. "
  "The curves two bodies meet in are each traced once; parametrized and spline versions stay on the curve; frames are orthonormal with the normal of the surface; the raster misses no part.",
  "all ellipses, ellipsoids, bodies crossing each other, starts, steps and ends",
  "the tests trace one circle and one pair of bodies and compare with stored points",
  ["mmcore/numeric/marching.py", "mmcore/numeric/algorithms/implicit_point.py", "mmcore/numeric/intersection/implicit_implicit.py", "mmcore/geom/implicit/implicit.py"],
  [("marching", "mmcore/numeric/marching.py"), ("points by Newton's method", "mmcore/numeric/algorithms/implicit_point.py"), ("curves of intersection", "mmcore/numeric/intersection/implicit_implicit.py")], observe=["points returned, flags of success"])
P("C34", "Polynomial forms of patches are converted, derived and multiplied exactly",
  "Bernstein, monomial, homogeneous and rational forms of a patch are the same polynomial map; converting back and forth gives the coefficients back. Derivatives, cross products and normals of polynomial patches are those of the polynomials, at every degree. The Gauss map of a patch points along its normals everywhere, rational or not, inside the hull of its control vectors. "
  "Binomial coefficients are exact past their table; raising the degree of a Bezier curve any number of times leaves it where it is; non-Bezier surfaces are refused.",
  "all degrees (zero included), coefficients and weights; all orders of import",
  "the tests compare one patch with stored numbers",
  ["mmcore/numeric/monomial.py", "mmcore/numeric/gauss_map.py", "mmcore/numeric/binom.pyx"],
  [("monomial forms", "mmcore/numeric/monomial.py"), ("Gauss maps", "mmcore/numeric/gauss_map.py"), ("binomial coefficients", "mmcore/numeric/binom.pyx")], observe=["coefficients and points returned"])

P("C20", "Curves given by functions, their pieces and expressions keep to the functions",
  "Derivatives, tangents, normals, curvature and frames of a curve given by a function are those of the function up to both ends of its domain, wherever it lies. Trimmed, extended, reparametrized and offset curves are the original on the domain stated, also after they were changed. "
  "Sums, differences, products and quotients of curves are evaluated as such where all of them are defined. Lengths are those of the curve to the tolerance, whatever was asked before, and the parameter at a length gives that length. Extreme points and roots found are those of the curve.",
  "all curves by functions, domains, trims, expressions and lengths; all orders of asking",
  "the tests evaluate splines; curves by functions, expressions and trims are untested",
  ["mmcore/geom/curves/curve.py", "mmcore/geom/curves/offset.py", "mmcore/numeric/numeric.py"],
  [("curves by functions", "mmcore/geom/curves/curve.py"), ("offsets", "mmcore/geom/curves/offset.py"), ("lengths and curvature", "mmcore/numeric/numeric.py")], observe=["points, derivatives, lengths and parameters returned"])
P("C37", "STEP files hold the geometry written, connected and whole",
  "Every curve and surface written to a STEP file is in it with its degrees, control points, knots, multiplicities, weights, name and colour, however many were written before; every reference is to an instance of the file and no instance is lost. "
  "A face is bounded by the four sides of its surface, each edge ending at the vertices it shares with its neighbours, the loop running head to tail. Planes are given by their normal and first axis. A simple assignment is parsed into its name and arguments.",
  "all curves and surfaces, rational or not; all sequences of writing; names with quotes and brackets",
  "no test imports the writer, and a file with a wrong shape in it looks as well-formed as a right one",
  ["mmcore/compat/step/step_writer.py"],
  [("the writer", "mmcore/compat/step/step_writer.py")], observe=["the text written, read back by steputils"])
P("C36", "Boolean operations of closed curves keep exactly the parts they should",
  "The union of two closed curves in a plane is made of the parts of either outside the other, the intersection of the parts inside, the difference of those of the first outside and those of the second inside, however often the curves cross, and also when they are apart or one is inside the other. "
  "Every piece lies on one of the curves and ends where another begins; union and intersection together are both curves. The operands stay as they are; an unknown operation is refused.",
  "all pairs of closed curves, any number of crossings, any position, direction and start",
  "the tests take two overlapping squares",
  ["mmcore/geom/curves/curve_bool.py", "mmcore/numeric/intersection/ccx.py"],
  [("boolean operations", "mmcore/geom/curves/curve_bool.py")], observe=["the segments returned, or the error"])
