#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the entries stay uniform)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": ["include/vecmath/" + f for f in files],
                  "state": state or [],
                  "mechanism": [{"name": n, "where": "include/vecmath/" + w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

prop("C01", "Vector comparison is one consistent total preorder",
 "For vectors of every size and component type, three-way comparison is lexicographic with NaN components sorted above all other values and equal to each other, and without an epsilon it is a total order: antisymmetric, transitive, and zero exactly for componentwise equal vectors. All six relational operators and epsilon-equality are exactly the outcomes of that comparison; with an epsilon, the first component differing by more than the epsilon decides the result. Comparing two sequences of vectors is lexicographic in the same element comparison, with a proper prefix ordered first.",
 ["inputs"], "all pairs and triples of vectors (sizes 1-4, float, double, int), all epsilons, all pairs of sequences",
 "Order laws quantify over triples and over NaN/zero/tie placements in every component; the tests compare a handful of 3-vectors and never check transitivity, NaN against NaN in later components or range prefixes systematically.",
 ["vec.h"], [("compare", "vec.h:compare"), ("is_equal and relational operators", "vec.h:operator==..operator>=")], ["return values of compare, is_equal, ==, !=, <, <=, >, >="])

prop("C02", "Component selection returns the k-th largest component",
 "For every vector and every valid k, the selected component (by value or by absolute value) is the k-th largest one, the selected index refers to a component with exactly that value, and over all k the indices form a permutation. The selected axis vector is a signed unit axis at an index of the k-th largest magnitude with the sign of that component, and cyclic component rotation (swizzle) moves the chosen axis last and is undone by its inverse.",
 ["inputs"], "all vectors of sizes 1-4 (float, double, int) including ties, zeros, infinities, all k and axes",
 "The tests use a few vectors with pairwise distinct components; ties, sign patterns and the permutation property over all k are a quantification over all order types.",
 ["vec.h", "constexpr_util.h"], [("find_max_component, find_abs_max_component, get_*", "vec.h"), ("sort", "constexpr_util.h:sort"), ("swizzle/unswizzle", "vec.h")], ["returned indices, components and axes"])

prop("C03", "Vector construction and arithmetic are componentwise",
 "Constructing, converting, extending, slicing, indexing and filling vectors moves every component to its defined position (missing ones are zero, surplus ones are dropped). Every arithmetic operator and componentwise function, on vectors and on collections of vectors, yields in each component exactly what the scalar operation yields, and dot, cross, length, normalisation, distance, averaging, homogeneous conversion and interpolation equal their mathematical definitions up to rounding.",
 ["inputs"], "all vectors of sizes 1-5 over int, float and double, including zeros, infinities and widely different magnitudes, and all call sequences combining them",
 "Tests exercise one or two operand pairs per operator for one size and type; a slip in one component, size, type or magnitude class is invisible to them.",
 ["vec.h", "vec_ext.h"], [("constructors, slice, operators", "vec.h"), ("range operators", "vec_ext.h")], ["components of the results"])

prop("C04", "Rounding and snapping return the correct nearest grid value",
 "For every finite input, floor, ceiling, truncation, rounding (half away from zero), rounding away from and towards zero return exactly the integer their definition names, without undefined behaviour however large the input is, and the fractional part and the remainder are consistent with them. Snapping to a grid returns a multiple of the grid that is nearest, or next away from or towards zero, and correction to a number of decimals moves a value only to a multiple of that precision within the given epsilon, leaving all other values unchanged. The vector versions act on each component alike.",
 ["inputs"], "all floating point inputs: all exponents, ties, neighbours of integers and of ties, values beyond the 64 bit integer range; all positive grid sizes and decimals",
 "The tests round about a dozen small values; the failures live at ties, at neighbours of ties, at and above 2^52 and beyond 2^63, for every exponent.",
 ["scalar.h", "vec.h"], [("trunc, floor, ceil, round, round_up, round_down, fract, mod", "scalar.h"), ("snap, snapUp, snapDown, correct", "scalar.h")], ["return values"])

prop("C05", "Scalar selection, clamping and interval helpers are exact",
 "Minimum and maximum (plain, by absolute value, NaN-ignoring) of any number of values return one of the arguments that bounds all the others, whatever their order. Clamping, sign, step, smooth step, linear interpolation, interval containment, epsilon comparison, NaN and infinity classification and successive-value computation follow their definitions for every input, and cyclic successor and predecessor stay in range and are inverse to each other.",
 ["inputs"], "all argument tuples up to length 5 over ordered values, zeros, infinities and NaN; all interval orders; all index/count/stride combinations of all integer types",
 "Each function is tested on a few tuples; argument order, ties, NaN position and wrap-around combinations are quantified over.",
 ["scalar.h"], [("min..safe_max, clamp, contains, succ, pred", "scalar.h")], ["return values"])

prop("C06", "Angle conversion and normalisation always terminate and are canonical",
 "Normalising an angle terminates quickly for every finite input, returns a value in [0, full turn[ and that value differs from the input by a whole number of turns up to rounding. Degree/radian conversion is linear and invertible up to rounding, and the measured angle between two unit vectors about an up axis is the counter-clockwise angle in [0, full turn], with swapped arguments of non-parallel vectors adding up to a full turn.",
 ["inputs"], "all finite angles of both precisions, from denormals to the largest finite values of either sign; all pairs of directions",
 "Tests use five angles of moderate size; termination and range for huge, negative and near-boundary angles are universally quantified.",
 ["scalar.h", "vec.h"], [("normalize_radians, normalize_degrees, to_radians, to_degrees", "scalar.h"), ("measure_angle", "vec.h")], ["return values", "termination"])

prop("C07", "Compile-time variants terminate and agree with the runtime ones",
 "Every function that has a variant usable in constant expressions (square root, length, normalisation, distance, unit, parallel and between tests, transformation of lines, rays and planes) terminates on every valid input and agrees with the runtime variant up to rounding. Evaluating the constant-expression functions at compile time yields the same value as evaluating them at run time.",
 ["inputs", "programs"], "all valid inputs of either precision; all constant expressions in the enumerated family",
 "Tests compare two or three values; the iterative square root can diverge or cycle for individual bit patterns, which only an exhaustive sweep can exclude.",
 ["scalar.h", "vec.h", "plane.h", "mat_ext.h", "line.h"], [("sqrt_c", "scalar.h:sqrt_c"), ("*_c functions", "vec.h, plane.h, mat_ext.h, line.h")], ["return values of both variants", "termination"])

prop("C08", "Polynomial solvers return exactly the real roots",
 "For polynomials of degree two, three and four with well separated or exactly repeated real roots, and a tolerance between rounding noise and the discriminants, the solvers report all real roots and nothing else, each satisfying the equation up to rounding, with the reported count equal to the number of valid values and all other slots NaN (only the quartic solver may report a root twice). Polynomials without real roots yield none.",
 ["inputs"], "all polynomials built from all root patterns (simple, repeated, complex pairs) and leading coefficients over a bounded lattice",
 "Tests contain a handful of polynomials per degree; which branch runs depends on the root pattern, and some patterns lose roots while others work.",
 ["scalar.h"], [("solve_quadratic, solve_cubic, solve_quartic", "scalar.h")], ["root counts and values"])

prop("C09", "Matrix algebra obeys the ring and module laws",
 "Matrix sums, differences, scalar and matrix products, matrix-vector and vector-matrix products of every shape, products with lists of vectors, and transposition equal their textbook definitions and so satisfy associativity, distributivity and (AB)^T = B^T A^T. Construction fills rows in reading order, element access is column then row, slices, minors and identity/zero/fill matrices contain the right elements, and equality and comparison are componentwise.",
 ["inputs"], "all matrices of shapes 1x1..4x4 (including non-square) over exactly representable entries, all vectors, both precisions",
 "Tests multiply single example matrices; index slips that cancel on symmetric or square examples are invisible to them.",
 ["mat.h"], [("mat constructors and operators", "mat.h"), ("transpose, extract_minor, slice", "mat.h")], ["matrix elements"])

prop("C10", "Determinants, inverses and linear solves are correct or refused",
 "The determinant equals the Leibniz determinant, the adjugate times the matrix is the determinant times the identity, and inversion succeeds exactly for the regular matrices, as far as rounding allows to tell, and then yields a two-sided inverse. The linear solver succeeds exactly for those systems, whatever the pivot order, and its solution satisfies the system.",
 ["inputs"], "all 1x1..4x4 integer matrices with bounded entries (all pivot orders and rank patterns) and all right-hand sides",
 "Tests invert two matrices; pivoting and singularity handling depend on the pattern of zeros, of which there are thousands.",
 ["mat.h", "mat_ext.h"], [("compute_determinant, compute_adjugate, invert", "mat.h"), ("lup_find_decomposition, lup_solve", "mat_ext.h / mat.h")], ["determinants, success flags, inverses, solutions"])

prop("C11", "Rotations are rigid and all representations agree",
 "Every rotation matrix (axis and angle, roll/pitch/yaw, quaternion, the quarter and half turn constants) is orthonormal with determinant one, turns by the right-hand rule by exactly the requested angle about the requested axis and leaves that axis fixed. Extracting Euler angles from a rotation and rebuilding it reproduces the rotation, including at the gimbal-lock poles.",
 ["inputs", "histories"], "all axes and angles of a bounded lattice including multiples of quarter turns, all Euler triples, all words over the rotation generators",
 "Tests rotate a few vectors about coordinate axes; sign conventions for oblique axes, poles and combined rotations are quantified over all triples.",
 ["mat_ext.h", "quat.h", "mat.h"], [("rotation_matrix, euler_angles", "mat_ext.h"), ("rot_90_x_ccw etc.", "mat.h")], ["matrix elements and rotated vectors"])

prop("C12", "Quaternions rotate, compose and compare as rotations",
 "A quaternion built from a unit axis and an angle rotates every vector by that angle about that axis, one built from two directions takes the first into the second by the shortest rotation (any perpendicular half turn when they are opposite), and both preserve lengths and angles. The product of quaternions rotates like the composition of rotations, conjugation inverts, multiplication by a scalar scales all four components, axis and angle can be read back, and equality holds exactly for the same rotation.",
 ["inputs", "histories"], "all axis/angle pairs, all pairs of directions (clearly distinct, equal or opposite), all products up to a bounded length",
 "Tests rotate by two or three angles; composition order and the antiparallel and almost parallel branches depend on the pair of inputs.",
 ["quat.h"], [("quat constructors, operator*, conjugate, axis, angle", "quat.h")], ["rotated vectors, equality results"])

prop("C13", "Transformation matrices map points exactly as specified",
 "Translation, scaling, shearing, mirroring, box-to-box scaling and shearing, coordinate-system, plane-projection and three- and four-point transformation matrices map points, directions and the defining corners exactly where their definition says, and the inverse, where one is offered, maps them back; degenerate defining points are refused with NaN. Composition of matrices is composition of maps, translation and strip operations split a matrix without loss (into the upper part of its last column and the rest), and applying a matrix to points ignores nothing of it, including perspective division.",
 ["inputs", "histories"], "all parameters over a bounded lattice (all sides, all deltas, all axes, all frames) and all points, plus all words over the elementary transformations up to a bounded length",
 "Tests check single matrices; which corner stays fixed depends on the side and sign combination, and composition laws quantify over sequences.",
 ["mat_ext.h", "mat.h"], [("translation_matrix .. points_transformation_matrix", "mat_ext.h")], ["images of points"])

prop("C14", "View and projection matrices map the view volume to clip space",
 "A perspective matrix maps every point of the near plane to depth -1 and of the far plane to +1 with the field-of-view edges at +-1 (half height of the near plane 0.75 tan(fov/2) times its distance, half width in proportion to the viewport), and an orthographic matrix maps its box to the unit cube. A view matrix takes the view direction to the negative depth axis and the up vector to the vertical axis while preserving distances.",
 ["inputs"], "all bounded near/far/edge/field-of-view/viewport combinations and all orthogonal camera frames",
 "Tests compare one matrix against hand-computed values.",
 ["mat_ext.h"], [("perspective_matrix, ortho_matrix, view_matrix", "mat_ext.h")], ["images of points"])

prop("C15", "Box queries, set operations and traversals are exact",
 "Containment (of points and boxes), enclosure, intersection, merging and intersecting of axis-aligned boxes coincide with the corresponding componentwise interval relations, boundaries included and tolerances honoured (disjoint boxes intersect in the empty box at the origin); constraining a point yields the nearest point of the box. Size, center, volume, corners, relative positions, expansion, translation and rigid or general transformation give the values of their definitions, and repairing a box makes it valid without changing valid ones. Face, edge and vertex traversal visits each of the 6 faces (clockwise seen from outside), 12 edges and 8 vertices exactly once.",
 ["inputs"], "all boxes and points over a bounded lattice in 1-3 dimensions, all pairs of boxes, all predicates near boundaries",
 "Tests use one or two boxes; touching, nested, degenerate and disjoint configurations per axis multiply to hundreds of cases.",
 ["bbox.h"], [("contains, encloses, intersects, constrain, merge, intersect, expand, transform, for_each_*", "bbox.h")], ["predicates, corner coordinates, visited faces/edges/vertices"])

prop("C16", "Accumulated bounds equal the bounds of everything added",
 "After any history of adding points, boxes and sequences of either, the accumulated bounds are exactly the smallest box containing everything added so far, independent of order and grouping, and are reported as not initialised with an empty box at the origin when nothing was added. Merging a whole range at once, with or without a projection, gives the same box as adding its elements one by one.",
 ["histories"], "all operation histories up to a bounded length over all operations and a bounded set of points and boxes",
 "Tests run one fixed history; order independence and the empty history are statements about all histories.",
 ["bbox.h"], [("bbox::builder, merge_all, merge", "bbox.h")], ["bounds(), initialized() after every step"], [{"name": "accumulated box", "meaning": "smallest box of all arguments", "where": "include/vecmath/bbox.h:builder"}])

prop("C17", "Segments are orientation-free and keep their invariant",
 "A segment stores its end points in ascending order whatever order they are given in and however it is made (construction, conversion, transformation, translation), so two segments with the same end points are equal and their order is a total order. Length, center, direction, vertex access and point-at-distance follow from the end points, and a point is contained exactly when its distance to the closest point of the segment is at most the tolerance, also for a segment of length zero.",
 ["inputs", "histories"], "all pairs of end points in 1-3 dimensions and all sequences of transforming operations up to a bounded length",
 "Tests look at two segments; the invariant must survive every chain of operations and every ordering of the end points.",
 ["segment.h"], [("segment constructors, flip, transform, translate, contains", "segment.h")], ["start, end, comparisons, contains"], [{"name": "end points", "meaning": "start <= end", "where": "include/vecmath/segment.h"}])

prop("C18", "Polygons are kept in canonical rotation and compared consistently",
 "A polygon of distinct vertices lists them in the given cyclic order starting with the smallest vertex, however it is made (construction, conversion, inversion, transformation, translation), so rotations of the same vertex list are equal. Comparison is the lexicographic total order of the vertex lists (a prefix comes first) and zero exactly for equal polygons, comparison ignoring orientation is zero exactly for polygons that are equal or equal up to reversal and is antisymmetric and transitive, and epsilon variants agree with them on well separated vertices. Iteration, reverse iteration, vertex membership, center and inversion reflect exactly the stored vertices.",
 ["inputs", "histories"], "all vertex lists up to a bounded length over a bounded point set, all rotations and reversals, all pairs and triples, all operation sequences up to a bounded length",
 "Tests compare a few triangles and quads; canonical form and order laws quantify over all rotations, lengths and triples.",
 ["polygon.h"], [("polygon constructors, compare, compareUnoriented, isEqual, hasVertex", "polygon.h")], ["vertices(), comparison results"], [{"name": "vertex list", "meaning": "smallest vertex first", "where": "include/vecmath/polygon.h"}])

prop("C19", "Lines and rays locate points and canonicalise uniquely",
 "A point at a distance along a line or ray is the origin plus that multiple of the direction, the distance to a projected point inverts this, and projecting a point gives the closest point of the line. Two lines have the same canonical form exactly when they contain the same points, whatever origin or direction sign was used; equality, conversion and transformation act on origin and direction as on a point and a vector, and a ray classifies points as in front, behind or level exactly by the sign of their offset along its direction.",
 ["inputs"], "all origins, directions and parameters over a bounded lattice; all pairs of representations of the same and of different lines",
 "Tests canonicalise two lines; uniqueness quantifies over all representations of one line.",
 ["line.h", "ray.h", "abstract_line.h"], [("make_canonical, point_at_distance, distance_to_projected_point, project_point", "line.h, abstract_line.h"), ("point_status", "ray.h")], ["returned points, distances, statuses"])

prop("C20", "Planes classify, project and transform points consistently",
 "A plane from three points contains them and faces the side from which they appear in clockwise order, and is refused exactly for colinear points. Signed distance, point status, projection (orthogonal or along a direction), the coordinate functions at, x, y, z and the plane anchor agree with the plane equation; flipping reverses every signed distance, and transforming plane and point together by an angle-preserving map or a translation preserves it (up to the scale). Equality and the epsilon comparison follow from normal and distance.",
 ["inputs"], "all planes and points over a bounded lattice of normals and distances, all point triples, all rigid transformations of a generating set",
 "Tests use axis-aligned planes mostly; orientation, axis choice and transformation quantify over all normals.",
 ["plane.h"], [("plane, from_points, project_point, at, transform, flip", "plane.h")], ["normals, distances, projected points, statuses"])

prop("C21", "Distances between lines, rays, segments and points are minimal",
 "For ray or segment and point, and for ray and segment, ray or line, the reported distance is the minimum over all pairs of points of the two objects, equals the distance between the reported positions, and the squared and plain variants agree. The reported positions lie within the objects' parameter ranges, for skew, intersecting, parallel and degenerate configurations alike, and parallel objects are flagged as parallel.",
 ["inputs"], "all pairs of objects over a bounded lattice of end points and directions",
 "Tests check a few configurations of each pair; which clamping case applies depends on the full relative placement.",
 ["distance.h"], [("squared_distance, distance overloads", "distance.h")], ["distance, positions, parallel flag"])

prop("C22", "Ray intersections report the first true hit or a miss",
 "Intersecting a ray with a plane, triangle, polygon, box, sphere or torus returns a distance exactly when the ray hits it (well away from grazing), the point at that distance lies on the object, it is not behind the origin and no closer hit exists. A miss is reported as NaN, and for origins inside a box, sphere or torus the exit point is reported.",
 ["inputs"], "all rays and objects over a bounded lattice, origins outside, inside and on the surface, all axis-parallel and oblique directions",
 "Tests shoot a few rays; zero direction components, origins inside and hits near edges multiply over all placements.",
 ["intersection.h"], [("intersect_ray_* functions", "intersection.h")], ["returned distance or NaN"])

prop("C23", "Line-plane and plane-plane intersections and point-in-polygon are exact",
 "A line meets a plane in the unique common point or, if parallel, NaN is returned; two planes meet in a line whose points lie on both planes, and parallel planes yield no line. A point is reported inside a planar polygon exactly if it lies in its interior or on its boundary, whatever the plane, the winding, the starting vertex or the position of vertices relative to the point.",
 ["inputs"], "all lines, planes and pairs of planes over a bounded lattice; all convex and star-shaped lattice polygons in several planes and all lattice points",
 "Tests use one square; vertex-alignment cases of the crossing count only occur for specific placements.",
 ["intersection.h"], [("intersect_line_plane, intersect_plane_plane, polygon_contains_point", "intersection.h")], ["returned points, lines and booleans"])

prop("C24", "The convex hull is the true hull in counter-clockwise order",
 "For every set of coplanar points, in any order and with duplicates, the result is a convex polygon whose vertices are input points, which contains every input point, consists of exactly the extreme points, each once, and lists them in counter-clockwise order about the plane normal with positive dominant component. Fewer than three points, or points all on one line, yield no hull.",
 ["inputs"], "all multisets of lattice points up to a bounded size, in all orders, in several planes, plus larger structured families",
 "Tests use about five point sets; duplicates, colinear runs and input order are a combinatorial space.",
 ["convex_hull.h"], [("convex_hull", "convex_hull.h")], ["hull vertex list"])

prop("C25", "Bezier surfaces interpolate their control grid",
 "A quadratic surface evaluated at parameters u and v is the tensor Bernstein combination of its nine control points, with u running along the rows and v across them, and yields the corner control points at the corner parameters. Hence it commutes with affine maps of the control points and stays in their bounding box.",
 ["inputs"], "all control grids from a bounded point set (basis grids, displaced points, affine images) and a lattice of parameters in both directions",
 "Tests evaluate a flat grid; each sample depends on every control point with its own weight.",
 ["bezier_surface.h"], [("evaluate_quadratic_bezier_surface", "bezier_surface.h")], ["surface points"])

prop("C26", "Text parsing and printing round-trip and never misread input",
 "Parsing accepts a text exactly if it starts with the needed number of numbers separated by whitespace or parentheses and then returns exactly those, reading nothing outside the given text; otherwise it reports failure, and trailing text is ignored. Parsing a list of items separated by whitespace, commas or semicolons yields every complete item in order and skips text that is no number. Printing any vector, matrix, line, ray, plane or box writes its components in order separated as documented, so that printing with enough precision and parsing again yields the same value.",
 ["inputs"], "all token/separator/bracket sequences up to a bounded length, embedded in longer buffers at every offset, all vector sizes; all values of a boundary alphabet for printing",
 "Tests parse a dozen well-formed strings from terminated literals; the grammar, separators and buffer boundaries form an unbounded input space.",
 ["vec_io.h", "mat_io.h", "bbox_io.h", "line_io.h", "plane_io.h", "ray_io.h"], [("parse, parse_all, can_parse, operator<<", "vec_io.h, mat_io.h, *_io.h")], ["parse results, printed text, memory accesses"])

prop("C27", "Approximate comparison is consistent with its epsilon",
 "A value equals its approximation exactly if it lies within the epsilon in every component, equality and inequality are complementary, symmetric in operand order and consistent with the ordering operators, for scalars, vectors, matrices, lines and lists of these, with default and explicit epsilons (ordering: scalars and, lexicographically, vectors).",
 ["inputs"], "all values around the epsilon boundary, all component positions, all operators and operand orders",
 "Tests try three values per operator on one component.",
 ["approx.h"], [("approx operators", "approx.h")], ["comparison results"])

prop("C28", "Parallelism, colinearity and betweenness predicates are geometric",
 "Colinearity of three points, parallelism of two directions, betweenness on a line, integrality, unit length and nullity hold exactly for the configurations their names describe (well away from the tolerance), do not depend on order, sign, translation or (for directions) scale of their arguments, and honour an explicit tolerance, which for three points bounds the squared area of their parallelogram.",
 ["inputs"], "all point triples and direction pairs of a bounded lattice in 1-3 dimensions, with all tolerances of an alphabet",
 "Tests call each predicate on two or three configurations; invariances are universally quantified.",
 ["vec.h"], [("is_colinear, is_parallel, is_between, is_unit, is_integral, is_zero", "vec.h")], ["predicate results"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
