#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

G = ["src/graph/planar_graph.rs", "src/geometry/utils.rs"]
GS = [("node list", "positions and data of the nodes, addressed by index", "src/graph/planar_graph.rs"),
      ("edge list", "pairs of node indices plus edge data, addressed by index", "src/graph/planar_graph.rs")]
GT = "the only graph test builds one four-node cross and prints it; it asserts nothing and removes nothing"

prop("C01", "The graph stays a plane straight-line drawing under every history",
 "After any sequence of adding and removing nodes and edges, the graph is a plane straight-line drawing: no two edges meet anywhere except at an endpoint they share, no node lies in the interior of an edge, no two nodes are at the same position, no two edges join the same pair of nodes, and no edge joins a node to itself. This holds at every coordinate scale (unit-sized or canvas-sized drawings, negative coordinates), including when edges cross in their interiors, meet at a common point, overlap along a line, pass through existing nodes, or are requested from a node to itself. \"The same\" and \"on\" are up to floating-point rounding of the coordinates (about 2e-6 of the drawing's extent); features further apart than 1e-4 of the extent are distinct.",
 ["histories", "inputs"], "every sequence of add/remove operations, for every placement of nodes with features separated by at least 1e-4 of the extent",
 "Planarity is an invariant over histories: which edges get split depends on everything added before. " + GT + ".",
 G, [("crossing search and edge splitting", "PlanarGraph::add_edge, split_edges_along_edge, split_edges_at_node"), ("duplicate-node merging", "PlanarGraph::add_node"), ("segment intersection and on-segment predicates", "src/geometry/utils.rs")], GS,
 ["get_nodes / get_edges after every operation"])

prop("C02", "Graph operations never panic and never leave dangling indices",
 "No sequence of graph operations panics or hangs, whatever node or edge indices are passed and whether or not they exist, including removing the last edge, removing an isolated node and operating on an empty graph. After every operation each edge's two endpoints are existing nodes. An operation on an index that does not exist leaves the graph exactly as it was and reports no changes (adding an edge between nodes of which one does not exist returns the no-such-vertex error).",
 ["histories", "inputs"], "every operation sequence with in-range and out-of-range indices (0, last, one past the end, huge), starting from the empty graph and from every reachable graph",
 "Index maintenance after removals depends on the whole history (which slots were removed, in which order); the tests never remove anything and never pass an invalid index.",
 G, [("existence checks", "PlanarGraph::{add_edge,remove_edge,remove_node}"), ("index remapping on removal", "PlanarGraph::remove_node"), ("slot replacement on removal", "PlanarGraph::remove_edge")], GS, ["return values, get_nodes, get_edges"])

prop("C03", "Adding nodes and edges changes the drawing by exactly what was added",
 "Adding a node at a position where a node already is returns that node's index and changes nothing; otherwise exactly one node is appended, at that position with the given data, its index is returned, and every edge through that position becomes the two edges to its old endpoints, both carrying the old edge's data. Adding an edge adds exactly the points of that straight segment: existing nodes keep index, position and data, new nodes appear only where the segment crosses existing edges, every existing edge is kept or replaced by consecutive pieces with its own data, the new segment is covered by consecutive pieces carrying the new data (stretches that already were edges keep theirs), and no other edge appears. Adding an edge that already exists, in either direction, changes nothing.",
 ["histories", "inputs"], "every add operation in every reachable graph, for every node placement with well separated features",
 "It quantifies over all graphs and all geometric configurations (crossing, touching, collinear, concurrent); " + GT + ".",
 G, [("splitting with data copy", "PlanarGraph::split_edges_at_node"), ("crossing nodes", "PlanarGraph::split_edges_along_edge"), ("duplicate detection", "PlanarGraph::{add_node,has_edge_between_nodes}")], GS, ["graph before and after each add"])

prop("C04", "Removals delete exactly what was asked plus nodes left stray",
 "Removing an edge deletes that edge and those of its two endpoints that have no other edge, and nothing else. Removing a node deletes the node, every edge incident to it, and every neighbour whose edges all went to the removed node, and nothing else. Every surviving node keeps its position and data, and every surviving edge keeps its data and still joins the same two (physical) nodes in the same direction, even though indices may be renumbered.",
 ["histories", "inputs"], "every removal in every reachable graph, and every sequence of removals",
 "Removal compacts and renumbers indices, so an error shows only for particular index patterns and follow-up removals; no test removes anything.",
 G, [("index remapping", "PlanarGraph::remove_node"), ("stray-node detection", "PlanarGraph::{remove_edge,remove_edges_incident_to_node}")], GS, ["graph before and after each removal"])

prop("C05", "Change reports name exactly the slots whose content changed",
 "The edge-index list returned by every graph operation, and the node-index list returned by edge insertions and removals, name exactly the slots whose occupant (the physical node at its position; the physical edge between two positions with its data) is different before and after, counting created slots and slots that ceased to exist. A client that re-reads just the reported slots, and drops those that no longer exist, therefore holds the current graph. Operations that change nothing report nothing.",
 ["histories", "inputs"], "every operation in every reachable graph",
 "Reports are about differences between arbitrary successive states; the only test ignores every returned list.",
 G, [("report assembly", "PlanarGraph::{add_node,add_edge,remove_edge,remove_node,split_edges_at_node}")], GS, ["return values compared with graph before/after"])

prop("C06", "Graph queries agree with the node and edge lists",
 "In every reachable graph and for every index argument, the queries agree with the exposed node and edge lists: the counts equal the list lengths; a node or edge exists at an index, and is returned for it, exactly when the index is within the list (index 0 included); two nodes are reported as joined exactly when some edge lists them in either order; and the number of edges incident to a node is the number of edges having it as an endpoint, absent when the node does not exist. Queries change nothing.",
 ["histories", "inputs"], "every query with every argument in every reachable graph",
 "Query answers must match in all reachable states and for boundary indices; the tests call no query.",
 G, [("queries", "PlanarGraph::{node_count,edge_count,get_vertex,get_edge,has_node_at_index,has_edge_at_index,has_edge_between_nodes,number_of_edges_incident_to}, Edge::includes")], GS, ["query return values"])

PO = ["src/geometry/polygon.rs"]
prop("C07", "Orientation and segment-intersection predicates are exact",
 "For points whose coordinates make the arithmetic exact, twice the signed triangle area, left-of, left-of-or-on and collinear agree with the exact orientation of the three points. For segments with distinct endpoints, a point is between two others exactly when it lies on their closed segment, two segments intersect properly exactly when their interiors cross at one point, and two segments intersect exactly when the closed segments share a point. All answers are independent of which segment and which endpoint is named first.",
 ["inputs"], "all point triples and quadruples, including collinear, touching, overlapping, vertical and horizontal ones",
 "The tests try six hand-picked axis-aligned cases and never call either intersection predicate with touching or overlapping segments.",
 PO, [("signed area predicates", "area2, left, left_on, collinear"), ("segment predicates", "between, intersect_prop, intersect")])

prop("C08", "Polygon orientation, area, centre and transforms are consistent",
 "A polygon can be built from any list of at least three vertices and from no shorter list; it holds exactly those vertices in the same cyclic order, reversed if and only if they were clockwise, so that it is always counter-clockwise. Its area is the enclosed area, independent of the start vertex and direction in which the vertices were given, its centre is the average of its vertices, and a regular polygon has the requested number of equally spaced vertices at the circumradius from its centre. After any sequence of uniform scalings and translations each vertex is the image of the original vertex, the polygon is still counter-clockwise (for non-zero factors), area scales with the square of the factor and is unchanged by translation, and the centre moves along.",
 ["inputs", "histories"], "all simple polygons, all start vertices and directions, all transform sequences",
 "One right triangle in one orientation is tested; clockwise input, translation, scaling, centre and regular polygons are never checked.",
 PO, [("orientation normalisation", "Polygon::new"), ("fan area", "Polygon::{area,area_poly2}"), ("transforms", "Polygon::{uniform_scale,translate,center,regular}")])

prop("C09", "A diagonal is reported exactly when it lies in the polygon's interior",
 "For every simple polygon and every pair of its vertices, the pair is reported as a diagonal exactly when the vertices are distinct and the open segment between them lies strictly inside the polygon, touching neither an edge nor another vertex. Sides of the polygon are not diagonals, and the answer does not depend on the order of the pair.",
 ["inputs"], "all simple polygons (convex, reflex, with straight-angle vertices) and all vertex pairs",
 "The answer depends on the whole polygon shape; the test computes it for one polygon and only prints it.",
 PO, [("edge intersection scan", "Polygon::diagonal"), ("cone test at both ends", "Polygon::in_cone")])

prop("C10", "Triangulation exactly partitions every simple polygon",
 "Triangulating any simple polygon with n vertices terminates and returns exactly n-2 triangles, each with positive area and with its three corners among the polygon's vertices. The triangles have disjoint interiors and together cover exactly the polygon: every side of the polygon is a side of exactly one triangle, every other triangle side is shared by exactly two, and the areas add up to the polygon's area. The polygon itself is not modified.",
 ["inputs"], "all simple polygons, every start vertex, either input direction, including straight-angle vertices and large vertex counts",
 "Ear clipping updates a shifting index window; errors show only for particular ear positions and wrap-arounds. The test prints the triangle count for one polygon and asserts nothing.",
 PO, [("ear clipping loop", "Polygon::triangulate"), ("ear test", "Polygon::diagonal")])

U = ["src/geometry/utils.rs"]
prop("C11", "Segment and line intersection points are right and found when they exist",
 "For two non-parallel segments a point is returned exactly when the closed segments meet (contact at an endpoint included, up to rounding of the contact point), and it is the common point up to rounding. For two parallel segments any returned point lies on both, and disjoint parallel segments give none. For two infinite lines, each given by two points, the common point is returned whenever the lines are not parallel, even if it lies outside both given segments, and none is returned for parallel lines.",
 ["inputs"], "all segment/line pairs, including shared endpoints, T-contacts, parallel and collinear ones",
 "No test calls either routine.",
 U, [("parametric intersection", "calculate_line_segment_intersection, calculate_line_intersection")])
prop("C12", "Triangle degeneracy and incircle are right for every triangle",
 "Three points are reported as a degenerate triangle exactly when they lie on one line (coinciding points included), for points with exactly representable coordinates. For degenerate triangles there is no incircle; for every other triangle the returned centre is at the returned radius from each of the three sides, inside the triangle, and the radius is twice the area divided by the perimeter. The results do not depend on the order of the three points.",
 ["inputs"], "all point triples, including collinear and nearly needle-shaped ones",
 "One triangle with integer side lengths and one degenerate triple on the x-axis are tested; collinear triples with irrational side lengths are not.",
 U, [("degeneracy test", "is_degenerate_triangle"), ("incentre and Heron's formula", "calculate_triangle_incenter")])
prop("C13", "Midpoint, perpendicular and parallel constructions satisfy their definition",
 "For every segment with distinct endpoints: the midpoint is equidistant from and collinear with the endpoints; the perpendicular foot of a point lies on the segment's line and the connection to the point is perpendicular to it; the perpendicular bisector consists of the midpoint and a point at the requested distance from it, equally far from both endpoints, with finite coordinates whatever the segment's direction. Two vectors are reported as parallel when their directions are equal or opposite, and not parallel when their directions differ by more than a hundredth of a radian.",
 ["inputs"], "all segments (horizontal and vertical included), points and offsets",
 "No test calls the perpendicular or midpoint routines, and parallelism is tested for axis-parallel vectors only.",
 U, [("constructions", "calculate_midpoint, calculate_perpendicular_point, calculate_perpendicular_bisector, parallel")])
prop("C14", "On-segment and on-line membership is decided correctly at every scale",
 "A point is reported to be on a segment when, up to rounding of its coordinates, it lies on the segment between the endpoints, and for an endpoint itself exactly when endpoints are asked to be included; a point further than 1e-4 of the coordinate scale from the segment is reported as not on it. Likewise an infinite line in space contains every point obtained by moving from its base point by a multiple of its direction, up to rounding, and no point further than 1e-4 of the scale away. Both hold for any coordinate scale from unit-sized to canvas-sized drawings, and the order of the segment's endpoints or the length and sign of the line's direction do not matter.",
 ["inputs"], "all segments/lines and points, at several coordinate scales",
 "The segment predicate is untested; the line test uses three exactly representable points at unit scale.",
 U + ["src/geometry/line.rs"], [("distance test", "is_on_line_segment"), ("vanishing wedge test", "Line::contains")])
prop("C15", "Nearest-point and duplicate-point utilities are right for every point set",
 "The nearest-point query returns, for every non-empty list, the index of a point at minimal distance together with that distance. Two points are reported close exactly when they coincide up to floating-point rounding, symmetrically. Removing duplicates keeps exactly one representative of every group of coinciding points, keeps every point that has no duplicate, and adds none.",
 ["inputs"], "all point lists up to the bound, all multiplicities and orders of duplicates",
 "None of these utilities is tested; groups of duplicates are where they matter.",
 U, [("linear scans with tolerance", "find_closest_to, close_to, unique_points_among")])
prop("C16", "The geometric product is the product of the algebra Cl(3,0)",
 "Every product offered between vectors, bivectors, trivectors and rotors equals the geometric product of the Euclidean algebra of 3-space (basis vectors square to +1 and anticommute), component for component, in the documented basis xy, xz, yz and xyz, for every component type. It is therefore bilinear, associative across the offered types and generally not commutative.",
 ["inputs"], "all operand pairs, for every pair of operand types and every numeric type",
 "Tests compare two formulas of the same crate on single operands; a shared sign error or one on an untested component passes.",
 ["src/math/vector.rs", "src/math/bivector.rs", "src/math/trivector.rs", "src/math/rotor.rs"], [("product formulas", "the Mul implementations")])
prop("C17", "Dot and wedge are the graded parts of the geometric product",
 "The dot product of two equal-grade objects is the scalar part of their geometric product, and for rotors the sum of the dots of the parts. The wedge of two vectors is the antisymmetric bivector part of their product (zero exactly for parallel vectors), the wedge of a bivector with a vector is the trivector part (for three vectors their determinant, whatever the grouping), the wedge of two bivectors is the bivector part of their product, and the wedge of two trivectors is zero. The dot products are symmetric and the vector and bivector wedges antisymmetric, for every operand and component type.",
 ["inputs"], "all operands of all offered type pairs",
 "Only single operands are tested, most with a zero component, so sign or index mix-ups in one component survive.",
 ["src/math/vector.rs", "src/math/bivector.rs", "src/math/trivector.rs", "src/math/rotor.rs", "src/math/space.rs"], [("contraction and exterior formulas", "the Contraction and Exterior implementations")])
prop("C18", "Norms, normalisation and inverses satisfy their defining equations",
 "For every vector, bivector, trivector and rotor, the squared norm is the sum of the squares of the components, the norm is its non-negative root, and a non-zero object normalised has norm one and is a positive multiple of the original. For every non-zero vector, bivector and trivector, the product with its inverse, on either side, is the scalar one. The inverse of a rotor is its reversal, which for a unit rotor gives the identity rotor when multiplied on either side.",
 ["inputs"], "all objects, non-zero ones where an inverse is taken, of any magnitude whose squares stay within the component type",
 "One object per type is tested, positively oriented in most cases.",
 ["src/math/vector.rs", "src/math/bivector.rs", "src/math/trivector.rs", "src/math/rotor.rs"], [("norm formulas", "the Norm implementations")])
prop("C19", "Unit rotors act as rotations and compose like them",
 "Rotating a vector by a rotor is the sandwich of the vector between the rotor and its reversal. Hence every unit rotor preserves lengths, angles and orientation, the identity rotor fixes every vector, a rotor and its negative act alike, the inverse rotor undoes the rotation, and rotating by a product of rotors equals rotating by the right factor first and then by the left one, for products of any length.",
 ["inputs", "histories"], "all rotors and vectors, and all finite compositions of rotations",
 "Three vectors are rotated about axis-aligned planes; composition is never tested and most components are zero.",
 ["src/math/rotor.rs"], [("sandwich expansion", "Rotor3::rotate"), ("composition", "Mul for Rotor3")])
prop("C20", "Rotor constructors build the rotation they promise",
 "The rotor built from two non-zero, not opposite vectors, of any lengths, has unit norm, turns the direction of the first into the direction of the second by the shortest way, and leaves vectors perpendicular to both fixed. The rotor built from an angle and a unit plane turns vectors in the plane by that angle in the plane's orientation, from the first basis direction towards the second, and leaves vectors perpendicular to the plane fixed; angles add up under composition. The coordinate-plane constructors are the special cases for the xy, xz and yz planes.",
 ["inputs"], "all vector pairs of any length, all angles (negative, zero, beyond a full turn) and planes",
 "Tested with one pair of unit vectors and one angle; non-unit vectors, negative and large angles, and the coordinate-plane constructors are not.",
 ["src/math/rotor.rs"], [("half-angle constructors", "Rotor3::{from_vectors,from_angle_plane,from_xy_rotation,from_xz_rotation,from_yz_rotation,identity}")])
prop("C21", "Projection, reflection and angle match Euclidean geometry",
 "For non-zero operands of any length, the projection of a vector onto another is parallel to the latter and leaves a perpendicular remainder; the reflection keeps the part along the mirror vector and negates the part perpendicular to it, preserves length and is its own inverse, and neither depends on the length or sign of the second operand. The angle between two non-zero vectors is always a real number between zero and pi, symmetric, independent of lengths, zero for equal directions and pi for opposite ones.",
 ["inputs"], "all pairs of non-zero vectors, parallel and opposite ones included",
 "One pair per operation is tested; the angle of parallel vectors, where rounding can leave the domain of the arc cosine, is not.",
 ["src/math/vector.rs"], [("formulas via the geometric product", "Vector3::{project,reflect,angle}")])
prop("C22", "Vectors, bivectors, trivectors and rotors are component-wise linear spaces",
 "For each of the four types, addition, subtraction, negation, and multiplication and division by a scalar act on every component, the compound-assignment forms give the same result as the plain ones, zero and the unit elements have the documented components, and zero is recognised exactly when all components are zero. Two objects are approximately equal (absolute, relative or in units of last place) exactly when every pair of corresponding components is, with the given tolerances.",
 ["inputs", "histories"], "all operands, and all sequences of compound assignments",
 "Only vector addition and subtraction are tested, on one pair; compound assignment and the other types never.",
 ["src/math/vector.rs", "src/math/bivector.rs", "src/math/trivector.rs", "src/math/rotor.rs"], [("operator implementations", "Add, Sub, Neg, Mul, Div, *Assign, Zero, AbsDiffEq, RelativeEq, UlpsEq")])
prop("C23", "Basis-blade counts are the binomial coefficients for every grade",
 "The number of basis k-blades of an n-dimensional space is the binomial coefficient n over k for every n and k, in particular one for grade zero and zero for grades above the dimension, whenever the result and its intermediate products fit the integer type. The total number of basis blades is two to the dimension and equals the sum over all grades.",
 ["inputs"], "all dimensions and grades whose intermediate products fit the integer type",
 "No test calls these functions.",
 ["src/math/blade.rs"], [("factorial quotient", "total_number_of_basis_blades, number_of_basis_blades, factorial, binomial_coefficient")])
F = ["src/fold/fold.rs"]
prop("C24", "Importing a FOLD file reads every field and only what the file says",
 "For every well-formed FOLD document, in any key order and with any unknown extra keys, importing succeeds and each recognised key's value appears unchanged in its corresponding field, whichever other keys are present and however large the document is. Every absent key gives the empty default. Numbers keep their value to single precision.",
 ["inputs"], "all subsets and orders of the recognised keys, array shapes and document sizes",
 "There is no test of the import at all.",
 F, [("serde field mapping with defaults and renames", "struct Fold"), ("file reading", "Fold::from_file")])
prop("C25", "Exporting and re-importing a FOLD document loses nothing",
 "A FOLD document with finite numbers written out as JSON and imported again has the same value in every field, whatever combination of fields is filled, and any number of such round trips changes nothing. The exported keys are those the importer (and the FOLD format) uses.",
 ["inputs", "histories"], "all combinations of filled and empty fields; repeated round trips",
 "There is no test of export or import; an asymmetric key name shows only when the field is filled and re-imported.",
 F, [("matching serialize and deserialize names", "struct Fold")])
prop("C26", "Damaged or missing FOLD files give an error, never a panic",
 "Importing a file that does not exist, cannot be read, is not text, is cut off at any byte, has any byte altered, or holds a value of the wrong kind under any key never panics or hangs: it returns either a document (if the content still is a well-formed FOLD document) or an error. Every cut-off document and every wrong-kind value gives an error, and importing never modifies the file.",
 ["inputs", "crash_points"], "every truncation point and single-byte alteration of a document, every key with every wrong kind of value, every kind of unreadable path",
 "There is no test of the import; a torn write can leave any prefix of a document.",
 F, [("error propagation", "Fold::from_file")])

prop("C27", "The drawing does not depend on insertion order or direction",
 "Inserting any set of straight segments into an empty graph (for each: add both end nodes, then the edge between them) yields the same drawing whatever the order of the segments, whichever end is named first, and whether all end nodes are added up front or each just before its edge. That drawing is the arrangement of the segments: one node for each point where a segment ends or two non-parallel segments meet, one edge for each piece of a segment between consecutive such points (counted once where segments overlap), and nothing else. Only the numbering of nodes and edges, the direction of edges and the data may depend on the order: a piece carries the data of the first-inserted segment that contains it. Points are the same up to floating-point rounding (about 2e-6 of the drawing's extent); features further apart than 1e-4 of the extent are distinct.",
 ["histories", "inputs"], "every set of segments with well separated features, every order and direction of insertion",
 "Each segment meets the pieces left by all earlier ones, so the number of cases grows with the factorial of the number of segments; the only graph test inserts two edges in one order and asserts nothing.",
 G, [("crossing search and edge splitting", "PlanarGraph::add_edge, split_edges_along_edge, split_edges_at_node"), ("duplicate-node merging", "PlanarGraph::add_node"), ("walk along the new segment", "PlanarGraph::add_edge")], GS, ["get_nodes / get_edges after the last insertion"])

prop("C28", "The same operations always lead to the same graph",
 "Graph operations are reproducible: executing the same sequence of operations on two graphs that start equal (two empty graphs, or a graph and its copy) leads to the same nodes at the same indices (same positions to the bit, same data), the same edges at the same indices (same endpoints in the same order, same data), and the same results (returned index or error, same set of reported slots), however often and wherever it is repeated. Operating on a copy of a graph never changes the original.",
 ["histories", "schedules"], "every operation history, for every seed of the hash maps used inside (their iteration order is the only source of nondeterminism in the crate)",
 "Undo by replaying, documents shared between clients and every index a client holds rely on it. A test run sees one iteration order of a hash map, and small maps often happen to come out in order.",
 ["src/graph/planar_graph.rs"], [("renumbering through a hash map", "PlanarGraph::remove_node"), ("derived copies", "PlanarGraph: Clone")], GS, ["get_nodes / get_edges and return values of repeated executions"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
