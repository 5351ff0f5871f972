#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "src/triangle/tetrahedron.rs"; PO = "src/polygonlization/"
P = []

def prop(id, title, st, over, q, why, files, mech, obs, state=(), level_note=None, tech=None, na=None):
    P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, obs=obs, state=state, note=level_note, tech=tech, na=na))

prop("C01", "Tetrahedralization is complete and Delaunay for every insertion order",
 "Tetrahedralizing distinct points that are not all on one plane (they span a volume beyond the library's flatness tolerance, a millionth of their extent) always finishes and gives a mesh in which every point is a vertex, every tetrahedron is positively oriented, the tetrahedra fill the convex hull without overlap or gap, no point lies strictly inside a circumsphere, and all adjacency (face neighbours, hull ghosts, point-to-tetrahedron links, stars of points) is mutual and consistent. The result is the same set of tetrahedra whatever random insertion order the process draws, and it neither loses points, panics nor loops when points are clustered, cospherical, coplanar or collinear.",
 ["inputs", "schedules"], "all finite sets of distinct points that are not coplanar within a millionth of their extent; all insertion orders the random shuffle can draw; all hash seeds and allocator behaviours",
 "The one test tetrahedralizes a fixed model under whatever order the process happens to draw and checks nothing about the mesh; degenerate sets and unlucky orders are never reached.",
 [T, "src/predicates/predicates.rs"],
 [("randomised Bowyer-Watson insertion", T + " insert_vertex_bw"), ("choice of the first tetrahedron", T + " initial_delaunay"), ("symbolic perturbation of cospherical points", T + " insphere_s"), ("point location", T + " locate_vertex"), ("stars of points", T + " incident")],
 ["the TetMesh returned by triangle::tetrahedralize and its queries"],
 [("tets / p2t", "cells with four oriented neighbour links; one incident cell per point", T)],
 "seeded insertion orders (via OS entropy), allocator faults; exact-arithmetic oracle of every invariant on the whole mesh, and agreement between orders")

prop("C04", "Orientation signs of explicit and implicit points are exact in every history",
 "The 2D and 3D orientation of points — explicit ones, intersections of a line and a plane, intersections of three planes, in every mixture and operand order — always equals the sign of the exact real determinant, with undefined intersections reported as undefined. The answer to a query does not depend on which queries came before it, on what the allocator hands out, or on earlier queries that were cut short by a failed allocation.",
 ["inputs", "histories", "fault_sequences"], "all finite coordinates without over- or underflow, all sequences of queries over shared points (which cache partial results), all allocator behaviours and allocation failures",
 "No test queries an implicit point; the fast paths (floating-point filter, intervals) hide the exact path except in near-degenerate positions, and caches make answers history dependent.",
 ["src/predicates/orient3d.rs", "src/predicates/orient2d.rs", "src/predicates/generic_point.rs", "src/predicates/predicates.rs", "src/predicates/interval_number.rs", "src/predicates/expansion_number.rs", "src/predicates/mod.rs"],
 [("filter, interval, expansion cascade", "src/predicates/orient3d.rs, src/predicates/orient2d.rs"), ("lazily cached homogeneous coordinates", "src/predicates/generic_point.rs"), ("adaptive determinants", "src/predicates/predicates.rs"), ("interval arithmetic", "src/predicates/interval_number.rs"), ("expansion arithmetic", "src/predicates/expansion_number.rs")],
 ["predicates::orient3d / orient2d / orient2d_xy, _yz, _zx and helpers that use them"],
 [("caches of implicit points", "interval and expansion coordinates computed on first use", "src/predicates/generic_point.rs")],
 "seeded query histories on shared points with dirty, moving, poisoning and failing allocators; each answer compared with exact rational arithmetic")

prop("C05", "Every predicate on explicit points returns the exact real sign",
 "Orientation in two and three dimensions, in-circle, in-sphere and lifted four-dimensional orientation, the axis-wise and normal-axis helpers, and the segment, triangle, coincidence and same-side tests on explicit points always return the answer of exact real arithmetic, however close to degenerate the points are. Exact expansion sums, differences, scalings and products denote exactly the sum, difference or product of their operands. The answer does not depend on allocator behaviour nor on calls that were cut short by a failed allocation.",
 ["inputs", "fault_sequences"], "all finite coordinates without over- or underflow (triangle tests: non-degenerate triangles; in-triangle and same-side: coplanar points), all allocator behaviours and allocation failures",
 "The tests evaluate a couple of literal inputs; the adaptive stages that decide nearly degenerate inputs are each reached only by specially placed points.",
 ["src/predicates/predicates.rs", "src/predicates/mod.rs", "src/predicates/orient3d.rs", "src/predicates/orient2d.rs", "src/predicates/generic_point.rs"],
 [("adaptive determinants with error bounds per stage", "src/predicates/predicates.rs orient2d, orient3d, incircle, insphere, orient4d"), ("expansion arithmetic", "src/predicates/predicates.rs"), ("segment and triangle predicates", "src/predicates/mod.rs")],
 ["predicates::* on explicit points"], (),
 "seeded nearly degenerate inputs under dirty, moving, poisoning and failing allocators; each answer compared with exact rational arithmetic")

prop("C06", "Coordinate order of explicit and implicit points is exact in every history",
 "Comparing two points by x, y or z gives the answer of exact real arithmetic for explicit and implicit points alike, in every mixture and in either operand order; a point is reported on a segment exactly when it is; and the rounded coordinates of an implicit point are close to the real ones. Comparison is a total order consistent with the exact coordinates, and the answer does not depend on earlier queries, on allocator behaviour, or on earlier queries cut short by a failed allocation.",
 ["inputs", "histories", "fault_sequences"], "all finite coordinates without over- or underflow, all sequences of queries over shared points, all allocator behaviours and allocation failures",
 "No test orders implicit points at all; two of the three axes and the swapped-operand paths are never executed by the tests.",
 ["src/predicates/less_than.rs", "src/predicates/mod.rs", "src/predicates/generic_point.rs", "src/predicates/interval_number.rs"],
 [("comparison cascade", "src/predicates/less_than.rs"), ("point on segment", "src/predicates/mod.rs point_in_segment_general"), ("lazily cached coordinates", "src/predicates/generic_point.rs")],
 ["predicates::less_than_on_x / _y / _z, point_in_segment_general and the rounded coordinates"],
 [("caches of implicit points", "interval and expansion coordinates computed on first use", "src/predicates/generic_point.rs")],
 "seeded query histories on shared points with dirty, moving, poisoning and failing allocators; each answer compared with exact rational arithmetic")

prop("C07", "Mesh connectivity stays consistent through every history of edits",
 "After building a mesh from any polygons — including non-manifold edges, isolated parts and repeated neighbours — and after any history of edge splits, face splits and face additions, all connectivity is mutually consistent: every half-edge lies on one closed loop of one face, next and previous are inverse, every edge lists exactly its half-edges, every vertex exactly its edges, and all traversals over faces, edges, vertices and neighbours visit exactly the incident elements once. This holds whatever the allocator and hash seeds do.",
 ["inputs", "histories"], "all polygon soups with faces of three or more distinct vertices, all histories of edge splits, face splits between two vertices of the face, and additions of faces along closed walks of distinct edges",
 "The mesh tests build one small example and count elements; no test makes a history of edits on non-manifold meshes.",
 ["src/mesh/surface_mesh.rs", "src/mesh/mesh.rs", "src/mesh/element/", "src/mesh/mesh_core_data.rs"],
 [("building edges and sibling chains from polygons", "src/mesh/surface_mesh.rs"), ("split_edge, split_face, add_face", "src/mesh/surface_mesh.rs"), ("circulators", "src/mesh/element/")],
 ["SurfaceMesh and its iterators and circulators"],
 [("half-edge arrays and sibling chains", "next, previous, vertex, edge and face of each half-edge, sibling chains of edges and vertices", "src/mesh/")],
 "seeded meshes and edit histories under changing allocators; every relation recomputed from the face loops and compared after each step")

prop("C08", "Each mesh edit changes exactly what it should",
 "Splitting an edge inserts exactly one new vertex into every face that uses the edge; splitting a face between two of its vertices replaces it by two faces sharing one new edge; adding a face adds exactly that face; and everything else — corners and identity of all other faces, vertices and edges, and the counts — stays as it was. A history of edits therefore always gives the polygons that performing the same edits on plain vertex lists gives, whatever the allocator does.",
 ["inputs", "histories"], "all polygon soups with faces of three or more distinct vertices and all histories of edge splits, face splits and face additions",
 "No test compares the polygons of a mesh with a model after a sequence of edits.",
 ["src/mesh/surface_mesh.rs", "src/mesh/mesh.rs", "src/mesh/element/"],
 [("split_edge, split_face, add_face", "src/mesh/surface_mesh.rs"), ("element counts and validity", "src/mesh/mesh.rs")],
 ["polygons, ids and counts of the SurfaceMesh after each edit"],
 [("face loops", "ordered corners of every face", "src/mesh/surface_mesh.rs")],
 "seeded edit histories under changing allocators; refinement against a list-of-polygons model after each step")

prop("C09", "Every repaired mesh is a closed, consistently oriented boundary",
 "Turning any polygon soup that spans a volume — self-intersecting, with holes, duplicates, flipped, stray or coplanar overlapping triangles, in any shell labelling — into a polyhedral mesh finishes and yields valid, non-degenerate triangles in which every edge is used equally often in both directions. Every output point lies within the bounding box of the input, and this holds for every random insertion order, hash seed and allocator behaviour.",
 ["inputs", "schedules"], "all triangle or polygon soups spanning a volume, all shell labellings, all insertion orders and hash orders the process can draw",
 "Tests run three fixed models under one unobserved order and assert nothing about closedness.",
 [PO + "bsp_complex.rs", PO + "conforming_mesh.rs", PO + "mod.rs", "src/triangle/triangle.rs", T],
 [("cell complex refined by constraint planes", PO + "bsp_complex.rs split_cell, split_face, split_edge"), ("matching constraints to tetrahedra", PO + "conforming_mesh.rs"), ("in/out labelling of cells by minimum cut", PO + "bsp_complex.rs complex_partition"), ("outline extraction and re-triangulation", PO + "bsp_complex.rs, src/triangle/triangle.rs")],
 ["points and triangles returned by polygonlization::make_polyhedral_mesh / make_mesh_for_triangles"],
 [("cells, faces, edges of the complex", "polyhedral subdivision of the hull, constraints and coplanar triangles per face", PO + "bsp_complex.rs")],
 "seeded soups and schedules through the whole pipeline; directed-edge balance, validity and containment judged on each output")

prop("C10", "Repairing closed shells yields exactly the boundary of their union",
 "When every shell is a closed, outward-oriented solid, the repaired mesh encloses exactly the union of the solids: a point is inside the result if and only if it is inside at least one of them, however the solids overlap, nest, touch or coincide. Each output triangle separates inside from outside, and the enclosed set is the same for every insertion order, hash seed and allocator behaviour.",
 ["inputs", "schedules"], "all arrangements of closed solids (disjoint, nested, crossing, sharing faces, edges or corners, tilted), triangle or polygon input, all random orders",
 "Tests never check which set the output encloses; coplanar and touching configurations and unlucky orders are not in them.",
 [PO + "bsp_complex.rs", PO + "conforming_mesh.rs", PO + "mod.rs", "src/graphcut/push_relabel_fifo.rs"],
 [("weights of cells per shell and minimum cut", PO + "bsp_complex.rs complex_partition"), ("coplanar triangles kept per face through splits", PO + "bsp_complex.rs split_cell"), ("insertion of constraint triangles", PO + "conforming_mesh.rs"), ("de-duplication of points", PO + "mod.rs")],
 ["winding number of the returned mesh at sampled points"],
 [("coplanar constraint triangles of a face", "which input triangles support it and with which orientation", PO + "bsp_complex.rs")],
 "seeded arrangements and schedules through the whole pipeline; winding numbers beside every output face and at random points against the union of the inputs")

prop("C11", "A shell missing one small face is capped along it",
 "When a solid is closed except for one missing flat face that lies on the outside of the whole input and is small against the rest of the shell, the repaired mesh is the union of the solids with the hole capped by that flat face. This holds for holes in boxes and prisms in any orientation and company of closed solids, and for every insertion order, hash seed and allocator behaviour.",
 ["inputs", "schedules"], "all boxes and prisms with one missing end on the convex hull of the input, with and without closed company, all random orders",
 "No test checks where a hole was closed.",
 [PO + "bsp_complex.rs", "src/graphcut/push_relabel_fifo.rs", PO + "conforming_mesh.rs"],
 [("area-weighted minimum cut over cells", PO + "bsp_complex.rs complex_partition"), ("push-relabel", "src/graphcut/push_relabel_fifo.rs")],
 ["winding number of the returned mesh at sampled points"], (),
 "seeded holed arrangements and schedules through the whole pipeline; winding numbers against the union of the capped solids")

prop("C12", "The augmenting-path cut is minimal whatever the order arcs arrive",
 "For every network of non-negative capacities and every order, splitting or duplication in which its arcs are reported, the augmenting-path graph-cut solver returns the maximum flow value, and the sides it reports form a minimum cut. A node disconnected from both terminals is put on one consistent side so that the reported sides always cut exactly the flow value.",
 ["inputs", "histories"], "all networks, arrival orders and splits of arcs, number types, node counts, allocator behaviours",
 "The tests solve one small fixed network in one order.",
 ["src/graphcut/mod.rs"],
 [("search trees from both terminals with orphan adoption", "src/graphcut/mod.rs"), ("terminal capacities netted per node", "src/graphcut/mod.rs add_source/add_sink"), ("side of a node", "src/graphcut/mod.rs is_sink")],
 ["GraphCut: returned flow and is_sink of every node"],
 [("trees, parents, distances, active queue", "state of the search between augmentations", "src/graphcut/mod.rs")],
 "seeded networks with permuted, split and duplicated arc arrival; exact reference maximum flow")

prop("C13", "The push-relabel cut is minimal whatever the order arcs arrive",
 "For every network of non-negative capacities and every order, splitting or duplication in which its arcs are reported, the push-relabel solver returns the maximum flow and the side it reports for each node forms a minimum cut with the source and sink on their own sides. Accumulating arcs one by one gives the same network as giving their sums, and integer and floating-point capacities behave alike.",
 ["inputs", "histories"], "all networks, arrival orders and splits of arcs, i32/i64/f64 capacities, hash seeds, allocator behaviours",
 "The tests solve one small fixed network in one order.",
 ["src/graphcut/push_relabel_fifo.rs", "src/graphcut/mod.rs"],
 [("FIFO push and relabel with gap and global relabelling", "src/graphcut/push_relabel_fifo.rs"), ("accumulation of arcs", "src/graphcut/mod.rs ArcBuilder")],
 ["PushRelabelFifo: flow and is_sink of every node"],
 [("labels and excess", "heights and stored flow per node", "src/graphcut/push_relabel_fifo.rs")],
 "seeded networks with permuted, split and duplicated arc arrival; exact reference maximum flow")

prop("C14", "Joined elements are exactly those connected by the history of joins",
 "After every prefix of any sequence of joins, the disjoint-set structure groups two elements together if and only if a chain of joins connects them, its group count equals the number of groups, and listing the groups yields every element exactly once. Listing in the middle of a history changes nothing afterwards.",
 ["histories"], "all sequences of joins and listings over any number of elements, hash seeds and allocator behaviours",
 "No test uses the structure directly.",
 ["src/disjoint_set/mod.rs"],
 [("union by size with path compression", "src/disjoint_set/mod.rs")],
 ["DisjointSet: n_groups and output"],
 [("parents and sizes", "the forest", "src/disjoint_set/mod.rs")],
 "seeded histories of joins and interleaved listings against a label-array model")

exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["obs"], hook_needed=None)
        if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["st"], quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"], anchors=a), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash check.sh setup",
 checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
   technique="deterministic simulation with fault injection", level="exploration", level_note=p["note"]) for p in P if not p["na"]],
 not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
 notes="Fixed and known findings: known_findings.txt. No hooks in /repo: every seam used (OS entropy, the allocator, hash seeds, thread switches at allocations) exists outside it.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
