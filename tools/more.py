TR = "src/triangle/triangle.rs"
prop("C02", "Planar triangulation is complete and constrained Delaunay",
 "Triangulating distinct points in the plane gives counter-clockwise triangles that fill the convex hull without overlap, use every point, and have no point inside a circumcircle; with segments, every segment appears as a chain of edges (also when points lie on it), the Delaunay condition holds across all other edges, and exactly the regions to the right of the segments that border them are left out. So closed outlines with holes, islands and touching corners are filled exactly. The triangles do not depend on the order of the segments' bookkeeping in memory: every allocator gives the same result.",
 ["inputs", "fault_sequences"], "all sets of distinct points (random, on grids, circles and lines, clustered, nearly collinear), all sets of segments that meet only at given points, all allocator behaviours",
 "The test counts the triangles of one random set with one segment; degenerate sets, long chains of flips and points on segments are not reached.",
 [TR, "src/predicates/predicates.rs"],
 [("divide and conquer with alternating cuts", TR + " div_conq_recurse, merge_hulls"), ("insertion of segments by flips", TR + " insert_segment, constrained_edge, delaunay_fixup"), ("removal of regions", TR + " triangulate")],
 ["indices returned by triangle::triangulate"],
 [("triangles with neighbours and edge marks, one edge per vertex", "the triangulation under modification", TR)],
 "seeded point sets and constraint sets under changing allocators; exact oracle: region to fill from an independent triangulation, boundary chain, used points, constraint edges, in-circle across every free edge")

prop("C03", "Polygons in space triangulate the same alone and in any soup",
 "Every face of a polygon soup is filled exactly, oriented by its own axes, with the points it names and no others, and each triangle is attributed to the face it came from. The triangles of a face are the same whether it is triangulated alone or in company, whatever faces came before it in the shared scratch memory and whatever the hash seeds and allocator do.",
 ["inputs", "histories"], "all planar polygons with holes and points on edges in any plane and axes, shared or separate points, all orders of faces, hash seeds and allocator behaviours",
 "The tests triangulate the faces of fixed models in one order and check nothing about them.",
 [TR, "src/polygonlization/mod.rs"],
 [("projection on the axes of the face", TR + " triangulate_polygon"), ("renumbering of the points of a face", TR + " unique_indices"), ("scratch memory reset between faces", TR + " triangulate_polygon_soup")],
 ["triangles and parents returned by triangulate_polygon and triangulate_polygon_soup"], (),
 "seeded soups and face orders under changing hash seeds and allocators; the C02 oracle per face, and equality of each face alone and in every order")

prop("C16", "Operations on separate objects never disturb each other",
 "Any number of callers, each triangulating, tetrahedralizing, evaluating predicates, editing or repairing meshes, cutting graphs or joining sets with their own objects, get the same right answers whether they run alone, after one another on one thread, or in several threads interrupted at any point. This also holds when some of the callers are cut short at any point by a failed allocation: nothing they leave behind affects the others.",
 ["schedules", "histories", "fault_sequences"], "all mixtures of operations in any number of threads, all interleavings at allocations and blocking waits, all sequences on one thread, all points of failure of an allocation in some callers",
 "Every test runs each operation once on its own; nothing exercises operations in sequence or in parallel.",
 ["src/triangle/", "src/predicates/", "src/mesh/", "src/polygonlization/", "src/graphcut/", "src/disjoint_set/mod.rs"],
 [("scratch memory owned by each call", "src/triangle/triangle.rs, src/predicates/predicates.rs, " + PO + "bsp_complex.rs"), ("random order from the thread's generator", T + " tetrahedralize")],
 ["results of all public operations in company"], (),
 "real threads under a seeded scheduler that switches at allocations and blocking waits, or sequences on one thread, with failing allocations; every answer judged by its property's oracle and compared with the same caller alone")

prop("C15", "Merging coincident points is complete, faithful and order independent",
 "Removing duplicate points within a positive tolerance maps every input point to a result point within that tolerance of it, equal points to the same one, every result point stands for some input point, and result points are pairwise separated by at least a quarter of the tolerance in some coordinate; without tolerance the points stay as they are. The set of points left is the same for every order in which the points are listed, and merging again changes nothing.",
 ["inputs", "schedules"], "all lists of finite points, all orders of listing, all tolerances, all allocator behaviours",
 "No test calls it with points that nearly coincide; only exact duplicates in model files occur.",
 [PO + "mod.rs"],
 [("rounding to a grid and sorting", PO + "mod.rs remove_duplicates")],
 ["polygonlization::remove_duplicates"], (),
 "seeded point lists around the tolerance, permuted per schedule, under changing allocators; the statement checked directly on each result")

prop("C17", "Interval and expansion arithmetic never misstate a value",
 "After any history of sums, differences, products and negations without overflow, the interval a computation ends with contains every value the exact computation can take for operands within their intervals, so that a value declared positive, negative or not zero truly is, and it still decides every value that is clear of rounding. An expansion put through any such history denotes exactly the exact result, in ordered non-overlapping components, with its exact sign. This holds for every form of the operators, every allocator and after calls cut short by a failed allocation.",
 ["inputs", "histories", "fault_sequences"], "all finite operands and intervals, all histories of operations by value or reference whose values stay within 2^-500 to 2^500, all allocator behaviours and points of failure",
 "One test checks one rounded difference of an interval and one the length of a few expansions; cancellation after absorbed operands, intervals around or ending at zero and long histories are never reached.",
 ["src/predicates/interval_number.rs", "src/predicates/expansion_number.rs", "src/predicates/predicates.rs"],
 [("outward rounding and the sign cases of products", "src/predicates/interval_number.rs"), ("expansion sums, differences and products without zero components", "src/predicates/expansion_number.rs, src/predicates/predicates.rs")],
 ["signs of IntervalNumber and ExpansionNum, components of ExpansionNum"], (),
 "a seeded register machine running intervals, expansions and an exact dyadic model side by side under changing and failing allocators; signs, both bounds (probed by subtracting the exact bound in parts), tightness and exact value checked after every operation")
