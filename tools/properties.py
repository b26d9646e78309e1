prop("C01", "Exact numbers compute exact values",
  "Every arithmetic expression over exact numbers (rational or lazily evaluated) has exactly the mathematical value of that expression, whatever mix of owned, borrowed and assigning operators, shared sub-expressions, constructors and casts produced it. Dividing by zero is the only arithmetic that has no value. A cast to an integer cuts off the fraction and is refused when the result does not fit.",
  ["programs", "inputs"], "all straight-line programs of arithmetic steps over leaves of very different size and form, with sub-results reused",
  "Unit tests evaluate a handful of expressions; the value must be right for every operand form, operator overload and sharing pattern, most of which only differ in which internal shortcut is taken.",
  ["src/numeric/lazy_exact.rs", "src/numeric/cgar_rational.rs", "src/numeric/scalar.rs"],
  [("lazy expression DAG and exact evaluation", "src/numeric/lazy_exact.rs"), ("rational arithmetic", "src/numeric/cgar_rational.rs")],
  "All programs up to the stated depth over the stated leaves are executed and compared with GMP rationals; trusts GMP and depth-boundedness.")
prop("C02", "Sign, order, equality and hash of exact numbers are the true ones",
  "Sign queries, comparisons, equality and hashing of exact numbers always agree with the mathematical values, however close the values are, whatever form they are stored in and whatever was asked of them before. Equal values hash equally and the order is total.",
  ["inputs", "histories"], "all pairs of short expressions over near-equal and extreme leaves, after every short history of earlier queries",
  "Decisions are filtered through floating point and cached, so a wrong answer appears only for values closer than the filter resolves or after a particular earlier query filled a cache.",
  ["src/numeric/lazy_exact.rs", "src/numeric/ball.rs", "src/numeric/cgar_rational.rs"],
  [("filtered comparison", "src/numeric/lazy_exact.rs cmp_ref / sign"), ("caches of approximations and exact values", "src/numeric/lazy_exact.rs")],
  "All query histories and operand pairs within the bound, compared with GMP rationals.",
  state=[("approximation and exact caches", "filled lazily by queries, must never change a later answer", "src/numeric/lazy_exact.rs")])
prop("C03", "Float enclosures of exact numbers contain the exact value",
  "Every double interval or ball handed out for an exact number contains its exact value, and every fast double image is within rounding distance of it, for all magnitudes from denormal to beyond the double range and at every point of a value's life.",
  ["inputs", "programs"], "all short expressions over leaves from 2^-1100 to 2^1100",
  "Rounding direction errors are one unit in the last place and invisible to tests that compare printed numbers.",
  ["src/numeric/ball.rs", "src/numeric/lazy_exact.rs", "src/numeric/cgar_rational.rs", "src/numeric/cgar_f64.rs"],
  [("directed rounding of balls", "src/numeric/ball.rs"), ("interval queries", "double_interval in src/numeric")],
  "All expressions within the bound, enclosure tested with GMP rationals.")
prop("C04", "Orientation and in-circle tests return the true sign",
  "The orientation of N+1 points in dimension N, the planar and spatial orientation predicates of the kernels and the in-circle test return the sign of the true determinant for every input with exact numbers, including flat and repeated points, and for doubles whenever the inputs are exactly representable and well separated. The planar predicate and the in-circle test may call values inside their documented tolerance band zero, nothing else.",
  ["inputs"], "all point tuples of small lattices in dimensions 1 to 4, under scalings, offsets and mirrorings, in every number type",
  "A determinant scheme that skips a pivot or a sign is right on generic tests and wrong only on special zero patterns.",
  ["src/kernel/orientation.rs", "src/kernel/predicates.rs", "src/kernel/f64_kernel.rs"],
  [("orientation determinant", "src/kernel/orientation.rs orient"), ("planar orientation and in-circle", "src/kernel/predicates.rs orient2d, incircle"), ("double kernel", "src/kernel/f64_kernel.rs")],
  "All lattice tuples within the bound compared with integer permutation determinants.")
prop("C05", "Point, line and segment incidence is decided correctly",
  "Equality, collinearity, degeneracy of a triangle, lying on a segment and the parameter along a segment are the true ones for every placement of the points, including coincident points and single-point segments. The tolerant variant accepts exactly the points whose distance from the segment is at most the tolerance.",
  ["inputs"], "all triples of lattice points in the plane and in space under scalings and offsets, in every number type",
  "The interesting cases are coincidences of coordinates, of which there are too many kinds to list by hand.",
  ["src/kernel/predicates.rs", "src/geometry/segment.rs", "src/kernel/f64_kernel.rs"],
  [("incidence predicates", "src/kernel/predicates.rs"), ("segment queries", "src/geometry/segment.rs")],
  "All lattice triples within the bound compared with integer cross products and exact rational parameters.")
prop("C06", "Points are located correctly against a triangle",
  "For every triangle and every point of its plane, in two and three dimensions, the location (off, on an edge, at a vertex, strictly inside) is the true one whatever the order and orientation of the corners, a triangle without area contains nothing, and barycentric coordinates are the exact ones and exist exactly for triangles with area.",
  ["inputs"], "all triangles and all points of a lattice (in space: all coplanar points) under scalings and offsets, in every number type",
  "Points on the extension of an edge, at vertices and on edges of triangles in every orientation are a combinatorial space tests only touch.",
  ["src/kernel/predicates.rs", "src/geometry/util.rs"],
  [("point in triangle", "src/kernel/predicates.rs point_in_or_on_triangle"), ("barycentric coordinates", "src/geometry/util.rs")],
  "All lattice configurations within the bound compared with integer incidence.")
prop("C07", "Segment intersection is the exact common part",
  "The intersection reported for two closed segments, in the plane and in space, is nothing, one point or one common segment exactly as the true intersection is, with the exact point or end points, for crossing, touching, collinear, parallel, skew and single-point segments in any order.",
  ["inputs"], "all pairs of lattice segments under scalings and offsets, in every number type",
  "The kinds of contact multiply (end on interior, end on end, overlap, gap, containment, degenerate) and each is a separate branch.",
  ["src/geometry/intersection.rs", "src/geometry/edge_edge_intersect.rs"],
  [("segment intersection", "src/geometry/intersection.rs"), ("edge-edge intersection", "src/geometry/edge_edge_intersect.rs")],
  "All lattice segment pairs within the bound compared with the exact intersection set.")
prop("C08", "Vector, matrix, segment and plane algebra is exact",
  "Vector, point, segment and matrix operations (sums, products, scaling, interpolation, determinants, inverses, transposes, rows and columns, midpoints, directions, parameters along an edge, axes in a triangle's plane) give the exact algebraic result in every owned and borrowed form. A plane or line built from points contains exactly the points that lie on it, separates the others by orientation, and its canonical form is equal (and hashes equally) for exactly the planes that coincide.",
  ["inputs"], "all vectors, matrices and point tuples over small alphabets in dimensions 2 to 5, in every number type",
  "Index and sign slips in cofactors, crosses and transposes survive tests on symmetric examples.",
  ["src/geometry/vector.rs", "src/geometry/point.rs", "src/geometry/matrix.rs", "src/geometry/plane.rs", "src/geometry/segment.rs"],
  [("vector algebra", "src/geometry/vector.rs"), ("matrix algebra", "src/geometry/matrix.rs"), ("planes", "src/geometry/plane.rs")],
  "All operands within the bound compared with integer arithmetic.")
prop("C09", "Box queries answer like a linear scan through every history",
  "Bounding boxes built from points, joined, inflated and intersected are the exact ones, with touching boxes counted as intersecting. A box tree returns exactly the entries whose boxes meet the query box (or only the still valid ones when asked so) after every sequence of building, inserting, invalidating and compacting, reports how many entries an invalidation hit, and asks for a rebuild exactly when fewer than half of its entries are valid.",
  ["histories", "inputs"], "all box pairs over small alphabets, all subsets of a grid of boxes, and all histories of insert, invalidate and compact to a depth, with coordinates that may be unevaluated expressions",
  "Culling errors show up only for touching boxes with particular roundings, and counting errors only after particular orders of insertion and invalidation.",
  ["src/geometry/aabb.rs", "src/geometry/aabb_tree.rs", "src/kernel/predicates.rs"],
  [("box tree", "src/geometry/aabb_tree.rs"), ("boxes", "src/geometry/aabb.rs"), ("point list boxes", "src/kernel/predicates.rs bbox2d, bbox3d")],
  "All histories and box pairs within the bound compared with a plain list of integer boxes.",
  state=[("entry validity and counts", "flags set by invalidation, counted per subtree", "src/geometry/aabb_tree.rs")])
prop("C10", "Triangle-triangle intersection is the exact common part",
  "For any two triangles with area in space, the reported intersection is nothing, a point, a segment or (for coplanar triangles) the boundary of a convex polygon exactly as the true common part is, with exact end points, and every end point is described correctly as a vertex, a position on an edge or a position in the interior of each triangle. Coplanar triangles meeting in a single point may be reported as not meeting.",
  ["inputs"], "all pairs of lattice triangles in space with every order of corners, under scalings and offsets, in every number type; all planar segment pairs and small point sets for the helpers",
  "Contact kinds (edge in plane, vertex on edge, shared edge in a slanted plane, partial coplanar overlap) are too many to list and depend on the corner order and the projection axis chosen.",
  ["src/geometry/tri_tri_intersect.rs"],
  [("triangle intersection", "src/geometry/tri_tri_intersect.rs"), ("convex hull and planar segment helpers", "src/geometry/tri_tri_intersect.rs")],
  "All lattice triangle pairs within the bound compared with exact clipping in integer homogeneous coordinates.")
prop("C11", "Triangle soup and half-edge structure agree through every edit history",
  "A triangle is accepted in the given orientation when all its directed edges are free, otherwise in the opposite orientation when those are free, and otherwise refused without changing the mesh, as is one with repeated corners; removing takes out exactly that triangle. After every sequence of single and batched additions and removals the mesh holds exactly those triangles and its edge, twin, successor, border-loop, edge-lookup and vertex links are all consistent with them, also after rebuilding the border loops.",
  ["histories"], "all histories of adding any oriented triangle and removing any face on four and five vertices to a depth, all subsets and all build and removal orders of several open and closed surfaces",
  "The links left behind depend on the whole order of earlier edits, and a wrong one stays silent until a later edit walks over it.",
  ["src/mesh/triangle.rs", "src/mesh/core.rs"],
  [("adding and removing triangles", "src/mesh/triangle.rs"), ("border loops", "src/mesh/core.rs build_boundary_loops")],
  "Every history within the bound replayed on the real mesh and compared after each step with a plain map of oriented triangles.",
  state=[("border loops", "cycles of half-edges without a face", "src/mesh/triangle.rs")])
prop("C12", "Splitting at a point refines exactly the triangles it touches",
  "Splitting a face at a point puts one vertex exactly there and replaces the triangle by three, or replaces the triangles on both sides of the edge (one on a border) when the point lies on an edge, or changes nothing and names the vertex when one is already there; splitting an edge does the same at its point from either of its half-edges. The report names the vertex and exactly the new faces, no other triangle changes, all links and border loops stay consistent, and when asked to, the box tree afterwards finds exactly the live faces. In the plane the face to start from may be any face the mesh has ever had.",
  ["histories", "inputs"], "all histories of face and edge splits at all lattice points of planar and spatial, open and closed surfaces to a depth, in all number types",
  "A split that miswires one border link or forgets one box shows only when a later split or query passes through that spot.",
  ["src/mesh/core.rs", "src/mesh/topology.rs"],
  [("face and edge split", "src/mesh/core.rs split_face, split_edge"), ("finding the face at a point", "src/mesh/topology.rs find_valid_face"), ("boxes of faces", "src/mesh/core.rs face_aabb, build_face_tree")],
  "Every history within the bound replayed on the real mesh and tree, compared after each step with a plain list of lattice triangles.",
  state=[("box tree of the faces", "kept in step with the live faces by the splits", "src/mesh/core.rs")])
prop("C13", "Flipping an edge swaps one diagonal or changes nothing",
  "Flipping an edge shared by two triangles replaces exactly those two by the two triangles on the other diagonal, keeping orientation, face and vertex counts and all links consistent. It is refused, leaving the mesh as it was, exactly for border edges, handles that name no edge, edges whose other diagonal already is an edge anywhere in the mesh, and in space when a resulting triangle would have no area.",
  ["histories", "inputs"], "all flips in all meshes on four and five vertices and a dozen surfaces in all histories to a depth, all triangulations reachable by flips of polygons, spheres and a torus, and all lattice quadrilaterals in space",
  "Stale handles left by one flip only matter to the particular later flips that use them.",
  ["src/mesh/core.rs"],
  [("edge flip", "src/mesh/core.rs flip_edge")],
  "Every flip in every state within the bound compared with the flip of a plain triangle list; numbers of reachable polygon triangulations checked against the Catalan numbers.")
prop("C14", "Collapsing an edge is exact, and refused exactly when it breaks the surface",
  "Collapsing an edge of a surface without pinched vertices moves the kept vertex to the chosen place, retires the other one, drops exactly the triangles on the edge and redirects all others, keeping every link and the lookup of vertices by position consistent, and preserves the Euler characteristic unless a whole component vanishes. It is refused without any change exactly when the ends share no edge, when border edges are forbidden and it is one, when it would create a duplicate edge, a two-sided face or a pinched vertex, when a remaining triangle would be no larger than the given area limit, or when turned-over triangles are forbidden and one would turn over.",
  ["histories", "inputs", "configurations"], "all edges of all surfaces on four to six vertices and of named surfaces in all collapse histories to a depth; all edges of lattice surfaces with every placement and every option",
  "Whether a collapse is safe depends on the whole neighbourhood of both ends, and borders, closed pockets and earlier collapses make up most cases.",
  ["src/mesh/edge_collapse.rs", "src/mesh/topology.rs"],
  [("admissibility of a collapse", "src/mesh/edge_collapse.rs verify_collapse_prereqs"), ("carrying it out", "src/mesh/edge_collapse.rs collapse_edge_commit"), ("rings around both ends", "src/mesh/topology.rs ring_pair")],
  "Every collapse in every state within the bound compared with vertex identification in a plain triangle list and integer normals; a triangle turned by exactly a right angle is left open.")
prop("C15", "Neighbourhood queries answer as a scan over all triangles would",
  "In any mesh, also after any edits, asking for the neighbours, ring, outgoing edges or incident faces of a vertex, the edge between two vertices, the face on three vertices, the faces adjacent to a face or around it, whether two faces or vertices are adjacent, which vertices lie on the border, and the adjacency graph of all faces returns exactly what a scan over the list of live triangles gives. Rings around a vertex are in cyclic order, the joint neighbourhood of an edge has its two sides right, and removed faces have no neighbours.",
  ["histories", "inputs"], "all vertices, vertex pairs and triples, half-edges and faces of all meshes on four to six vertices and fourteen surfaces, and after all edit histories to a depth",
  "A walk around a vertex is right from most starting edges and wrong only for particular border layouts left by particular edits.",
  ["src/mesh/topology.rs"],
  [("walks around vertices and faces", "src/mesh/topology.rs"), ("edge lookup", "src/mesh/topology.rs half_edge_between")],
  "Every query in every mesh and every edited state within the bound compared with a scan over a plain triangle list.")
prop("C16", "Mixed edits of every kind keep the mesh exact",
  "Any sequence of adding and removing triangles, splitting faces and edges, flipping and collapsing edges leaves exactly the triangles and positions that the same sequence gives on a plain list of triangles, with all half-edge links, border loops and lookups consistent. An edit that would put two triangles on the same side of an edge is refused and changes nothing.",
  ["histories"], "all sequences of six kinds of edit, at every place they apply, on fifteen small open, closed and pinched surfaces to a depth",
  "Each edit leaves stale entries and reused handles that only another kind of edit later trips over; there are millions of short sequences.",
  ["src/mesh/core.rs", "src/mesh/triangle.rs", "src/mesh/edge_collapse.rs"],
  [("splits and flips", "src/mesh/core.rs"), ("adding and removing", "src/mesh/triangle.rs"), ("collapses", "src/mesh/edge_collapse.rs")],
  "Every sequence within the bound replayed on the real mesh and on a plain list of oriented lattice triangles, compared after every edit; a repeated state is not expanded again.")
prop("C17", "Clean-up passes and lookup by position keep exactly what they should",
  "Looking up or adding a vertex by position returns the vertex already at that exact position and otherwise a new one at it, never a removed or moved-away one. Dropping removed faces, unused vertices and duplicate vertices, in the order the clean-up runs them, keeps exactly the live triangles with their positions and orientation, merges vertices at equal positions, leaves no unused vertex, and renumbers without gaps with all links consistent.",
  ["histories", "inputs"], "all clean-up passes after all edit histories on fourteen surfaces to a depth, all small meshes with their vertices put together in every way, and all sequences of lookups around cell boundaries",
  "Renumbering goes wrong only for particular patterns of removed, unused and coincident elements.",
  ["src/mesh/core.rs", "src/mesh/spatial_hash.rs", "src/mesh/vertex.rs"],
  [("clean-up passes", "src/mesh/core.rs remove_unused_vertices, remove_duplicate_vertices, remove_invalidated_faces"), ("vertex lookup", "src/mesh/core.rs get_or_insert_vertex")],
  "Every state within the bound cleaned by the real code and compared with the same clean-up of a plain triangle list by position.",
  state=[("position hash", "vertices by grid cell, used for merging", "src/mesh/core.rs")])
prop("C18", "Measures of faces and positions on them agree with exact geometry",
  "Centre, area, box, plane and normal of a face, the barycentric coordinates of a point in its plane, whether the point is inside the face, on which edge and how far along, or at which corner, and the list of faces strictly containing a point are exactly those of integer geometry. A box tree over the faces finds exactly the live ones. A half-edge that has since been split is followed to the live piece on which the point lies.",
  ["inputs", "histories"], "all lattice triangles in the plane and in space with all lattice points around them in several coordinate frames and number types, all lattice points around closed surfaces, and all sequences of edge splits to a depth",
  "A swapped coordinate or corner is invisible on symmetric examples and on the corner order a test happens to use.",
  ["src/mesh/topology.rs", "src/mesh/core.rs"],
  [("location on a face", "src/mesh/topology.rs location_on_face, barycentric_coords_on_face"), ("measures", "src/mesh/core.rs face_area, face_centroid, plane_from_face"), ("following split half-edges", "src/mesh/topology.rs find_valid_half_edge")],
  "All lattice cases within the bound compared with integer and rational arithmetic; doubles within a relative 1e-9.")
prop("C19", "Inside or outside, and what a ray hits first, agree with exact geometry",
  "A point counts as inside, on or outside a closed surface exactly as it lies, however many walls, pockets and cavities the solid has and whichever edges and corners line up with the point, and inside or outside a planar mesh likewise. A ray, however long its direction and however large the mesh, reports the nearest face, edge or corner it meets with the right distance and position, and a miss exactly when it meets nothing; rays against segments in the plane and rays crossing a triangle from one of its corners do the same.",
  ["inputs", "configurations"], "all lattice points around all solids made of cells of small blocks, larger hollow and pierced solids and all lattice tetrahedra, all small ray directions from those points, all sets of planar cells under shears, in all number types",
  "The hard cases are the points whose rays pass exactly through edges and corners or cross many walls, and there are too many relative positions to list.",
  ["src/mesh/topology.rs"],
  [("point in solid", "src/mesh/topology.rs point_in_mesh_3, point_in_mesh_2"), ("ray casting", "src/mesh/topology.rs cast_ray_3, cast_ray_2"), ("rays on a face", "src/mesh/topology.rs cast_ray_from_vertex_in_triangle_3")],
  "All lattice points and directions within the bound compared with cell membership and integer ray tests; points on the outline of a planar mesh and rays in the plane of a face are left open.")
prop("C20", "Triangulating points gives the full Delaunay triangulation",
  "For any points in any order, with repeats and in any position relative to each other, whose coordinates are neither so large nor so close together that the documented relative tolerance of the orientation tests or double rounding hides their differences, the triangles cover their convex hull exactly once without overlap, use only given points, are all oriented alike with positive area, and no given point lies strictly inside the circle through a triangle's corners. Points on one line give no triangles, and the points are handed back unchanged.",
  ["inputs", "histories"], "all point sets of lattices up to 5 x 4 and of stretched and sheared lattices, all sequences of up to six lattice points with repeats, in several coordinate frames and all number types",
  "Cocircular, collinear, repeated and thin configurations and the insertion order decide which branch runs, and random points have none of them.",
  ["src/operations/triangulation/delaunay.rs", "src/kernel/predicates.rs"],
  [("incremental insertion", "src/operations/triangulation/delaunay.rs build, bowyer_watson_insert_point"), ("in-circle filter", "src/operations/triangulation/delaunay.rs point_in_circumcircle_fast")],
  "Every point set and order within the bound triangulated by the real code and checked with integer area, overlap and in-circle tests.")
prop("C21", "Constrained triangulation contains every required segment",
  "For any points and any list of segments between them that do not cross, the triangles cover the convex hull of the points exactly once, all oriented alike with positive area, use every point, and contain each segment as edges, cut at the points that lie on it. In a batch each result belongs to the job at the same place, and the triangles reported as enclosed by the hull are all of them.",
  ["inputs"], "all choices of up to four further lattice points of two triangles and of up to seven points of small lattices with all lists of up to three non-crossing segments, and all short sequences of jobs, and one segment through up to three points on it numbered in every order",
  "Which triangles a segment has to cut through depends on all points around it; tests list a handful of layouts out of millions.",
  ["src/operations/triangulation/delaunay.rs"],
  [("segment insertion", "src/operations/triangulation/delaunay.rs insert_constraint_walk, split_constraint_chain"), ("batches of jobs", "src/operations/triangulation/delaunay.rs build_batch_with_constraints_bowyer_watson"), ("enclosed triangles", "src/operations/triangulation/delaunay.rs triangles_inside_for_job")],
  "Every point set and segment list within the bound triangulated by the real code and checked with integer area, overlap and edge tests.")
prop("C22", "Union, intersection and difference of solids are those point sets",
  "For closed solids of any shape, with cavities and tunnels, in any relative position including shared faces, edges and corners, nested, apart or empty, the result of union, intersection or difference is a closed, consistently oriented surface that bounds exactly that combination of the two solids whenever a manifold surface can bound it. The two operands, though cut finer, still bound the same solids, results can be combined again, and operands with removed faces in store give the same answer.",
  ["inputs", "histories"], "all pairs of solids made of cells of small blocks and of lattice tetrahedra, at all listed displacements including coplanar ones, under all three operations, all chains of two operations on displaced cubes, and operands with one face taken out and put back",
  "Whether a part is kept depends on the relative position of whole regions and on every coplanar overlap; test solids are in one or two relative positions.",
  ["src/mesh_processing/boolean.rs", "src/mesh_processing/batching.rs", "src/geometry/tri_tri_intersect.rs", "src/operations/triangulation/delaunay.rs"],
  [("which parts are kept", "src/mesh_processing/boolean.rs classify_faces_3"), ("cutting along the intersections", "src/mesh_processing/boolean.rs get_mesh_intersections_3, src/mesh_processing/batching.rs build_face_pslgs_3")],
  "Every pair within the bound combined by the real code and compared with cell membership, area, exact volume, surface points and closedness.")
prop("C23", "A mesh written to a file comes back the same",
  "Writing a mesh and reading it back, in each supported format and through any chain of formats, gives the same triangles with the same orientation at the same positions, exactly where the coordinates are doubles and as a double next to the value otherwise. Faces that were removed before are not written, the order of faces is kept, and the formats that list vertices keep all of them in their order. A facet of a format that carries normals carries the one of its triangle.",
  ["inputs", "histories"], "all small meshes in several coordinate frames through all chains of up to three formats, coordinates of every size of double, all small fractions, and meshes after all edit histories to a depth",
  "Index shifts show only for particular patterns of removed and unused vertices, and lost digits only for numbers that need all of them.",
  ["src/io/obj.rs", "src/io/off.rs", "src/io/stl.rs"],
  [("OBJ", "src/io/obj.rs read_obj, write_obj"), ("OFF", "src/io/off.rs read_off, write_off"), ("STL", "src/io/stl.rs read_stl, write_stl")],
  "Every mesh and chain within the bound written and read by the real code and compared with the list of triangles and exact doubles; fractions that are no doubles may come back as either neighbouring double.")
prop("C24", "A mesh file is read exactly as written or refused",
  "Reading any text as a mesh file either gives exactly the vertices and triangles it lists, in order and orientation, or returns an error; it never panics and never gives a mesh with broken links or coordinates that are not finite. Missing or unreadable numbers, indices that name no vertex and files that end too soon are errors, while comments, blank lines and extra white space change nothing.",
  ["inputs"], "all sequences of well and ill formed lines to a length, all pairs of word and line edits and all single byte edits of a good file, in each format",
  "Malformed files differ in which line, word and byte is wrong; tests read good files.",
  ["src/io/obj.rs", "src/io/off.rs", "src/io/stl.rs"],
  [("OBJ reader", "src/io/obj.rs read_obj"), ("OFF reader", "src/io/off.rs read_off"), ("STL reader", "src/io/stl.rs read_stl")],
  "Every text within the bound read by the real code and compared with a plain reading; constructs the readers do not support may be refused or read in part.")
prop("C25", "Smoothing and remeshing do what they say and keep the surface",
  "Smoothing a vertex moves it by the given share of the way towards the mean of its neighbours within the plane across its area-weighted normal unless an edge would become longer than the limit, leaving border vertices and everything else as they are, and repeated sweeps do the same in turn; the typical edge length is the root mean square over all edges. Remeshing a surface without pinched vertices keeps the Euler number and border loops of every part (small discs may vanish), all links and lookups by position, leaves flat sheets flat and without folded triangles, refines where all edges are far longer than the target and coarsens where all are far shorter, and gives the same mesh every time. A target that is not positive stands for the typical edge length, and no rounds change nothing.",
  ["inputs", "histories", "configurations"], "all surfaces on four and five vertices, flat grids with every choice of diagonals and a displaced corner, surfaces of cell blocks, and meshes after all edit histories to a depth, smoothed at every vertex and remeshed to every listed length",
  "A flip or collapse that folds or tears the surface needs a particular neighbourhood at a particular target length, and unordered containers make runs differ.",
  ["src/mesh/core.rs", "src/mesh_processing/remesh.rs"],
  [("tangential smoothing", "src/mesh/core.rs smooth_tangential"), ("splits, collapses and flips to a target length", "src/mesh_processing/remesh.rs"), ("edge length", "src/mesh_processing/remesh.rs")],
  "Every surface within the bound smoothed and remeshed by the real code; smoothing compared with the formula in rationals (doubles within rounding), remeshing with topology, structure, orientation and a second run.")
prop("C26", "Where two meshes meet is found completely and located exactly",
  "For two triangle meshes in space, open or closed and with faces removed before, the reported pieces are exactly the common part of every pair of live faces, and each end of a piece is described, on either mesh, as the vertex, the position on an edge with both its faces, or the position inside a face where it lies. In the plane every crossing and every shared stretch of an edge with the edges of the other mesh is reported, with its place along the edge, and nothing else. Coplanar faces that touch in a single point may be reported as not meeting, and a crossing at an end of a planar edge belongs to no edge.",
  ["inputs", "configurations"], "all pairs of lattice tetrahedra, of a triangle and two hinged triangles, of tetrahedra with every set of faces removed and of cell blocks at all small offsets; all pairs of planar lattice triangles, hinges and sheets with every set of faces removed; in all number types",
  "Which of many neighbouring faces report a contact along a common edge or corner, and how its place is described, depends on the relative position of the whole neighbourhood.",
  ["src/mesh_processing/boolean.rs", "src/mesh/intersection_segment.rs", "src/geometry/tri_tri_intersect.rs", "src/geometry/edge_edge_intersect.rs"],
  [("pairs of faces in space", "src/mesh_processing/boolean.rs get_mesh_intersections_3"), ("pairs of edges in the plane", "src/mesh_processing/boolean.rs get_mesh_intersections_2")],
  "Every pair of meshes within the bound intersected by the real code; every pair of faces compared with exact clipping in integers, every end re-evaluated from its description.")
prop("C27", "Shared values answer every thread as if it were alone",
  "Exact numbers, and points and meshes made of them, may be shared between threads without locks: whatever several threads ask of the same values at the same time, each gets the answer it would get alone, whichever way their steps interleave. No thread panics or waits for ever because of the others, and the values are still right afterwards.",
  ["schedules", "programs"], "all interleavings with up to two preemptions of two or three threads that ask every combination of 21 questions (sign, order, equality, hash, exact value, enclosures, arithmetic on it, conversions) of expressions with up to two operations over shared leaves, and with one preemption of ten geometric questions about shared points and a shared mesh",
  "Values are computed on demand and kept; the moment between finding a value missing and keeping it is hit by chance only, and the tests run in one thread.",
  ["src/numeric/lazy_exact.rs"],
  [("values kept once computed", "src/numeric/lazy_exact.rs exact, ball_ref, approx, Hash for LazyExact"), ("shortcuts when a value is already known", "src/numeric/lazy_exact.rs simplify_identities, fold_if_both_exact")],
  "The library's sources are compiled against stand-ins for std and once_cell that hand every shared access to a scheduler; every schedule within the bound runs the real code, answers compared with rational arithmetic. Sequentially consistent memory is assumed.",
  observe="values returned to each thread")
