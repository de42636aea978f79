#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 bin/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, level=level))


S = "src/surface/"
H = "include/geometrycentral/surface/"
U = "include/geometrycentral/utilities/"
N = "src/numerical/"

prop("C01", "Construction builds exactly the listed surface, or rejects it",
     "Building a general or a manifold surface mesh from a polygon list (or from polygons with explicit gluings) yields exactly that combinatorial surface: vertices and faces keep their listed order, every face keeps its corners in order, sides are joined on one edge exactly where the input joins them, and the unjoined sides of a manifold mesh are closed by boundary loops. "
     "A listing with a face of degree below three or an unreferenced vertex, and for manifold meshes any listing that is not a consistently oriented manifold without self-edges, is rejected with an exception instead of being accepted.",
     ["inputs"], "every polygon list / gluing, manifold or not, oriented or not, any degree, any number of components and boundary loops",
     "the stable tests never construct a surface mesh at all; the upstream tests load a dozen nice models, none pinched, glued to itself, or inconsistent",
     [S + "surface_mesh.cpp", S + "manifold_surface_mesh.cpp"],
     [("polygon-list constructors", S + "surface_mesh.cpp: SurfaceMesh(polygons, twins)"), ("manifold constructors, boundary walk, manifoldness checks", S + "manifold_surface_mesh.cpp: ManifoldSurfaceMesh(polygons[, twins])")],
     "exhaustive enumeration of small polygon lists and gluings, constructor output compared with an explicit reference half-edge model",
     "complete for all multisets of oriented polygons below the stated sizes and all orientable gluings of up to four triangles; larger vertex/edge degrees only through fan, book, bipyramid and grid families")
prop("C02", "Traversal, iteration and queries agree with the surface's incidences",
     "On every mesh, each traversal, adjacency iteration, whole-mesh iteration, element count and query (degree, boundary, manifold, oriented, triangular, connected components, genus, connecting edge, dense indices, face lists) answers what the incidences of the surface dictate. "
     "Each iteration terminates and visits every incident element exactly once per incidence, also on non-manifold, non-oriented and self-glued meshes and at the boundary.",
     ["inputs"], "every mesh of either class, including pinched vertices, edges with many faces, faces glued to themselves, several components and boundary loops",
     "needs every local configuration around vertices and edges; tests look at a few well-behaved models",
     [H + "halfedge_element_types.ipp", U + "element_iterators.ipp", S + "surface_mesh.cpp"],
     [("element navigators and iterators", H + "halfedge_element_types.ipp"), ("whole-mesh queries", S + "surface_mesh.cpp")],
     "exhaustive enumeration of small meshes, every query of every element compared with an explicit reference half-edge model",
     "same bounds as C01; C03 and C04 repeat the comparison after mutations, on meshes with deleted elements")
prop("C03", "Manifold mesh mutations perform exactly the documented change",
     "After any sequence of mutations of a manifold surface mesh (flip, vertex/edge insertion, edge split, face split, triangulation, collapse, removals, edge separation, orientation switch, face inversion) the mesh is the documented combinatorial result: a valid manifold mesh whose unaffected elements, element counts and boundary loops are kept and whose new and deleted elements are exactly those documented. "
     "Operations that cannot be performed without breaking manifoldness are refused (by return value or exception, as documented) and then leave the mesh unchanged.",
     ["inputs", "histories"], "every mesh and every sequence of mutations of any length, at every edge, vertex, face and boundary loop, including self-glued, low-degree and boundary situations",
     "the stable tests contain no mutation at all; upstream tests apply a few mutations at random places of nice meshes and only run the built-in validator, which ignores counts and the identity of elements",
     [S + "manifold_surface_mesh.cpp", S + "surface_mesh.cpp"],
     [("mutation routines", S + "manifold_surface_mesh.cpp"), ("element allocation, deletion and count keeping", S + "surface_mesh.cpp")],
     "exhaustive search over all mutation sequences up to a depth from a set of small start meshes, the real mesh compared with an editable reference map after every step",
     "collapse is held to the link condition only on simplicial complexes (its documented domain); situations the documentation leaves open are not judged")
prop("C04", "General surface mesh mutations perform exactly the documented change",
     "After any sequence of mutations of a general surface mesh (face inversion, face duplication, edge flips, separating an edge or all non-manifold edges and vertices, greedy orientation) the mesh is the documented combinatorial result, with correct counts, all other elements and attached data kept: flips are performed or refused as documented also between inconsistently oriented faces, non-manifold edges are split into as few manifold edges as possible, every vertex becomes one vertex per edge-connected group of corners with its parent reported, and every orientable set of faces ends up consistently oriented. "
     "Operations that do not apply (other edges, not edge-manifold, manifold-class meshes) are refused; conversion to a manifold mesh succeeds exactly when the surface is manifold and oriented.",
     ["inputs", "histories"], "every general mesh, non-manifold, non-orientable or pinched, and every operation sequence",
     "no stable test touches general meshes; upstream tests call each operation once on a nice model",
     [S + "surface_mesh.cpp"],
     [("general mesh mutations", S + "surface_mesh.cpp: invertOrientation ... greedilyOrientFaces"), ("vertex and sibling lists", S + "surface_mesh.cpp: removeFromVertexLists, addToVertexLists, initializeHalfedgeNeighbors")],
     "exhaustive search over all operation sequences up to a depth from every small polygon soup, the real mesh compared with an explicit half-edge model after every step",
     "depth 2-4; soups of at most four triangles (three for five vertices) plus book, fan, Moebius, projective-plane and pinched families; flips creating self-edges are not judged")
prop("C05", "Mesh data containers stay in sync with the mesh",
     "A container attached to a mesh at any time, however it was made (constructed, copied, moved, assigned, computed from other containers or read from a vector), keeps for every element present at that time the value it was given, through any sequence of mutations and compressions, and holds its default value for every element created later. "
     "Reading containers as vectors, transferring them to a copy of the mesh, destroying or moving from containers, and deleting the mesh before its containers never disturb the values of other containers.",
     ["inputs", "histories"], "every element kind, every value type, every point of attachment in every mutation history",
     "the stable tests have one container on a point cloud; desynchronisation shows only for particular interleavings of growth, deletion, compression and container lifetimes",
     [U + "mesh_data.ipp", U + "mesh_data.h", S + "surface_mesh.cpp"],
     [("container callbacks and rule of five", U + "mesh_data.ipp"), ("storage growth and compression callbacks", S + "surface_mesh.cpp: getNew*, expandFaceStorage, compress*")],
     "exhaustive search over all mutation/compress sequences up to a depth, with 23 kinds of containers per element kind attached before every step and every entry checked after every step",
     "depth 2 (3 for the smallest meshes in the thorough tier) from the start meshes of C03; values int, bool, string, vector")
prop("C06", "compress(), copies and conversions preserve the surface",
     "compress() yields a mesh with dense indices that is the same surface as before, with the same counts, and can be mutated further. "
     "Copies of a mesh (same class or through the base class) are the same surface with the same element indices and are independent of the original, and converting to a manifold mesh yields the same surface with vertices and faces in order, also for meshes that have been mutated and not compressed.",
     ["inputs", "histories"], "every mesh and every mutation history before the compress / copy / conversion and every mutation after it",
     "tests compress or copy a few models after one kind of mutation and look at counts only",
     [S + "surface_mesh.cpp", S + "manifold_surface_mesh.cpp"],
     [("compression", S + "surface_mesh.cpp: compress*"), ("copies", S + "surface_mesh.cpp: copyInternalFields, toManifoldMesh")],
     "exhaustive search over all mutation/compress sequences up to a depth; compress, copies and conversions compared with the reference map in every state, and every further operation run on a copy",
     "depth 2 (3 for the smallest meshes in the thorough tier); meshes with self-edges cannot be converted (the polygon constructor rejects them)")
prop("C07", "Required geometry quantities are always the values of the current input",
     "For every geometry class (vertex positions, edge lengths, point clouds with or without given normals or frames), after any sequence of require, unrequire, purge and refresh calls every quantity that is currently required holds exactly what a fresh geometry object computes for the input of the last refresh, including moved positions and mutated meshes, and whatever else has been required, released or purged before. "
     "Purging releases the unneeded quantities and never the required ones or the input, unmatched unrequire calls are refused without consequences, and copied or reinterpreted geometries have the same quantities independently of the original.",
     ["inputs", "histories"], "every quantity, every interleaving of requirements, releases, purges and refreshes, every mesh or point cloud",
     "needs particular call histories (a dependency purged before a dependent quantity is first required); tests require each quantity once on a fresh object",
     [U + "dependent_quantity.ipp", S + "base_geometry_interface.cpp", S + "intrinsic_geometry_interface.cpp", S + "embedded_geometry_interface.cpp", S + "extrinsic_geometry_interface.cpp", "src/pointcloud/point_position_geometry.cpp"],
     [("lazy evaluation and reference counts", U + "dependent_quantity.ipp"), ("dependencies of every quantity", S + "*_geometry_interface.cpp: compute*"), ("point cloud quantities", "src/pointcloud/point_position_geometry.cpp")],
     "exhaustive exploration of all require/unrequire/purge/refresh words up to a length for every quantity and every pair of quantities on the real objects, against a fresh object after every step",
     "word length 5 for single quantities and 4-5 for pairs; ten meshes and three kinds of point clouds; three explicitly required quantities interact only through dependencies")
prop("C08", "Geometry quantities satisfy their defining formulas and identities",
     "Every quantity of the geometry classes equals its documented definition on every input, and the identities that tie them together hold: areas, angles, curvatures (Gauss-Bonnet, Steiner-type sums), normals, dihedral angles, cotan weights, and the cotan, connection, Crouzeix-Raviart, Galerkin, DEC and polygon operators (symmetric, positive semi-definite, right kernel, exact on linear functions, d1 d0 = 0, consistent with each other and with rotation of the tangent frames). "
     "This holds for embedded meshes with triangles and polygons, with boundary, for meshes given by edge lengths only, and, where documented, for non-manifold meshes.",
     ["inputs"], "every mesh and every choice of positions or edge lengths",
     "the upstream geometry tests need asset files and are not stable here; identities must hold for every shape, polygon degree and boundary configuration",
     [S + "intrinsic_geometry_interface.cpp", S + "extrinsic_geometry_interface.cpp", S + "embedded_geometry_interface.cpp", U.replace("utilities", "surface") + "vertex_position_geometry.ipp"],
     [("intrinsic quantities and operators", S + "intrinsic_geometry_interface.cpp: compute*"), ("embedded and polygon quantities", S + "embedded_geometry_interface.cpp: compute*"), ("immediate computations", "include/geometrycentral/surface/vertex_position_geometry.ipp")],
     "exhaustive evaluation over all placements of the vertices of every small surface on small integer point sets and all edge lengths from a small set, every quantity compared with an independent brute-force reference",
     "surfaces up to 4-6 vertices with all placements on small lattices plus bumpy grids and Platonic shapes; floating point compared up to 1e-8 relative")
prop("C09", "Signpost triangulations stay faithful to the input surface under every operation",
     "After every sequence of edge flips, edge splits, vertex insertions, removals, moves, Delaunay flipping and Delaunay refinement on a SignpostIntrinsicTriangulation: the intrinsic edge lengths describe the same surface (curvature at every vertex, area, boundary length, and the length of the path traced on the input for every intrinsic edge), signposts (halfedge directions, angles, vertex angle sums) agree with the lengths, vertex locations and the maps of points and paths between the triangulations (equivalentPointOnInput/OnIntrinsic, traceIntrinsicHalfedgeAlongInput, traceInputHalfedgeAlongIntrinsic) describe connected straight paths between the right endpoints and are mutually inverse, Delaunay and refinement goals hold when the routine returns, marked and boundary edges are preserved, callbacks report every change, and refused operations change nothing.",
     ["inputs", "histories"], "every input surface (including Delta-complex gluings without self-edges) and every operation sequence",
     "errors accumulate over flips and appear only for particular histories and geometries; the tests run a few pipelines on asset files",
     [S + "signpost_intrinsic_triangulation.cpp", S + "intrinsic_triangulation.cpp", S + "trace_geodesic.cpp"],
     [("flips, insertions and signposts", S + "signpost_intrinsic_triangulation.cpp"), ("Delaunay flipping/refinement, point and path transfer", S + "intrinsic_triangulation.cpp")],
     "exhaustive exploration of operation sequences on the real triangulation from every small starting surface, all states compared with an independent unfolding of the metric",
     "operation words up to the stated depth on small surfaces and two-face gluings; geometry compared up to 1e-5 relative; circumcenters only where well inside a face")
prop("C10", "Integer-coordinate triangulations encode the input edges exactly",
     "After every sequence of the same operations on an IntegerCoordinatesIntrinsicTriangulation: all of the metric, location, tracing, refinement, callback and fixed-edge guarantees of intrinsic triangulations hold, and the normal coordinates are exactly the number of times each intrinsic edge is crossed by input edges (-1 when shared), satisfy the triangle conditions, and together with the roundabouts determine every input edge: tracing each input edge through the coordinates yields its own endpoints, straight crossings in order and its input length.",
     ["inputs", "histories"], "every input surface (including Delta-complex gluings without self-edges) and every operation sequence",
     "normal coordinates are updated locally by case analyses with dozens of cases; a wrong case appears only for particular crossing patterns reached by particular histories",
     [S + "integer_coordinates_intrinsic_triangulation.cpp", S + "normal_coordinates.cpp", S + "intrinsic_triangulation.cpp"],
     [("flip/split/insert/remove updates", S + "integer_coordinates_intrinsic_triangulation.cpp"), ("normal coordinates, roundabouts and tracing", S + "normal_coordinates.cpp")],
     "exhaustive exploration of operation sequences on the real triangulation from every small starting surface, coordinates compared with the geodesics of the input edges computed independently",
     "operation words up to the stated depth on small surfaces and two-face gluings; geometry compared up to 1e-5 relative")
prop("C11", "The common subdivision is the exact overlay of the two triangulations",
     "For every state reached by operations on either intrinsic triangulation, the common subdivision lists along every edge of both meshes the points where it meets the other mesh, in order and with matching positions; the constructed mesh (triangulated or not) is a valid mesh whose faces lie in their source faces, have the same shape in both metrics, and tile every input face and every intrinsic face exactly; interpolation operators, copies from faces, edge lengths and Galerkin mass matrices are the ones of that overlay, and element counts agree. The subdivision object stays the same until the triangulation changes and is rebuilt after it changes.",
     ["inputs", "histories"], "every input surface and every operation sequence",
     "overlays of intrinsic triangulations have unbounded combinatorial variety; the tests sample a few meshes",
     [S + "common_subdivision.cpp", S + "signpost_intrinsic_triangulation.cpp", S + "integer_coordinates_intrinsic_triangulation.cpp"],
     [("slicing and mesh construction", S + "common_subdivision.cpp"), ("construction from traces", S + "signpost_intrinsic_triangulation.cpp: constructCommonSubdivision")],
     "exhaustive exploration of operation sequences; in every state the subdivision is compared with an independent tiling check of both metrics",
     "operation words up to the stated depth; two recorded findings (faces meeting a vertex twice; signpost vertices on input edges)")
prop("C12", "Traced geodesics are straight paths with the requested start and length",
     "From every vertex, edge or face point of a triangulated surface (embedded or given by edge lengths, Delta-complexes included), in every direction and for every length, traceGeodesic returns the end of the straight path that leaves in that direction: the whole length unless a boundary or barrier edge or the iteration limit stops it, in which case it stops exactly there and reports the travelled length and the boundary hit. The path points are the start, the edge crossings in order and the end, develop to one straight segment; the ending direction is the direction of arrival in the end point's tangent space; tracing on or back from the end continues the same line; the barycentric variant agrees, options do not change the line, and a zero vector stays put.",
     ["inputs"], "every surface, start point, direction and length",
     "a continuum of inputs with special cases per element type, boundary, and cone angle; the tests trace a few random vectors",
     [S + "trace_geodesic.cpp"],
     [("stepping through faces and tangent-space conversions", S + "trace_geodesic.cpp")],
     "exhaustive enumeration of start points, directions and lengths on every small surface, real tracing compared with an independent unfolding",
     "lattices of start points and directions on shapes up to about 50 faces, all two-triangle gluings with lengths from a small set and all placements of a tetrahedron; directions passing a vertex within 0.2% of the edge length are not judged")
prop("C13", "Exact geodesic queries return the exact polyhedral distances and paths",
     "After GeodesicAlgorithmExact::propagate from any set of vertices, edge points and face points of a triangle mesh (boundary, nonmanifold or inconsistently oriented included), getDistance and getDistanceFunction give at every vertex, edge point and face point the exact length of a shortest path to the sources (infinite when unreachable), closestSource names a source at that distance, traceBack returns a path on the surface from the point to such a source with that length, getDistanceGradient and getLog are the unit direction away from the source at the point and the vector of that length towards the point at the source, in their tangent spaces. Distances within the propagation limit and at stop points are exact too, nothing is ever too short, and repeated use of one solver or exactGeodesicDistance gives the same answers.",
     ["inputs", "histories"], "every mesh, every set of sources, every query point, every sequence of propagations",
     "window propagation has many degenerate cases (rays through vertices, ties, saddles, boundaries, nonmanifold vertices) which random meshes never meet",
     [S + "exact_geodesics.cpp", S + "exact_geodesic_helpers.cpp", H + "surface_point.ipp"],
     [("window propagation and intersection", S + "exact_geodesics.cpp"), ("queries, paths, gradients, logarithms", S + "exact_geodesics.cpp: best_first_interval, traceBack, getDistanceGradient, getLog")],
     "exhaustive enumeration of sources and queries on every small surface; the real solver compared with exhaustive unfolding of face sequences",
     "shapes up to about 50 faces, all one- and two-triangle gluings, all tetrahedra on a small lattice, nonmanifold and inconsistently oriented meshes; paths and directions only judged on simplicial meshes (elsewhere faces shared by two points are ambiguous)")
prop("C27", "Surface points and barycentric vectors denote the same place in every frame",
     "On triangle meshes (any, nonmanifold and inconsistently oriented included) a SurfacePoint or BarycentricVector keeps its position or displacement under inSomeFace, inFace and inEdge, which throw exactly when the face or edge is not adjacent; SurfacePoint(Halfedge,t), interpolate, nearestVertex, ==, checkAdjacent, sharedFace, sharedEdge and onSameElement agree with incidence in the mesh. BarycentricVector(p,q) is the displacement from p to q and exists exactly when they share a face; sums, differences, scalings, norms, inner products, rotate90 and rotate (counter-clockwise, edge vectors into the face the result points into) agree with the planar layout of the faces, as do the barycentric coordinate helpers.",
     ["inputs"], "every mesh, element, position, vector, pair and angle",
     "each conversion has one branch per type, orientation and position of the edge in the face, and few of them are reached by any test",
     [H + "surface_point.ipp", H + "barycentric_vector.ipp", "src/surface/barycentric_vector.cpp", "src/surface/surface_point.cpp", H + "barycentric_coordinate_helpers.ipp"],
     [("points", H + "surface_point.ipp"), ("vectors", H + "barycentric_vector.ipp"), ("rotation", "src/surface/barycentric_vector.cpp")],
     "exhaustive enumeration of meshes, points, vectors, targets and pairs; brute-force incidence and planar layouts as oracle",
     "shapes up to 40 faces, all complexes of up to 3 (thorough 4) oriented triangles on 5 vertices, all gluings of 1-2 triangles with lengths from a list; identical vertices may share no edge or any")
prop("C16", "Sparse solvers return correct solutions, ranks and eigenvectors",
     "For real, float and complex matrices: SquareSolver and PositiveDefiniteSolver (Hermitian positive definite) return the solution of every nonsingular system, Solver the solution, the least-squares solution (full column rank) or a solution of a consistent system of any shape and rank, with the exact rank; each right-hand side gives the same answer however often and in whatever order a solver is used, and whether or not the matrix is compressed. Matrices of the wrong shape, not Hermitian or not finite, and right-hand sides of the wrong length or not finite are rejected. The eigenvector routines terminate and return mass-orthonormal eigenvectors of the smallest (k) or largest eigenvalues. Block decomposition, stacking, diagonal shifts, complex-real conversion, symmetry and finiteness checks, unpacking and saving and loading of matrices reproduce every entry.",
     ["inputs", "histories"], "every matrix, right-hand side and sequence of solves",
     "wrappers around factorisation libraries differ per type, shape, rank and storage state, and tests use one generic matrix of full rank",
     [N + "linear_solvers.cpp", N + "square_solvers.cpp", N + "positive_definite_solvers.cpp", N + "qr_solvers.cpp", N + "eigenproblem_solvers.cpp", N + "suitesparse_utilities.cpp", "include/geometrycentral/numerical/linear_algebra_utilities.ipp", N + "linear_algebra_utilities.cpp"],
     [("solvers", N), ("utilities", "include/geometrycentral/numerical/linear_algebra_utilities.ipp")],
     "exhaustive enumeration of small matrices over integer alphabets and of sequences of right-hand sides; exact Gaussian-integer arithmetic as oracle",
     "all matrices up to 3x3 (thorough 4x4) over 2-6 integers or Gaussian integers, with SuiteSparse (the configuration built here); eigenvector routines only judged where eigenvalues are equal or separated by a factor; inconsistent rank-deficient systems, singular square systems and float tolerances below float precision not judged")
prop("C15", "Heat-method distance, scalar extension, transport and log maps on triangles",
     "On every triangle mesh, with or without boundary, HeatMethodDistanceSolver (also nonmanifold, also with the robust operators) and VectorHeatMethodSolver return what the published discrete algorithms define: distances that are the shifted solution of the Poisson problem for the normalised gradient of short-time heat flow, zero at the sources (interpolated for sources on edges and in faces); extendScalar is the ratio of the diffused values and indicators; transportTangentVectors is the diffusion by the vertex connection Laplacian of vectors given in the tangent space of the source vertex, edge or face, rescaled to the (interpolated) source magnitudes; and the three log map strategies, for sources at vertices, on edges and in faces, give the documented coordinates in the tangent space of the source. All overloads agree, several sources are handled together, a result does not depend on earlier queries, no query fails, and on a fine flat grid distances, transport and log maps approximate the Euclidean ones.",
     ["inputs", "histories"], "every surface, source set, diffusion time and earlier query",
     "closed surfaces make the Laplacian singular, boundary, nonmanifold and irregular meshes take other paths, sources in faces and on edges need changes of tangent space; the tests do not run these solvers at all",
     [S + "heat_method_distance.cpp", S + "vector_heat_method.cpp", S + "simple_idt.cpp"],
     [("heat distance", S + "heat_method_distance.cpp"), ("vector heat", S + "vector_heat_method.cpp")],
     "exhaustive enumeration of small surfaces and of all source points and source sets; dense reference implementation of the published algorithms as oracle",
     "all gluings of up to 2 triangles (every third of 3, thorough all), 27-34 shapes up to about 60 vertices, 6 nonmanifold meshes, every vertex, edge and face as source plus pairs and triples, two diffusion times; faces with no clear gradient and regions no heat reaches not compared")
prop("C33", "Signed heat method: signed and unsigned distance to curves and points",
     "On every manifold triangle mesh SignedHeatSolver returns the distance defined by the published algorithm (diffuse the curve normals with the Crouzeix-Raviart connection Laplacian, normalise per face, integrate) for every combination of signed curves through vertices, edges and faces (also along parts of edges), unsigned curves along edges, and point sources: signed distance increases to the left of the curve, is shifted to average zero on the curves (minimum zero for points alone), satisfies the requested level set constraint exactly, or softly with the given weight, keeps the source normals when asked to, uses the diffusion time set last, and is defined (finite, no failure) on closed surfaces and with several curves.",
     ["inputs", "configurations", "histories"], "every surface, set of source curves and points, options and diffusion time",
     "singular and constrained systems, curve segments along partial edges and option combinations only appear for particular inputs; the tests do not run this solver",
     [S + "signed_heat_method.cpp"], [("signed heat method", S + "signed_heat_method.cpp")],
     "exhaustive enumeration of small surfaces, source curves and option combinations; dense reference implementation as oracle",
     "27-34 shapes up to about 60 vertices; up to 140 source configurations per shape (thorough: all) out of all edges, every third 2-edge path, segments in and across faces and along edges, vertex links, rings through edges, pairs of loops, loops with points; unsigned curves compared only when they end at flat interior vertices (ending on the boundary is a known finding); fields that vanish in a face not compared")
prop("C34", "Polygon mesh heat solver: distances, extension, transport, signed distance",
     "On every polygon mesh with planar or warped faces (triangle, quad or mixed; closed or with boundary; with deleted elements; for distances and scalars also nonmanifold) PolygonMeshHeatSolver returns what the published algorithms define on the polygon operators of the geometry: the distance from one or several vertices (minimum zero), the scalar extension (exactly the constant for one value), the transport of tangent vectors in the vertex tangent spaces with source magnitudes kept or interpolated, and the signed distance to curves of vertices, increasing to the left, zero on the curves, constant on each curve, or only of zero average, as the level set constraint asks. All are defined (finite, no failure) on closed surfaces and with several curves, and on a flat grid approximate the Euclidean ones.",
     ["inputs", "histories"], "every mesh, source set, curve set and constraint",
     "singular systems on closed meshes, redundant constraints on closed curves and indices of deleted elements only show on particular inputs; the tests do not run this solver",
     [S + "polygon_mesh_heat_solver.cpp"], [("polygon heat solver", S + "polygon_mesh_heat_solver.cpp")],
     "exhaustive enumeration of small polygon meshes, sources, curves and constraints; dense reference implementation as oracle",
     "26 polygon meshes, 27-34 triangle meshes up to about 60 vertices with and without deleted elements, 4 nonmanifold meshes; every vertex, a quarter of the pairs (thorough all), up to 120 curve sets per mesh (thorough all); faces in which the diffused field vanishes not compared; the polygon operators are judged by C08")
prop("C17", "Fast marching: unsigned and signed distance",
     "On every manifold triangle mesh (either mesh class, any orientation of the faces, with boundary, deleted elements or several components) FMMDistance from any set of vertices, edge points and face points with initial values gives at the source vertices their initial value, at every other vertex the solution of the first-order upwind scheme of the fast marching method (the smallest over the surrounding edges and triangles of the value carried by a linear front), and infinity where no source reaches. With signed curves that separate the surface (along edges, across edges, through faces, closed or between boundaries) the value is negative on the left and positive on the right of the curve, with the same magnitude in both directions of the curve.",
     ["inputs"], "every source set with initial values and every separating curve",
     "needs sources inside edges and faces, particular positions of a vertex's first halfedge relative to the curve, boundary vertices on the curve, and general meshes; no test calls fast marching",
     [S + "fast_marching_method.cpp"], [("FMMDistance", S + "fast_marching_method.cpp")],
     "exhaustive enumeration of sources, initial values and short separating curves; the fixed point of the upwind scheme by relaxation as oracle",
     "30 shapes of up to 25 vertices in five variants, all gluings of up to three triangles with two or three edge lengths; all single sources, a third of the pairs (thorough all), some triples; edge loops of up to 6 vertices (thorough 8), loops across edges around up to 3 vertices (thorough 4); a right angle may count as acute or obtuse; in obtuse corners the code's documented substitute (largest value at the base plus the height) is the reference; signs judged only where the curve determines the side")
prop("C18", "Edge paths, balls, disjoint sets and nearest neighbors are exact",
     "shortestEdgePath returns a connected chain of halfedges from start to end whose length is the smallest possible, and nothing exactly when start and end are equal or unconnected; vertexDijkstraDistanceWithinRadius returns exactly the vertices within the radius along edges, with their distances (also on general and polygonal meshes), and neither leaves a quantity required. DisjointSets and MarkedDisjointSets represent after every history of merges, marks and finds exactly the partition and marks these define. NearestNeighborFinder returns the nearest points, each once and never the source itself, also with repeated points, and exactly the points within a radius.",
     ["inputs", "histories"], "every pair of vertices, radius, word of merges and marks, and query",
     "ties, repeated points, parallel edges, disconnected meshes and unlucky merge orders are not in the tests, which call none of these",
     [S + "mesh_graph_algorithms.cpp", "src/utilities/disjoint_sets.cpp", "src/utilities/knn.cpp"], [("graph searches", S + "mesh_graph_algorithms.cpp"), ("disjoint sets", "src/utilities/disjoint_sets.cpp"), ("nearest neighbors", "src/utilities/knn.cpp")],
     "exhaustive enumeration of inputs and of all merge/mark words up to a depth, against brute force (all-pairs shortest paths, explicit partitions, sorted distances)",
     "meshes of up to 25 vertices (paths on manifold meshes, balls on all), all gluings of up to three triangles; words of length 3-6 on up to 5 elements plus merges of 64 elements; all subsets of the cube's corners with repeated points, and up to 60 points")
prop("C19", "Vector algebra and elementary geometry agree with their definitions",
     "Every operation of Vector2, Vector3 and Quaternion (arithmetic, products, norms, angles, rotations, projections, bases, conversions, comparisons, hashes), the planar and spatial formulas (triangle areas and layouts, edge lengths to angles, circumcircle and segment/segment and ray tests, barycentric helpers, angle regularisation) and the list helpers (permutations, removal, clamping) give what their definition says for every input, up to rounding, including zero, parallel, repeated and degenerate arguments where the definition has a value.",
     ["inputs"], "all tuples of small lattice vectors and all small permutations",
     "every algorithm of the library rests on these; a wrong sign or argument order shows only for some directions and none of these operations has a test of its own",
     ["include/geometrycentral/utilities/vector2.ipp", "include/geometrycentral/utilities/vector3.ipp", "include/geometrycentral/utilities/elementary_geometry.ipp", "src/utilities/quaternion.cpp" if os.path.exists("/repo/src/utilities/quaternion.cpp") else "include/geometrycentral/utilities/quaternion.h"],
     [("vectors", "include/geometrycentral/utilities/vector3.ipp"), ("formulas", "include/geometrycentral/utilities/elementary_geometry.ipp")],
     "exhaustive enumeration of lattice inputs (all pairs, triples and quadruples) of every operation, against independent formulas (complex numbers, matrices, direct sums)",
     "lattice vectors with coordinates in a small range and a few irrational ones; permutations of up to 5 elements")
prop("C31", "Triangle and mesh intersections are found exactly",
     "triTriIntersection says of two triangles whether they intersect, whether they are coplanar, and for intersecting non-coplanar ones gives the ends of the common segment; intersections and selfIntersections report hasIntersections exactly when two triangles (not sharing a vertex of the same mesh) meet, and exactly the segments of all non-coplanar intersecting pairs; meshes which are not triangle meshes are refused.",
     ["inputs"], "all triangles with corners on a small lattice, and all small shifts of pairs of meshes",
     "the cases (on which side each corner is, order of the intervals, coplanar triangles, containment) are many and not in the tests",
     ["src/utilities/tri_tri_intersect.cpp", S + "intersection.cpp"], [("triangles", "src/utilities/tri_tri_intersect.cpp"), ("meshes", S + "intersection.cpp")],
     "exhaustive enumeration of lattice triangles and shifted meshes against clipping with exact signs",
     "all triangles on the 3x3x3 lattice against six triangles in all rotations, all coplanar ones on 4x4 lattices in three planes, six meshes pairwise under 125 shifts; pairs that only touch are not judged")
prop("C21", "Subdivision produces the faces and positions of the published schemes",
     "On every polygonal manifold mesh linearSubdivide and catmullClarkSubdivide replace each n-sided face by n quads around a new face point, and on triangle meshes loopSubdivide replaces each face by four, keeping orientation, original vertices and adjacency and leaving the mesh valid and compressed; positions are the averages (linear), the Catmull-Clark rules (face average; edge point from two ends and two face points; vertex (F+2R+(n-3)P)/n) or Loop's rules (3/8, 1/8 masks, valence weights), with cubic B-spline rules on boundaries; with a MutationManager one edge split is reported per edge.",
     ["inputs", "programs"], "every manifold mesh and every word of subdivision steps",
     "subdivision has no tests; boundaries, low valences, non-quad input, deleted elements and repeated steps each use other code",
     [S + "subdivide.cpp"], [("subdivision", S + "subdivide.cpp")],
     "exhaustive enumeration of small manifold polygon meshes and words of steps, against a reference on face lists",
     "all manifold soups of up to 4 triangles and quads on 4 vertices (2-3 on 5), suites of closed and open meshes of up to ~100 faces, words of length 1-3; meshes with two faces on the same corners or parallel edges are not judged")
prop("C29", "Marching triangles extracts exactly the level set, joined and oriented",
     "For every triangle mesh, function on its vertices and level, marchingTriangles returns curves whose consecutive points are exactly the segments of the level set inside faces and the edges lying in it, each once, at the exact crossing, with smaller values on the left; no segment is missing where the level passes through vertices or along edges, none has length zero, and two curves are never left unjoined where one ends and another begins.",
     ["inputs"], "every mesh, every assignment of values and every level",
     "levels exactly at vertices, along edges and on whole faces are the usual case for integer data and indicator functions, and not tested",
     [S + "marching_triangles.cpp"], [("level sets", S + "marching_triangles.cpp")],
     "exhaustive enumeration of all functions with 2-4 values on small meshes, against a face-by-face definition of the level set",
     "all functions on meshes of up to about 8 (thorough 10) vertices, 59 functions and four levels on larger ones; gluings of up to three faces, nonmanifold and inconsistently oriented meshes; direction is free where the faces along an edge disagree")
prop("C20", "MutationManager performs, announces and constrains each mutation faithfully",
     "For every word of repositionVertex, flipEdge, splitEdge, collapseEdge and splitFace on a simplicial triangle mesh, with or without geometry and with any constraint sets: an operation is refused exactly when a constraint or the mesh refuses it; otherwise the connectivity is that of the mesh operation and positions are the requested ones; each registered policy and simple handler is called once before (seeing the unchanged mesh) and once after, with the elements and parameters of the operation; new elements get inherited or default constraints; removed policies are never called again.",
     ["programs"], "every word of mutations, constraint sets and set of policies",
     "the mutation manager has no tests; callbacks, parameters by position, inheritance of constraints and removal interact only over sequences",
     [S + "mutation_manager.cpp", H + "mutation_manager.h", H + "mutation_manager.ipp"], [("mutation manager", S + "mutation_manager.cpp")],
     "explicit enumeration of all words of operations with constraints and callbacks, against the bare mesh operation on a copy",
     "words of length 2 (thorough 3 on some) on six (eight) meshes, every operation at every element first, 5 x 2 + 6 constraint sets; splitFace by position (an open TODO that throws) is not judged")
prop("C22", "Quadric simplification always collapses the cheapest edge to its best point",
     "For every triangle mesh and tolerance, quadricErrorSimplify performs only collapses whose quadric error (sum of squared distances to the accumulated planes) is at most the tolerance and no collapsible edge is cheaper, puts the new vertex at the minimizer of the error nearest to the edge where it is not unique, respects the manager's constraints, leaves no affordable edge, keeps the topology, and leaves the mesh valid and compressed and no quantity required; the result does not depend on where the mesh is placed.",
     ["inputs"], "every mesh, placement, tolerance and constraint set",
     "simplification has no tests; stale queue entries, flat regions and refused collapses show only on particular meshes and tolerances",
     [S + "quadric_error_simplification.cpp"], [("simplification", S + "quadric_error_simplification.cpp")],
     "explicit enumeration of meshes and tolerances; every collapse is observed and judged by independent quadrics",
     "about 35 meshes of up to ~160 faces, 6 tolerances, two placements, with and without constraints; edges refused by the mesh are tried again only when an end changes")
prop("C35", "Remeshing flips, splits, collapses and smooths exactly as specified",
     "For every triangle mesh and options: fixDelaunay flips only edges whose opposite angles sum to more than pi, leaves none on planar meshes and none untouched ones; smoothing moves each vertex by the projected Laplacian or area weighted circumcenter step with the chosen boundary condition and constraints and returns the mean movement; adjustEdgeLengths first splits at the midpoint exactly the splittable edges longer than 3/2 of their target (absolute, relative to the mean, or curvature adapted), then collapses only edges shorter than half of it; remesh keeps topology, planarity, fixed elements and refreshed quantities.",
     ["inputs", "configurations"], "every mesh, option and constraint set",
     "remeshing has no tests; cocircular points, relative targets, boundaries and constraints each take different code",
     [S + "remeshing.cpp"], [("remeshing", S + "remeshing.cpp")],
     "explicit enumeration of meshes, options and constraints; every mutation is observed, positions against independent formulas",
     "about 35 meshes of up to ~60 faces, each also with deleted elements, 12 targets, 3 curvature weights, 3 step sizes, 3 boundary conditions, 2 styles, constraints on and off; nearly tied edges are not judged")
prop("C25", "Point clouds: neighborhoods, frames, transport, gradients and Laplacians",
     "For every point cloud, neighborhood size and kind of geometry (positions only, given normals, given frames): the neighbors of a point are its nearest other points; normals are unit vectors of least spread (or exactly those given); tangent bases are orthonormal and right-handed; tangent coordinates are the projections onto them; the transport between neighbors is the rotation that aligns their normals; the gradient is the least squares fit over the neighborhood and uses nothing else; the local triangulation of a point is its Delaunay one-ring in the tangent plane; the tufted triangulation is closed, Delaunay and covers those triangles; the Laplacian is symmetric, vanishes on constants, has no positive weights off the diagonal and is proportional to the cotangent Laplacian where a planar cloud has acute triangles; the connection Laplacian rotates each of its weights between the tangent planes, also between points of opposite normal orientation. Quantities equal those of a fresh geometry after every history of requiring, dropping, purging, moving and refreshing. Point containers keep their values under insertion, deletion, compression and copying of the cloud, and survive it; samples of a surface lie at their surface points.",
     ["inputs", "histories", "configurations"], "every cloud, point, neighborhood size, frame choice and history",
     "the tests compute these quantities on one cloud and only check that they are finite; opposite normals, degenerate neighborhoods and histories are never judged",
     ["src/pointcloud/point_position_geometry.cpp", "src/pointcloud/local_triangulation.cpp", "src/pointcloud/neighborhoods.cpp", "src/pointcloud/point_cloud.cpp", "src/pointcloud/sample_cloud.cpp"], [("point cloud geometry", "src/pointcloud/point_position_geometry.cpp")],
     "exhaustive enumeration of small clouds, neighborhood sizes, frames and histories on the real code; brute force definitions as oracle",
     "about 80 clouds of 6-25 points (thorough 160), k from 1 to 9 (thorough 15), three kinds of frames; all pairs of the ten quantities in a history of eight steps; all container histories of depth 5 (thorough 7); Delaunay judged for unambiguous neighborhoods; sampling is judged for consistency, not for its distribution")
prop("C36", "Point cloud heat methods: distances, extension, transport, logarithm",
     "On every point cloud, for given or computed normals and frames of any orientation, PointCloudHeatSolver returns what the published algorithms define on the tufted triangulation: the distance to one or several points (zero there), the extension of scalars from sources (constants exactly), the parallel transport of tangent vectors with source magnitudes kept or interpolated, the logarithmic map whose length is that distance, and the signed distance to curves through points, where every segment contributes its normal to both its ends, with the level set constraint asked for exactly or with the given weight, finite for all options. Answers do not depend on the queries asked before.",
     ["inputs", "histories", "configurations"], "every cloud, frame choice, source set, curve set and option",
     "accumulation along curves, singular constrained systems and opposite orientations only matter for particular inputs; the tests only check that results are finite",
     ["src/pointcloud/point_cloud_heat_solver.cpp"], [("point cloud heat solver", "src/pointcloud/point_cloud_heat_solver.cpp")],
     "exhaustive enumeration of small clouds, sources, curves and option combinations; dense reference implementation as oracle",
     "about 80 clouds of 6-25 points (thorough 160), every point and a fifth of the pairs (thorough all), paths, loops and pairs of paths along neighbors with ten option combinations (quick: half of them); triangulations with needles (area under 1e-3 of the squared lengths) or several components not compared; places where the diffused field vanishes not compared")
prop("C30", "Mollification, tufted covers, intrinsic Delaunay flips, tufted Laplacian",
     "For every triangle mesh, nonmanifold, non-orientable and degenerate ones included: mollifyIntrinsic adds to all edge lengths the smallest constant that satisfies every triangle inequality by the requested margin; buildIntrinsicTuftedCover makes an edge-manifold, oriented, closed mesh with two sheets of every face on the same vertices, in which sheets around an edge are joined in the order of their angles when positions are given; flipToDelaunay (Euclidean or hyperbolic) ends in a mesh with valid connectivity and no edge that violates the Delaunay condition, keeps the intrinsic metric, and gives the Laplacian (or lengths) of the intrinsic Delaunay triangulation; buildTuftedLaplacian combines these: half the stiffness and mass of the Delaunay triangulation of the mollified cover, symmetric, constants in its kernel, nonnegative edge weights, total mass the area.",
     ["inputs", "configurations"], "every triangle mesh and edge length assignment, and every mollification factor",
     "sheet order around edges of many faces, self-glued faces and flips of edges with equal ends appear only for particular inputs; the tests check one file",
     [S+"tufted_laplacian.cpp", S+"simple_idt.cpp", S+"intrinsic_mollification.cpp"], [("buildIntrinsicTuftedCover", S+"tufted_laplacian.cpp"), ("flipToDelaunay", S+"simple_idt.cpp")],
     "exhaustive enumeration of small triangle soups, realised in several positions; independent triangulation data structure as oracle",
     "all sets of up to 4 triangles on 5 vertices in all (a fifth of the 4-triangle) orientation patterns, three placements (thorough: 6 triangles), all gluings of two triangles, embedded shapes; Delaunay comparison by Laplacian (ties do not matter), hyperbolic by lengths unless an edge is within 1e-6 of a tie; coplanar sheets around an edge are compared only by validity")
prop("C26", "Mesh, polygon soup and point cloud files read back what was written",
     "Reading an OBJ, OFF or STL text (any index form, relative indices, continued lines, line ends, comments, interleaving, binary or ASCII) gives exactly its vertices, faces and per-corner texture coordinates; meshes, coordinates, geometry, connectivity and per-element data written by writeMesh, writeSurfaceMesh, WavefrontOBJ, RichSurfaceMeshData or writePointCloud come back equal, from meshes with unused capacity and deleted elements too; the soup cleanup operations (merge, strip, triangulate, union, orient) do what they say and keep texture coordinates with their faces; consistentlyOrientFaces agrees across every orientable patch, and points outward if asked.",
     ["inputs", "programs", "configurations"], "every mesh, soup, file text and sequence of cleanup operations",
     "formatting variants and cleanup sequences multiply; the tests read a few files written by one program and never apply cleanups to texture coordinates",
     [S+"simple_polygon_mesh.cpp", S+"meshio.cpp", S+"rich_surface_mesh_data.cpp", "src/pointcloud/point_cloud_io.cpp"], [("readMeshFromObjFile", S+"simple_polygon_mesh.cpp"), ("loadMeshFromFile", S+"rich_surface_mesh_data.cpp"), ("consistentlyOrientFaces", S+"simple_polygon_mesh.cpp")],
     "exhaustive enumeration of small polygon soups with all cleanup sequences, of text format variants, and of meshes written and read back",
     "all lists of up to 3 of 18 faces with sequences of up to 4 cleanups (thorough 5), all 3^10 sets of oriented triangles on 5 vertices, 7 meshes x 960 OBJ, 24 OFF and 16 STL variants, all suite meshes whole, punched and general; the PLY container happly is absent here and replaced by a table of the same interface, so PLY bytes are not explored")
prop("C24", "Flattening disks: boundary first flattening, uniformization and layout",
     "For every disk with at least three boundary vertices, BFF gives the flattening its definition prescribes: the boundary polygon closes, its exterior angles are the requested ones (or those which the linear conformal map gives for the requested scale factors, the two data maps being mutually inverse up to a constant), with the closest side lengths to the scaled ones, and interior positions are harmonic; the default flattening of a developable disk is an isometry; angles which do not add up to a full turn and surfaces which are not disks are rejected. uniformizeDisk makes every interior vertex flat by discrete conformal scaling that leaves the boundary alone, with or without hyperbolic Delaunay flips, and parameterizeDisk lays that metric out exactly. All of them also on meshes with deleted elements.",
     ["inputs", "configurations", "programs"], "every triangulated disk, every choice of boundary scale factors or exterior angles, every sequence of calls on one solver",
     "sign errors cancel for zero scale factors, and singular factorizations succeed by rounding on some meshes only; the tests look at one mesh",
     [S+"boundary_first_flattening.cpp", S+"uniformize.cpp", S+"parameterize.cpp"], [("dirichletToNeumann", S+"boundary_first_flattening.cpp"), ("uniformizeDisk", S+"uniformize.cpp"), ("parameterizeDisk", S+"parameterize.cpp")],
     "exhaustive enumeration of small disks, boundary scale factor patterns and corner choices; dense solutions and independent hyperbolic flips as oracle",
     "all disks of up to 5 triangles on 5 vertices (thorough 6 on 6) in three positions, all gluings of up to 3 (4) triangles with lengths from a list, cones, grids with every face first and edges collapsed; all boundary scale factors from three values for up to 5 (6) boundary vertices, pairs otherwise; all triples and many quadruples of corners; uniformization is compared only where half-step Newton iteration stays clear of degenerate triangles")
prop("C23", "Direction fields: smoothest, boundary- and curvature-aligned fields, indices",
     "On every triangulated surface and for every symmetry order n, the smoothest n-direction field on vertices or faces is (up to one common rotation) the pointwise normalized minimizer of the connection Dirichlet energy of unit norm; the boundary-aligned field has the n-th power of the outward normal on the boundary and normalized minimizing values elsewhere, and is refused on closed surfaces; the curvature-aligned field solves the energy against the principal directions for n = 2 and 4 and refuses other orders; every returned vector has unit length. For every field given at vertices (faces), the index reported for each face (vertex) is the number of turns of the field around it relative to parallel transport, at the boundary as well as inside, so that the indices of a closed surface add up to n times its Euler characteristic. All of them also on meshes with deleted elements and with glued sides.",
     ["inputs", "configurations"], "every triangulated surface, every metric, every symmetry order, every vector field",
     "a wrong transport or a branch cut shows only for special neighboring directions, and a wrong system only where frames differ; the tests only run one field on one mesh",
     [S+"direction_fields.cpp"], [("computeSmoothestBoundaryAlignedVertexDirectionField", S+"direction_fields.cpp"), ("computeFaceIndex", S+"direction_fields.cpp"), ("computeVertexIndex", S+"direction_fields.cpp")],
     "exhaustive enumeration of small surfaces, symmetry orders and all fields with values from finite direction sets; dense reference problems and counted rotations as oracle",
     "shapes, jittered shapes, shapes with collapsed edges, all gluings of up to 2 (thorough 3) triangles with lengths from a list; n = 1, 2, 3, 4, 6; index computations for all fields from up to 8 directions (the largest number of directions giving at most 600, thorough 4096, fields) or fixed patterns with all single deviations; eigenvectors are compared only where the smallest eigenvalue is separated")
prop("C28", "Poisson disk sampling: spacing, avoidance, cover of components",
     "For every outcome of its random choices, PoissonDiskSampler returns points of the surface which are pairwise at least minDist apart in space, at least minDist and (with 3D avoidance) at least minDistAvoidance away from each point to avoid, whatever the scale of the mesh and the number and closeness of its components; along-surface avoidance keeps samples of planar meshes out of the disk of the avoidance radius up to one minDist; every component without obstacles gets samples, and each sample but the first of its component lies within 2 minDist of an earlier one. Calls on one sampler do not influence each other.",
     ["schedules", "inputs", "configurations", "histories"], "every sequence of random choices, every mesh, scale and option, every sequence of calls",
     "which pairs of samples come out too close depends on the random numbers and on how they fall into the buckets; no test runs the sampler",
     [S+"poisson_disk_sampler.cpp", H+"poisson_disk_sampler.h"], [("isCandidateValid", S+"poisson_disk_sampler.cpp"), ("addPointToSpatialLookupWithRadius", S+"poisson_disk_sampler.cpp"), ("sampleOnConnectedComponent", S+"poisson_disk_sampler.cpp")],
     "stateless exhaustive exploration of the real sampler under a controlled random source (all sequences of the first choices, depth-first)",
     "the first 4 (thorough 5) choices range over all of 6 (8) directions, 2 (3) distances and all active samples, later ones follow a fixed pattern per execution; 30 shapes at three scales, several components close to each other, three spacings, seven avoidance settings; up to 300 (4000) executions per configuration; if the sampler drew its random numbers in some other way the executions would not be controlled but still judged")
prop("C14", "Edge-flip geodesics straighten every path without leaving its homotopy class",
     "FlipEdgeNetwork turns any network of edge paths, loops and marked vertices of a triangle mesh into geodesics: iterativeShorten terminates, only flips edges (the surface keeps its area, angle sums and isometry type), keeps endpoints, pinned vertices, order and number of the paths, never makes them longer and keeps them in their class (winding about every vertex and handle); afterwards no unblocked wedge is below pi, no path runs out and back along an edge, and only contractible loops shrink to a vertex. Iteration and length limits stop at the step they name; rewind and reinitializePath restore the original triangulation. The factories give shortest edge paths, piecewise paths and every path of an edge set; makeDelaunay and delaunayRefine keep the paths as edges and their length; bezierSubdivide gives the de Casteljau curve; polylines, lengths and angles describe the same curve on the input mesh.",
     ["inputs", "histories"], "every mesh, every walk, loop, pair of paths, edge set and sequence of operations",
     "a wedge processed in the wrong order or a neighbour not looked at again leaves a nearly straight path; tests have no flip geodesics at all",
     [S + "flip_geodesics.cpp", H + "flip_geodesics.h", S + "signpost_intrinsic_triangulation.cpp"],
     [("shortening and wedges", S + "flip_geodesics.cpp: locallyShortenAt, iterativeShorten, wedgeIsClear"), ("bookkeeping of paths sharing edges", S + "flip_geodesics.cpp: replacePathSegment"), ("factories, Bezier, refinement, rewind", S + "flip_geodesics.cpp")],
     "exhaustive enumeration of edge walks, loops, pairs of paths and edge sets; the real flips run to completion and each result is judged with own angles, orders and cohomology",
     "walks of up to 3 (thorough 4) edges on shapes up to 50 faces and gluings of triangles; Bezier curves on a planar grid only; a circumcenter that lands on an edge during refinement is not judged")
prop("C37", "Stripe patterns have matching isolines and follow the field and frequencies",
     "computeStripePattern gives, on every triangle mesh with nonnegative energy (boundary, gluings, holes in the indices included), the counted index of the 2-direction field in each face and corner values such that all faces without field index around a vertex agree there modulo 2 pi up to the sign of the field, the change along each edge is the one nearest to the target (frequency times edge length along the direction, averaged over both ends), both sides of an edge see the same change, the stripe index closes up the face, and the phases are those of the smallest eigenvector where that is unique. extractPolylinesFromStripePattern puts one point wherever a multiple of 2 pi is crossed on an edge, joins in each regular face exactly the two points of each level, and with connectOnSingularities joins all but |index| points of each singular face by segments that do not cross; faces with field index have no lines.",
     ["inputs"], "every mesh, direction field, frequency and assignment of corner values",
     "signs depend on edge orientation, the branch of the root at either end and the position in the face; nothing in the test suite runs this code",
     [S + "stripe_patterns.cpp", S + "direction_fields.cpp"],
     [("1-form, energy and corner values", S + "stripe_patterns.cpp: computeOmega, buildVertexEnergyMatrix, computeTextureCoordinates"), ("isolines", S + "stripe_patterns.cpp: matchCrossings, removeCrossings")],
     "exhaustive enumeration of direction fields, frequencies and corner values; an own 1-form, dense eigenproblem and per-face level sets as oracle",
     "3 (thorough 4) directions per vertex, exhaustive on small surfaces and every k-th assignment on larger ones; windings up to 4 (5) per edge; meshes where the cotangents make the energy indefinite, levels through a vertex and opposite directions are not judged")
# --- END OF PROPERTIES
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
import sys
sys.path.insert(0, os.path.join(V, "bin"))
sys.dont_write_bytecode = True
from checks import CHECKS
man = {"version": 1, "setup_cmd": "python3 bin/build.py setup",
       "checks": [{"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
                  for p in P if p["id"] in CHECKS],
       "not_applicable": [{"property": p["id"], "reason": p["na"] or "the check for this property is still being built"} for p in P if p["id"] not in CHECKS],
       "notes": "All checks build the library sources from /repo's working tree (content-addressed object cache in build/) and run bounded exhaustive explorations of the real code; see DESIGN.md. No hooks in /repo."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
# DESIGN.md
import glob
out = [open(os.path.join(V, "doc", "design_head.md")).read(), "## Properties\n"]
for p in P:
    out.append(f"### {p['id']}: {p['title']}\n\n{p['statement']}\n")
    if p["id"] in CHECKS:
        c = CHECKS[p["id"]]
        out.append(f"* decided by: {p['technique']} (`harness/{c['harness']}.cpp {' '.join(c['args'])}`)\n* bounds and limits: {p['note']}\n* beyond the tests: {p['why']}\n* code: " + ", ".join(f"`{f}`" for f in p["files"]) + "\n")
    else:
        out.append(f"* not applicable: {p['na'] or 'the check for this property is still being built'}\n")
kf = open(os.path.join(V, "known_findings.txt")).read().split("\n")
out.append("## Genuine defects found\n\nRepaired (one `fix:` commit each; the check reports them again should they return):\n")
for l in kf:
    if l.startswith("fixed:"):
        w = l.split(None, 3)
        out.append(f"* {w[1].split('=')[1]} {w[2]}: {w[3]}")
out.append("\nRecorded, not repaired (each is printed as KNOWN-FINDING; the repair is not small):\n")
for l in kf:
    if l.strip() and not l.startswith(("fixed:", "#")):
        out.append("* " + l.strip())
det = json.load(open(os.path.join(V, "doc", "detection.json")))
out.append("\n## Planted bugs and the checks that catch them\n\n| bug | property | what it breaks | needs | quick check |\n|---|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {det.get(i, 'not run yet')} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids) and set(CHECKS) <= set(ids)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for fn in p["files"]:
        assert os.path.exists(os.path.join("/repo", fn)), fn
