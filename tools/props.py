"""The listed properties. gen.py writes properties.jsonl and MANIFEST.json from this file."""

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(),
         observe=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mechanism=mechanism, technique=technique, note=note,
                      state=list(state), observe=list(observe), na=na))


STATEFUL = "model-based stateful property testing with shrinking"
TRUST = ("Search over generated cases, never a proof. Trusts the compiler, the pyre headers, the "
         "engine in harness/pbt.h and the oracle in the harness.")

prop("U01", "Segmented vectors store, erase, reuse and iterate like an ordinary container",
     "A segmented vector holds exactly the elements that were placed and not erased: they never "
     "move, keep their content, and every traversal (any iteration style, also while erasing the "
     "visited element) visits each of them once in slot order. Erasing works once per element, "
     "freed slots are reused before storage grows, and size and capacity count accordingly. Every "
     "object is destroyed exactly once, and a container can be moved and its source reused.",
     ["histories", "inputs"],
     "all histories of placing, erasing, erasing during iteration, moving and traversing, for any "
     "segment size, element type and length of the runs of erased elements",
     "The tests run a handful of fixed histories of fewer than eight elements with one segment "
     "size; they never use postfix increment over gaps, erase twice, erase while iterating, reuse "
     "a moved-from container or look at object lifetimes.",
     ["lib/mito/utilities/SegmentedVector.h", "lib/mito/utilities/SegmentedAllocator.h",
      "lib/mito/utilities/SegmentedAllocatorIterator.h",
      "lib/mito/utilities/SegmentedContainerIterator.h", "lib/mito/utilities/Invalidatable.h"],
     [("queue of freed slots, segments linked through their tails",
       "lib/mito/utilities/SegmentedAllocator.h"),
      ("iterator that skips invalid elements", "lib/mito/utilities/SegmentedContainerIterator.h")],
     STATEFUL, TRUST + " Runs with assertions, with ASan+UBSan and as a release build.")

prop("U02", "The repository of shared resources keeps and destroys each resource exactly once",
     "A repository holds exactly the resources that were created in it and not erased; each stays "
     "at its address with its content, is found again by its id, and is visited once by a traversal "
     "while someone refers to it. Erasing destroys a resource at once when nobody else refers to "
     "it, does nothing and says so when it is in use or null, and its slot is reused before storage "
     "grows. Every resource is destroyed exactly once over the life of the repository.",
     ["histories", "inputs"],
     "all histories of creating, sharing, dropping, erasing and traversing, for any segment size "
     "and resource type",
     "The tests erase only resources with a single user, look at one fixed history, and use a "
     "resource without a destructor, so that double destruction goes unnoticed.",
     ["lib/mito/utilities/Repository.h", "lib/mito/utilities/SegmentedAllocator.h",
      "lib/mito/utilities/Shareable.h"],
     [("erase and destructor of the repository", "lib/mito/utilities/Repository.h"),
      ("reuse of freed locations", "lib/mito/utilities/SegmentedAllocator.h")],
     STATEFUL, TRUST + " Resources that nobody refers to any more may or may not be visited by a "
     "traversal; the check accepts both.")

prop("U03", "Shared pointers count references exactly",
     "At every moment the reference count of a resource equals the number of live pointers to it, "
     "whatever sequence of construction, copy, move, assignment (to itself, between pointers to the "
     "same resource, of null pointers), swap and destruction led there. Null pointers can be copied, "
     "moved and assigned freely. Equality, order, hash and id of pointers follow the identity of "
     "what they point to.",
     ["histories"],
     "all sequences of pointer operations on any number of pointers and resources",
     "The tests check six single operations with one or two non-null pointers.",
     ["lib/mito/utilities/SharedPointer.icc", "lib/mito/utilities/SharedPointer.h",
      "lib/mito/utilities/Shareable.icc", "lib/mito/utilities/StdSharedPointer.h"],
     [("acquire and release around every pointer operation",
       "lib/mito/utilities/SharedPointer.icc")],
     "differential stateful property testing against std::shared_ptr", TRUST)

prop("M01", "The sign of a permutation is its parity",
     "The sign computed for one ordering of a set of values with respect to another is +1 if an "
     "even number of exchanges turns one into the other and -1 otherwise. Collections are reported "
     "to have the same elements exactly when one is a reordering of the other.",
     ["inputs"], "any two orderings of any set of distinct values, of any size and element type",
     "The tests evaluate the sign of a few fixed orderings of three or four integers.",
     ["lib/mito/math/combinatorics.h"],
     [("swap sort that counts the swaps", "lib/mito/math/combinatorics.h")],
     "property-based testing against the cycle decomposition", TRUST)

prop("T01", "There is one object per oriented simplex, whichever way it is requested",
     "Asking for a segment, triangle or tetrahedron by its vertices, by its oriented faces (any even "
     "reordering), by footprint and orientation or by flipping always gives the same object for the "
     "same set of vertices with the same sense; the opposite sense gives a different object on the "
     "same footprint, and flipping twice gives the first one back. The vertices of a simplex are an "
     "even permutation of those it was requested with. Existence queries and the number of "
     "simplices reflect exactly the oriented simplices requested so far and their faces, and "
     "compositions of faces are accepted exactly if they close up.",
     ["histories", "inputs"],
     "all sequences of requests, releases and erasures over any set of vertices, in any order and by any of the ways",
     "The tests build a few fixed simplices on at most five vertices in one order and compare a few "
     "pairs of them.",
     ["lib/mito/topology/Topology.icc", "lib/mito/topology/OrientedSimplexFactory.h",
      "lib/mito/topology/SimplexFactory.h", "lib/mito/topology/OrientedSimplex.h",
      "lib/mito/topology/utilities.h"],
     [("representative of the class of equivalent compositions",
       "lib/mito/topology/SimplexFactory.h"),
      ("orientation by permutation sign", "lib/mito/topology/OrientedSimplexFactory.h")],
     STATEFUL, TRUST + " Faces are listed in the library's canonical order up to even "
     "permutations (the orientation of a simplex is defined by that order); other valid orders are "
     "only checked for acceptance.")

prop("T02", "The faces of a simplex bound it: the boundary of a boundary vanishes",
     "The faces of an oriented simplex, counted with the orientation of the simplex relative to its "
     "footprint, are those of the simplex spanned by its ordered vertices: end minus start of a "
     "segment, the cycle of edges of a triangle, the closed surface of a tetrahedron. The boundary "
     "of that boundary is zero. Collections of vertices and edges of a simplex contain each of its "
     "vertices and edges and nothing else, in every way to ask for them.",
     ["inputs", "histories"],
     "all simplices of dimension 1 to 3 of either orientation, built in any order after any "
     "history of the factory",
     "The tests look at simplices that are the first ones on their vertices, so that none is "
     "oriented against its footprint.",
     ["lib/mito/topology/OrientedSimplex.h", "lib/mito/topology/Simplex.h",
      "lib/mito/topology/Topology.icc", "lib/mito/topology/utilities.h"],
     [("odd permutation for simplices oriented against their footprint",
       "lib/mito/topology/OrientedSimplex.h"),
      ("order of the faces of a tetrahedron", "lib/mito/topology/Topology.icc")],
     "property-based testing against an integer chain complex", TRUST)

prop("T03", "Erasing a simplex removes it and exactly those of its faces that nothing uses",
     "Erasing an oriented simplex removes it if nobody else refers to it, and then, recursively, "
     "each of its faces that no simplex and no user refers to; simplices in use are left untouched "
     "with all their vertices and faces. Afterwards the counts, existence queries and reference "
     "counts reflect exactly what is left, and what was erased can be built again.",
     ["histories"],
     "all histories of building, sharing, flipping, releasing and erasing simplices that share "
     "vertices, edges and faces",
     "The tests erase one element of a fixed mesh of a few triangles.",
     ["lib/mito/topology/Topology.icc", "lib/mito/topology/OrientedSimplexFactory.h",
      "lib/mito/topology/SimplexFactory.h", "lib/mito/utilities/Repository.h"],
     [("recursive erasure guarded by reference counts", "lib/mito/topology/Topology.icc"),
      ("clean-up of the orientation and composition maps",
       "lib/mito/topology/OrientedSimplexFactory.h")],
     STATEFUL, TRUST)

prop("T04", "Flipping a diagonal exchanges the diagonal and nothing else",
     "Flipping the common edge of two triangles with the same sense gives the two triangles on "
     "either side of the other diagonal, with the same sense and the same outline. Flipping twice "
     "gives the original triangles back, and once these are erased the old diagonal is gone while "
     "the outline stays.",
     ["inputs", "histories"],
     "all pairs of triangles with a common edge, in any vertex order and orientation relative to "
     "their footprints, after any history of the factory",
     "The test flips one pair whose triangles are both oriented like their footprints.",
     ["lib/mito/topology/FlipDiagonal.icc", "lib/mito/topology/FlipDiagonal.h"],
     [("collection of the outline and head-to-tail reassembly",
       "lib/mito/topology/FlipDiagonal.icc")],
     "property-based testing against an integer chain complex", TRUST)

prop("A01", "Forms are linear in every vector and follow the rules of their algebra",
     "A form of any degree evaluated on vectors is linear in each of them. Sums, differences, "
     "negation, scalar multiples and tensor products of forms evaluate to the sums, multiples and "
     "products of the values, whatever way the expression was assembled; forms keep what they are "
     "made of. The forms made from basis "
     "vectors are dual to the basis, and a form made with a matrix contracts it with the vector on "
     "the side it was given.",
     ["inputs"],
     "all forms of degree 1 to 4 in any dimension up to 4, all expressions of them and all vectors",
     "The tests evaluate the forms of the basis on the basis vectors.",
     ["lib/mito/tensor/Form.h", "lib/mito/tensor/forms_algebra.h", "lib/mito/tensor/factories.h",
      "lib/mito/tensor/tensor.h"],
     [("forms as functors closed over their operands", "lib/mito/tensor/factories.h"),
      ("algebra of forms", "lib/mito/tensor/forms_algebra.h")],
     "differential property testing against covariant tensors by components", TRUST)

prop("A02", "The wedge product is alternating, associative and equal to the minors",
     "The wedge product of one-forms evaluates to the determinant of their values on the vectors. "
     "It changes sign whenever two factors or two vectors are exchanged, vanishes on repeated "
     "factors, and is associative and distributes over sums, also when one-forms are wedged with "
     "two-forms.",
     ["inputs"],
     "all products of up to three one-forms, in any dimension from 2 to 4, associated in any way, "
     "and all vectors",
     "The tests evaluate products of the forms of the basis on a few basis vectors.",
     ["lib/mito/tensor/wedge.h", "lib/mito/tensor/forms_algebra.h", "lib/mito/tensor/Form.h"],
     [("antisymmetrised tensor products", "lib/mito/tensor/wedge.h")],
     "differential and metamorphic property testing against determinants", TRUST)

prop("H01", "Stresses and tangents of the materials are the derivatives of their energies",
     "For every admissible state the stress of a material is the derivative of its energy density "
     "and its tangents are the derivatives of the stress, with their symmetries. Energies are "
     "unchanged by rotations before and after the deformation, stresses follow the rotations, and "
     "undeformed and rigidly rotated bodies carry no energy and no stress. The consistency test of "
     "materials accepts these and rejects stresses or tangents that are off by more than its "
     "tolerance.",
     ["inputs"],
     "all admissible material parameters and deformation gradients, with large strains and rotations",
     "The tests evaluate each material at one state with one set of parameters.",
     ["lib/mito/materials/Gent.h", "lib/mito/materials/LinearElastic.h",
      "lib/mito/materials/MaterialConsistencyTest.h"],
     [("closed-form stress and tangents", "lib/mito/materials/Gent.h"),
      ("Hooke's law", "lib/mito/materials/LinearElastic.h"),
      ("numerical differentiation with a relative tolerance",
       "lib/mito/materials/MaterialConsistencyTest.h")],
     "differential and metamorphic property testing against closed forms in extended precision",
     TRUST)

prop("F01", "An expression of functions takes the value of that expression of their values",
     "Functions of numbers, vectors, matrices and coordinates combined by sums, differences, "
     "products, quotients, linear combinations, compositions, subscripts, transposes, inverses, "
     "determinants and dyadic products evaluate at every point to the same combination of the values "
     "of their operands. The elementary functions take their mathematical values. Expressions own "
     "their operands, so they can be stored and evaluated at any later time.",
     ["inputs"],
     "all expressions of the supported operations, nested to any depth, with scalar, vector and "
     "matrix values, at all points of their domains",
     "The tests evaluate a handful of expressions of two or three operands at one point.",
     ["lib/mito/functions/algebra.h", "lib/mito/functions/function.h",
      "lib/mito/functions/factories.h", "lib/mito/functions/library_functions.h",
      "lib/mito/functions/traits.h"],
     [("one class per operation, held by value", "lib/mito/functions/function.h"),
      ("overloaded operators", "lib/mito/functions/algebra.h")],
     "differential property testing of generated programs against reference evaluation",
     TRUST + " The expressions are C++ programs drawn at random and compiled (eight programs per "
     "quick run); expressions that the compiler rejects are skipped, up to one in twelve.")

prop("F02", "Derivatives of functions are their derivatives",
     "The derivative, the partial derivatives and the higher derivatives of an expression of "
     "functions take, at every point, the values of the derivatives of the function that the "
     "expression denotes: the rules for sums, products, quotients, powers, compositions, subscripts, "
     "transposes and products of matrices and vectors all hold in any combination. Every elementary "
     "function has its derivative.",
     ["inputs"],
     "all differentiable expressions, nested to any depth, with scalar, vector and matrix values of "
     "scalar, vector and matrix arguments, at all points of their domains, to second order",
     "The tests differentiate a handful of fixed expressions and compare at one point.",
     ["lib/mito/functions/derivation_rules.h", "lib/mito/functions/partial_derivatives.h",
      "lib/mito/functions/library_derivatives.h", "lib/mito/functions/function.h",
      "lib/mito/functions/algebra.h"],
     [("one derivation rule per operation", "lib/mito/functions/derivation_rules.h"),
      ("partial derivatives along the components", "lib/mito/functions/partial_derivatives.h")],
     "differential property testing of generated programs against automatic differentiation",
     TRUST + " The expressions are C++ programs drawn at random and compiled (eight programs per "
     "quick run); expressions that the compiler rejects are skipped, up to one in twelve.")

prop("D01", "Gradients and divergences of fields are made of their partial derivatives",
     "The gradient of a scalar field collects its partial derivatives; that of a vector field has "
     "the derivative of component i along coordinate j in row i and column j, also when it is not "
     "square. The divergence of a vector field is the sum of the derivatives of each component along "
     "its own coordinate, that of a tensor field is the vector of the divergences of its rows. Hence "
     "the divergence of a gradient is the Laplacian.",
     ["inputs"],
     "all scalar, vector and tensor fields over one to three Cartesian coordinates that can be "
     "differentiated, at all points",
     "The tests check a few identities for one or two fixed fields at one point.",
     ["lib/mito/fields/differential.h", "lib/mito/functions/partial_derivatives.h",
      "lib/mito/functions/derivation_rules.h"],
     [("sums of partial derivatives times basis tensors", "lib/mito/fields/differential.h")],
     "differential property testing of generated programs against automatic differentiation",
     TRUST + " The fields are C++ programs drawn at random and compiled (eight programs per quick "
     "run); expressions that the compiler rejects are skipped, up to one in twelve.")

prop("G01", "Points, coordinates and coordinate systems",
     "Coordinates of one and the same point in Cartesian, polar and spherical coordinates transform "
     "into one another and back without loss. A displacement between two points is the difference "
     "of their coordinates and adding it to the first gives the second, in every kind of "
     "coordinates; component functions extract the component they are named after. A coordinate "
     "system returns for each point the coordinates it was placed with, changing the kind of "
     "coordinates keeps every point where it is, and distances are Euclidean distances.",
     ["inputs", "histories"],
     "all points and displacements away from the singularities of the coordinates, histories of "
     "placing points and changing coordinates",
     "The tests transform a few fixed points.",
     ["lib/mito/coordinates/Coordinates.h", "lib/mito/geometry/CoordinateSystem.h",
      "lib/mito/geometry/PointCloud.h", "lib/mito/geometry/algebra_coordinates.h",
      "lib/mito/geometry/coordinate_transformation.h", "lib/mito/geometry/utilities.h"],
     [("coordinate transformations", "lib/mito/geometry/coordinate_transformation.h"),
      ("map from points to coordinates", "lib/mito/geometry/CoordinateSystem.h")],
     "differential and metamorphic property testing against the definitions",
     TRUST)

prop("G02", "Metrics, bases and volume forms of coordinate systems agree with the embedding",
     "In Cartesian, polar and spherical coordinates the metric at a point is that induced by the "
     "Euclidean space in which the coordinates are embedded, the inverse metric is its inverse, the "
     "basis forms are dual to the basis vectors, and the volume form of vectors is the determinant "
     "of their Cartesian components. The form equivalent to a vector and the vector equivalent to a "
     "form are inverse of each other and represent the scalar product.",
     ["inputs"],
     "all points away from the singularities of the coordinates, all vectors and forms",
     "The tests evaluate metrics and volume forms at a few fixed points.",
     ["lib/mito/geometry/metric.h", "lib/mito/geometry/metric_space.h",
      "lib/mito/geometry/basis.h", "lib/mito/geometry/polar", "lib/mito/geometry/spherical"],
     [("metric fields", "lib/mito/geometry/metric.h")],
     "differential property testing against the embedding in Euclidean space",
     TRUST)

prop("B01", "The boundary of a mesh consists of its unmatched faces",
     "The boundary of a mesh consists of the oriented faces of its cells that are not matched by the "
     "same face in the opposite sense, each with the nodes and the sense that it has in its cell. "
     "Whether a face is on the boundary and the size of the boundary agree with it. The boundary of "
     "a conforming mesh with cells of the same sense is its outline, and has no boundary itself.",
     ["inputs", "histories"],
     "meshes of segments, triangles and tetrahedra, built by any history of insertions, erasures, "
     "removal of duplicates and moves of the mesh",
     "The tests count the boundary cells of a few small meshes.",
     ["lib/mito/mesh/Boundary.icc", "lib/mito/mesh/Boundary.h", "lib/mito/mesh/Mesh.h"],
     [("orientation map of the mesh", "lib/mito/mesh/Mesh.h")],
     "stateful model-based property testing", TRUST)

prop("B02", "A mesh is the collection of the cells put in and not erased",
     "After any history of insertions, erasures and removals of duplicates, a mesh consists of "
     "exactly the cells inserted and not erased, with their nodes and orientation; removing "
     "duplicates leaves the first cell of each kind. Filtering a mesh yields the cells of the given "
     "dimension that its cells are composed of, with their nodes, and the nodes of a mesh are those "
     "of its cells.",
     ["inputs", "histories"],
     "meshes of segments, triangles and tetrahedra, built by any history of insertions, erasures, "
     "removal of duplicates and moves of the mesh; the sense of the filtered faces is claimed as long as no cell is "
     "oriented against its footprint",
     "The tests insert and erase a handful of cells.",
     ["lib/mito/mesh/Mesh.h", "lib/mito/mesh/utilities.h", "lib/mito/mesh/Filter.icc"],
     [("cells in a segmented vector", "lib/mito/mesh/Mesh.h")],
     "stateful model-based property testing", TRUST)

prop("G03", "Cells: nodes, edge vectors, barycenter, parametrization and opposite cells",
     "A cell keeps its nodes in the order given, on the oriented simplex of their vertices. Its "
     "edge vectors lead from its first node to the others, its barycenter is the mean of its nodes "
     "in any kind of coordinates, its parametrization maps barycentric coordinates affinely to its "
     "nodes. Flipping a cell yields the cell of opposite orientation on the same nodes, flipping the "
     "diagonal of two triangles the two triangles on the other diagonal of the same outline; doing "
     "either twice gives back the beginning.",
     ["inputs"],
     "segments, triangles and tetrahedra in any dimension, in Cartesian, polar and spherical "
     "coordinates (the parametrization: Cartesian), among other cells on the same nodes",
     "The tests look at one or two fixed cells.",
     ["lib/mito/geometry/GeometricSimplex.h", "lib/mito/geometry/ReferenceSimplex.h",
      "lib/mito/geometry/utilities.h"],
     [("nodes next to an oriented simplex", "lib/mito/geometry/GeometricSimplex.h")],
     "differential and metamorphic property testing against the definitions", TRUST)

prop("B03", "Refining a mesh divides every cell into equal parts that tile it",
     "Refining a mesh n times replaces every cell by 2^n, 4^n or 8^n cells (segments, triangles, "
     "tetrahedra) of equal measure and the same orientation, with nodes at the dyadic points of the "
     "cell, which cover it without overlap; the cells that replace one cell share their nodes after "
     "one refinement. Zero refinements give a copy, refining in steps is allowed, and the mesh that "
     "is refined stays as it is.",
     ["inputs"],
     "meshes of any cells that are not flat, in one to three dimensions, with cells erased before, "
     "any number of refinements; nothing is claimed on nodes shared across the cells of the original",
     "The tests count the cells of a few refined meshes.",
     ["lib/mito/mesh/tetra.h", "lib/mito/geometry/CoordinateSystem.h"],
     [("recursive subdivision at midpoints", "lib/mito/mesh/tetra.h")],
     "property testing against geometric invariants (measure, tiling, dyadic nodes)", TRUST)

prop("B04", "The partitions of a mesh divide up its cells",
     "Partitioning a mesh for a number of ranks gives every cell, with its nodes, to exactly one "
     "rank, in the order of the mesh; asking for the same partition again gives the same cells. One "
     "partition is a copy of the mesh. The mesh stays as it is, and every partition is a mesh in its "
     "own right.",
     ["inputs"],
     "meshes of segments, triangles and tetrahedra, conforming or not, with cells erased before, any "
     "number of partitions up to the number of cells",
     "The tests partition two fixed meshes in two and look at the number of cells.",
     ["lib/mito/mesh/metis/Partitioner.icc", "lib/mito/mesh/metis/Partitioner.h"],
     [("colouring of the cells by METIS", "lib/mito/mesh/metis/Partitioner.icc")],
     "property testing against set invariants of the partitions", TRUST + " Trusts METIS.")

prop("B05", "A mesh written to a summit file is read back the same",
     "A mesh written to a file lists every point once and every cell with its nodes, and is read "
     "back with the same cells in the same order, the same connectivity and coordinates equal to "
     "fifteen digits, also in its discontinuous form (every cell with nodes of its own on shared "
     "points). Writing the mesh that was read gives the same file. Files written by others are read "
     "as they stand, and a missing file is reported.",
     ["inputs"],
     "meshes of any cells in one to three dimensions, Cartesian or polar, with cells erased before, "
     "coordinates of any size, with or without a type of element",
     "The tests read a few fixed files and write one of them again.",
     ["lib/mito/io/summit/reader.h", "lib/mito/io/summit/MeshSummitWriter.h",
      "lib/mito/io/summit/writer.h", "lib/mito/io/summit/summit_cell.h"],
     [("indices of points", "lib/mito/io/summit/MeshSummitWriter.h")],
     "round-trip property testing, with an independent parser of the file", TRUST)

prop("Q01", "The volume of a manifold is the sum of the signed volumes of its cells",
     "The volume of a cell is the signed volume of the simplex on its nodes in Euclidean space, in "
     "Cartesian, polar and spherical coordinates alike; that of a cell of a submanifold is measured "
     "with the normal fields, or the volume form the manifold is given, at its first node. The volume of a manifold is the sum over the cells "
     "that its mesh has at the time, is negated with the orientation of the cells, and does not "
     "change with refinement or a change of coordinates.",
     ["inputs"],
     "meshes of any cells in one to three dimensions, with cells erased or put in later, with "
     "constant or varying normal fields",
     "The tests compute the volumes of a few fixed meshes.",
     ["lib/mito/manifolds/Manifold.h", "lib/mito/manifolds/factories.h",
      "lib/mito/geometry/metric_space.h", "lib/mito/geometry/utilities.h"],
     [("volume form contracted with the edge vectors", "lib/mito/manifolds/Manifold.h")],
     "differential and metamorphic property testing against determinants", TRUST)

prop("Q02", "Quadrature integrates polynomials up to its degree exactly",
     "A quadrature rule of degree r integrates every polynomial of degree at most r over every "
     "manifold of segments, triangles or tetrahedra, in any position and orientation, exactly; its "
     "points lie in the cell and its weights add up to one. Integration is linear in the integrand.",
     ["inputs"],
     "all available rules, products of up to r affine functions, meshes of any distinct cells in "
     "Cartesian coordinates, of full dimension or submanifolds with constant normals",
     "The tests integrate a few fixed functions on one or two cells.",
     ["lib/mito/quadrature/Integrator.h", "lib/mito/quadrature/QuadratureRule.h",
      "lib/mito/quadrature/quadrature_tables_segments.icc",
      "lib/mito/quadrature/quadrature_tables_triangles.icc",
      "lib/mito/quadrature/quadrature_tables_tetrahedra.icc",
      "lib/mito/geometry/GeometricSimplex.h"],
     [("points and weights on the reference cell", "lib/mito/quadrature/QuadratureTable.h")],
     "property testing against the exact integrals of products of affine functions", TRUST)

prop("Q03", "The integral of the divergence over a body is the flux through its boundary",
     "For every field that the quadrature integrates exactly, the integral of its divergence over a "
     "conforming mesh equals the flux through the boundary of the mesh. The boundary cells of a body "
     "are all oriented to the same side, those of a plane body outward.",
     ["inputs"],
     "fields of degree two on meshes of random parallelograms and parallelepipeds, with any order of "
     "cells and nodes",
     "The test checks one field on one mesh of four cells.",
     ["lib/mito/mesh/Boundary.icc", "lib/mito/manifolds/factories.h",
      "lib/mito/quadrature/Integrator.h", "lib/mito/fields/differential.h"],
     [("boundary of the mesh", "lib/mito/mesh/Boundary.icc")],
     "metamorphic property testing: two routes to the same integral", TRUST)

prop("R01", "A discrete field holds one value for exactly the keys it was given",
     "A discrete field on points, mesh nodes, discretization nodes or cells holds exactly the entries "
     "inserted, each with the value written last (the default value to begin with); writing one entry "
     "changes no other, listing visits every entry once and reads and writes the same values as "
     "direct access, an unknown key is refused, and a moved field keeps its entries. The fields made "
     "from a mesh have exactly its nodes or its cells, those sampled from a continuous field its "
     "value at each node.",
     ["histories", "inputs"],
     "histories of insertion, writing, listing, reading unknown keys and moves, over eight types of "
     "key and value; fields made from meshes of segments, triangles and tetrahedra in Cartesian, "
     "polar and spherical coordinates and from point clouds",
     "The tests make one entry each and read it back.",
     ["lib/mito/discrete/DiscreteField.h", "lib/mito/discrete/factories.h",
      "lib/mito/utilities/utilities.h", "lib/mito/utilities/StdSharedPointer.h",
      "lib/mito/geometry/PointCloud.h", "lib/mito/mesh/utilities.h"],
     [("map from keys to values", "lib/mito/discrete/DiscreteField.h")],
     "stateful model-based property testing", TRUST)

prop("E01", "Elements interpolate and differentiate polynomials of their degree exactly",
     "On every cell that is not degenerate, each shape function is one at its node and zero at the "
     "other nodes; they add up to one, and combined with the nodal values of a polynomial of the "
     "degree of the element they reproduce the polynomial and, through their gradients in space, its "
     "gradient. The jacobian is the derivative of the parametrization, and a field seen from the "
     "element is the field at the point in space.",
     ["inputs"],
     "linear segments, linear and quadratic triangles of any shape, size, position and orientation, "
     "any parametric point also outside the element, random polynomials",
     "The tests evaluate the shape functions at the quadrature points of one or two fixed elements.",
     ["lib/mito/fem/elements/seg1/ShapeSegmentP1.h", "lib/mito/fem/elements/tri1/ShapeTriangleP1.h",
      "lib/mito/fem/elements/tri2/ShapeTriangleP2.h",
      "lib/mito/fem/elements/tri2/IsoparametricTriangleP2.h",
      "lib/mito/fem/elements/tri1/IsoparametricTriangleP1.h",
      "lib/mito/fem/elements/seg1/IsoparametricSegmentP1.h", "lib/mito/fem/localize.h"],
     [("gradient through the inverse of the jacobian", "lib/mito/fem/elements/tri2/IsoparametricTriangleP2.h")],
     "property testing against polynomials in barycentric coordinates", TRUST)

prop("E02", "Element matrices and vectors are the integrals they stand for",
     "The mass, grad-grad, source and norm blocks of an element are the integrals over the cell of the "
     "products of shape functions, of their gradients, of the source with the shape functions, and of "
     "the square of the function, exactly when the quadrature rule is exact for the integrand and as "
     "the rule evaluates them otherwise; the matrices are symmetric, and a weak form returns the sum "
     "of its blocks each time it is asked.",
     ["inputs"],
     "linear segments, linear and quadratic triangles of any shape and size with positive "
     "orientation, all quadrature rules, sources of degree up to two, any combination of blocks",
     "The tests compute one block on one fixed element for a few rules.",
     ["lib/mito/fem/blocks/MassBlock.h", "lib/mito/fem/blocks/GradGradBlock.h",
      "lib/mito/fem/blocks/SourceTermBlock.h", "lib/mito/fem/blocks/L2NormBlock.h",
      "lib/mito/fem/Weakform.h"],
     [("sum over the quadrature points", "lib/mito/fem/blocks/GradGradBlock.h")],
     "differential property testing against exact integrals of polynomials", TRUST)

prop("E03", "Elements share one degree of freedom per mesh node and edge",
     "A function space has one element per cell of the mesh. Two elements share a discretization node "
     "exactly where they share a mesh node, or for quadratic elements an edge; the constrained nodes "
     "are exactly those on the domain of the constraint. A finite element field takes on each element "
     "the values of the polynomial through its nodal values, and is the same from both sides of an "
     "edge.",
     ["inputs", "histories"],
     "meshes of segments and triangles with holes and with cells taken out again, nodes and cells in "
     "any order, with or without seams; constraints on the boundary, on part of it, on any edges "
     "inside, or none",
     "The tests build no function space; the fields are only tested on a fixed one.",
     ["lib/mito/fem/FunctionSpace.h", "lib/mito/fem/FemField.h", "lib/mito/fem/utilities.h",
      "lib/mito/fem/elements/seg1/DiscretizerCG.h", "lib/mito/fem/elements/tri1/DiscretizerCG.h",
      "lib/mito/fem/elements/tri2/DiscretizerCG.h", "lib/mito/constraints/Dirichlet.h"],
     [("numbering of the nodes in the middle of the edges", "lib/mito/fem/elements/tri2/DiscretizerCG.h")],
     "property testing against a model of the degrees of freedom", TRUST)

prop("E04", "A discrete system is the sum of its elements and solves the problem",
     "A discrete system has one equation per free node; each entry of its matrix and right-hand side "
     "is the sum over the elements of the entries for the same nodes, nothing is added for constrained "
     "nodes, and the solution that is read back is the solution of the equation of each free node and "
     "zero at the constrained ones. Projecting a polynomial of the degree of the elements returns it; "
     "linear elements solve the one-dimensional diffusion problem exactly at the nodes; solving again "
     "gives the same solution.",
     ["inputs", "histories"],
     "weak forms of any blocks (also of the user's) on the function spaces of E03, several systems "
     "side by side, with homogeneous constraints; the linear "
     "systems are solved by an elimination of the harness",
     "No test assembles a system.",
     ["lib/mito/fem/DiscreteSystem.h", "lib/mito/fem/Weakform.h", "lib/mito/fem/FunctionSpace.h",
      "lib/mito/solvers/LinearSolver.h"],
     [("equation of each node", "lib/mito/fem/DiscreteSystem.h")],
     "differential property testing against a reference assembly; known solutions", TRUST)

prop("E05", "Norms of differences are those of the difference in space",
     "The L2 norm of the difference of two fields over a function space is the square root of the "
     "integral of the square of the difference, the H1 norm adds the square of its gradient in space; "
     "for finite element fields and continuous fields in any combination, as the quadrature rule "
     "evaluates them, exactly when it is exact. Both are symmetric, and zero for a field of the space "
     "and its interpolation.",
     ["inputs"],
     "linear segments, linear and quadratic triangles, rules of degree one to four, random nodal "
     "values and polynomials of degree two",
     "No test computes a norm; a benchmark prints them.",
     ["lib/mito/fem/norms.h", "lib/mito/fem/blocks/L2NormBlock.h", "lib/mito/fem/localize.h"],
     [("gradient of the difference", "lib/mito/fem/norms.h")],
     "differential property testing against integrals of polynomials", TRUST)

prop("S01", "PETSc gets the linear system that was written, and its solution comes back",
     "A linear system has the entries that were last set or the sums of what was added, in its matrix "
     "and right-hand side; solving returns its solution, whatever the options of the solver; after "
     "more changes solving returns the solution of the changed system. Options given to one solver "
     "do not reach another. The whole chain from weak form to solution returns the known solution of "
     "a problem.",
     ["histories", "inputs"],
     "histories over up to three systems of one to nine equations that are diagonally dominant, "
     "changed, solved, destroyed and made again, with direct and iterative solvers; discrete systems "
     "with known solutions, also with no equation at all; one process",
     "The test solves one fixed system once.",
     ["lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc",
      "lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc",
      "lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc",
      "lib/mito/solvers/LinearSolver.h", "lib/mito/fem/DiscreteSystem.h"],
     [("entries handed to PETSc", "lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc")],
     "stateful model-based property testing", TRUST + " Trusts PETSc.")

prop("V01", "Exported VTK grids hold the mesh, its fields and the node numbers",
     "The grid that a writer hands to VTK has one cell for each cell of the mesh, in order and of the "
     "right kind, between points at the positions of its nodes; nodes that cells share are shared. "
     "Every field is attached under its name, with the value of each node at the point of that node; "
     "point clouds likewise. A parallel writer writes the piece of its process, and the files of all "
     "pieces agree about their names and count.",
     ["inputs"],
     "segments, triangles and tetrahedra in one to three dimensions, point clouds, scalar and vector "
     "fields with names, several writes of one writer; VTK itself is replaced by a stand-in that "
     "records what it is handed",
     "The tests write a file and do not look at it, and are not built without VTK.",
     ["lib/mito/io/vtk/MeshVTKWriter.h", "lib/mito/io/vtk/PointCloudVTKWriter.h",
      "lib/mito/io/vtk/FieldVTKWriter.h", "lib/mito/io/vtk/GridVTKWriter.h",
      "lib/mito/io/vtk/ParallelGridVTKWriter.h", "lib/mito/io/vtk/vtk_cell.h"],
     [("grid building", "lib/mito/io/vtk/MeshVTKWriter.h"),
      ("field values", "lib/mito/io/vtk/FieldVTKWriter.h")],
     "property-based testing", TRUST + " VTK is a stand-in (it is not installed).")

prop("P01", "The Python module computes what the library computes and keeps objects alive",
     "Coordinates made in Python have the components they were made of and no others: other indices "
     "raise an IndexError, and iterating over them ends. A scalar field takes the value that its "
     "callable returns for the point, and passes on what it raises. The integral of a field over the "
     "manifold on a mesh read from a file is exact for polynomials up to degree two. Objects stay "
     "usable for as long as a handle to them, or to something made of them, exists, in whatever order "
     "handles are dropped and garbage is collected.",
     ["histories", "inputs"],
     "histories of objects made, used and dropped by Python code that an interpreter inside the "
     "harness runs: coordinates and fields in two and three dimensions, callables of several kinds, "
     "meshes of up to five triangles from files; with an address sanitizer",
     "The scripts in tests/mito.ext keep every object alive and look at one integral; they are not "
     "part of the stable tests.",
     ["extensions/mito/mito.cc", "lib/mito/manifolds/Manifold.h", "lib/mito/quadrature/Integrator.h",
      "lib/mito/functions/function.h"],
     [("bindings", "extensions/mito/mito.cc"), ("references that are held", "lib/mito/quadrature/Integrator.h")],
     STATEFUL, TRUST + " Runs the interpreter of the system (python 3.12) in one thread.")
