#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- parallelism
p("C01", "Parallel mutation through disjoint index subsets is race-free and in bounds",
  "Whatever index subsets, storage length, thread count and work splitting are used, safe parallel iteration over disjoint index subsets hands out each subset exactly once with its own label and indices, every record it exposes is the addressed record of the collection, and no two tasks ever hold the same record. Overlapping subsets, or subsets reaching outside the collection, are refused before any record is touched. No execution has a data race or undefined behaviour, for plain slices, blocked views of collections, and rows of a compressed sparse matrix alike.",
  ["schedules", "inputs", "histories"], "All subset families (also empty subsets, duplicates within one subset, families that overlap or go out of bounds), storage lengths, block sizes, thread counts, rayon adaptors (skip, take, zip, chunks, rev-free indexed splitting) and schedules.",
  "Unit tests use a few fixed subset families with default splitting on one pool, and cannot see races or aliasing, since those do not change the values they compare.",
  ["fenris-paradis/src/lib.rs", "fenris-paradis/src/slice.rs", "fenris-paradis/src/adapter.rs", "fenris-sparse/src/sparse.rs"],
  [("disjointness validation", "DisjointSubsets::try_from_disjoint_subsets"), ("bounds assertion before access creation", "DisjointSubsets::subsets_par_iter"), ("indexed producer splitting", "DisjointSubsetsProducer::split_at"), ("unsafe record access", "ParallelSliceAccess, BlockAccess, CsrParallelRowAccess")],
  ["fenris-paradis public API", "fenris_sparse::ParallelCsrRowCollection"])
p("C02", "Greedy coloring partitions the subsets into conflict-free groups",
  "Coloring a family of index subsets (or the elements of a mesh by their nodes) places every subset in exactly one color with its original indices and its original position as label, and no two different subsets of one color share an index. The number of colors never exceeds the maximum conflict degree plus one, and the result does not depend on anything but the input.",
  ["inputs"], "All families of index subsets, including empty families, empty subsets, repeated indices and very large sparse index values; all mesh connectivities.",
  "Proptest cases in the suite use small dense families; nothing checks meshes of mixed cell kinds, label fidelity or the color bound.",
  ["fenris-paradis/src/coloring.rs", "src/assembly/global.rs"],
  [("greedy sequential coloring", "sequential_greedy_coloring"), ("element coloring", "color_nodes")])
p("C03", "Parallel assembly gives the serial result under every schedule",
  "For any discretization and any valid coloring of its elements, parallel assembly of matrices, vectors and scalars and the parallel sparsity pattern construction give the same pattern and the same values as serial assembly up to floating point summation order, for every thread count and interleaving, with every element visited exactly once. This also holds when the same parallel assembler object is reused for other problems in between and when its results are accumulated into an already filled matrix or vector.",
  ["schedules", "configurations", "histories"], "All meshes, element kinds, solution dimensions, colorings, pool sizes, injected delays, reuse histories of the assembler objects and nesting inside other parallel work.",
  "The tests compare serial and parallel output on a handful of fixed meshes on the default pool without perturbing the schedule, and never reuse an assembler.",
  ["src/assembly/global.rs", "fenris-paradis/src/lib.rs", "fenris-sparse/src/sparse.rs"],
  [("color-by-color parallel loop", "CsrParAssembler::assemble_into_csr, VectorParAssembler::assemble_vector_into"), ("thread local workspaces", "with_thread_local_workspace / ThreadLocal buffers"), ("parallel pattern construction", "CsrParAssembler::assemble_pattern")])
p("C04", "Global assembly is exactly the scatter-add of element contributions",
  "The assembled sparse matrix, vector or scalar equals the sum over all elements of the element's local contribution scattered to the degrees of freedom of its nodes, where the local degrees of freedom are node-major and interleaved by component. The sparsity pattern contains exactly the coupled pairs of degrees of freedom, sorted, each once; gathering local values from a global vector and adding local values to it are the matching index maps. Accumulating into an existing matrix adds to it and leaves all other entries untouched.",
  ["inputs", "configurations"], "All element connectivities (elements with different node counts, isolated nodes, no elements; repeated nodes within an element for patterns, vectors, gather and add, which is where they are supported), solution dimensions and local contributions.",
  "Tests compare a few hand-computed matrices on meshes of two or three elements.",
  ["src/assembly/global.rs", "src/assembly/local.rs"],
  [("pattern assembly", "CsrAssembler::assemble_pattern"), ("row-wise scatter-add", "add_local_row_to_csr / assemble_into_csr"), ("vector and scalar assembly", "VectorAssembler, assemble_scalar"), ("gather/add helpers", "gather_global_to_local, add_local_to_global")])
p("C05", "Assembly failures are reported and leave assemblers and results usable",
  "If any element's contribution fails, serial and parallel assembly return an error originating from a failing element instead of panicking, hanging or silently dropping contributions, and otherwise they return success. After a failure the same assembler object produces correct results for any later problem, whatever its element sizes and dimensions.",
  ["fault_sequences", "histories", "schedules"], "All sets of failing elements, points of failure, orders of failed and successful uses of one assembler on problems of different shapes, and schedules.",
  "No existing test makes an element assembler fail, and none reuses an assembler after an error.",
  ["src/assembly/global.rs", "src/assembly/buffers.rs", "src/assembly/local/elliptic.rs"],
  [("error propagation", "try_for_each in CsrParAssembler/VectorParAssembler, ? in serial assemblers"), ("workspace reset on reuse", "CsrAssembler workspace, buffers resize")])
p("C06", "Composed element assemblers mean what their parts mean",
  "Concatenating several element assemblers assembles the sum of the parts over the same nodes, wherever parts without elements occur; transforming an element quantity applies the transformation to every element's quantity exactly once; and mapping element nodes scatters the same local contributions to the mapped nodes.",
  ["configurations", "inputs"], "All lists of parts (also empty parts and one part), node counts per element, transformations and node maps, also failing ones, and nested compositions.",
  "The tests have one aggregate of two non-empty parts and one transformation each.",
  ["src/assembly/local.rs"],
  [("element offset lookup", "AggregateElementAssembler::find_assembler_and_offset_for_element_index"), ("transformations", "TransformElementScalar/Vector/Matrix"), ("node mapping", "MapElementNodes")])
p("C07", "Homogeneous Dirichlet conditions decouple exactly the constrained unknowns",
  "After applying homogeneous Dirichlet conditions for a set of nodes to a matrix and right-hand side, every constrained unknown's row and column is zero apart from a nonzero diagonal entry, its right-hand side entry is zero, and all other entries keep their exact values, for sparse and dense matrices alike. Consequently the solution vanishes at constrained unknowns and solves the reduced system elsewhere.",
  ["inputs", "configurations"], "All finite matrices (sparse ones with structurally symmetric pattern and structurally present diagonal; zero, tiny, negative or huge diagonal values), node sets (empty, all, repeated, unsorted) and solution dimensions.",
  "The tests check one small matrix.",
  ["src/assembly/global.rs"],
  [("sparse elimination", "apply_homogeneous_dirichlet_bc_csr"), ("dense elimination", "apply_homogeneous_dirichlet_bc_matrix"), ("right-hand side", "apply_homogeneous_dirichlet_bc_rhs")])

# ---------------------------------------------------------------- meshes
p("M01", "Mesh renumbering is a pure relabeling",
  "Reordering computed for any matrix graph or mesh is a permutation of all vertices and of all cells; applying it yields a mesh with the same cells at the same coordinates and the same vertex order inside each cell. The Cuthill-McKee ordering visits each connected component breadth first from a vertex of least degree, neighbours in order of degree, and the reverse ordering is its reversal. Constructing a permutation accepts exactly the bijective index lists and reports others as errors, and inverse, reversal and application agree with each other.",
  ["inputs"], "All sparsity patterns (disconnected, empty rows, self loops or none, dense), all meshes, all candidate index lists.",
  "Snapshot tests cover a few small patterns and no invalid lists.",
  ["src/mesh/reorder.rs"],
  [("Cuthill-McKee orderings", "cuthill_mckee, reverse_cuthill_mckee"), ("mesh permutation", "reorder_mesh_par, MeshPermutation::apply"), ("validation", "Permutation::from_vec")])
p("M02", "Uniform refinement covers the same domain with a conforming finer mesh",
  "Refining a valid mesh replaces each cell by congruently arranged children that tile it exactly: total measure is preserved, all children keep the parent's orientation, each shared edge is split at one single shared midpoint vertex, and the original vertices in use are part of the refined mesh with unchanged coordinates. A conforming mesh stays conforming, with the boundary of the refined mesh covering the boundary of the original, for any number of repetitions.",
  ["inputs", "configurations"], "All conforming triangle meshes with any vertex numbering and cell-local vertex rotation, any repetition count; user-defined refinement schemes of other cells through the same driver.",
  "The tests check snapshots of two meshes.",
  ["src/mesh/refinement.rs", "src/mesh/refinement/detail.rs"],
  [("labelled edge midpoints", "EdgeMidpointLabel, VertexOrEdgeMidpointVertex"), ("refinement driver", "refine_mesh, refine_uniformly_repeat")])
p("M03", "Conversion to other element orders keeps geometry and conformity",
  "Converting a mesh to a higher-order (or other) cell type keeps every cell's corner vertices and order, places each additional node at its element type's reference node position mapped by the cell's geometry, and shares nodes between neighbouring cells exactly when they coincide geometrically on shared edges and faces. For meshes without unused vertices, no vertex is duplicated or left unused; cell counts are as specified, and splitting cells preserves covered measure and orientation.",
  ["inputs", "configurations"], "All conforming meshes of the convertible kinds with any vertex numbering and any admissible cell-local vertex order.",
  "The tests compare a few fixed conversions with hand written lists.",
  ["src/mesh_convert.rs", "src/mesh.rs"],
  [("canonical edge and face keys", "RefineFrom implementations"), ("conversion entry points", "impl From<&Mesh<..>>"), ("splitting", "QuadMesh2d::split_into_triangles")])
p("M04", "Boundary extraction yields the closed, outward-oriented boundary",
  "The boundary faces reported for a conforming mesh are exactly the faces belonging to one cell, each with its cell and local face number and listed with the orientation of that cell. The boundary forms a closed surface with outward orientation, so that it encloses the mesh's total measure; boundary cells, boundary vertices and the extracted surface mesh are exactly those derived from these faces.",
  ["inputs"], "All conforming meshes of each cell kind in two and three dimensions, with holes, several components, random cell-local rotations and non-manifold contacts.",
  "The tests check a two-cell example; face tables of higher-order cells are untested.",
  ["src/mesh.rs", "src/connectivity.rs"],
  [("face tables", "Connectivity::get_face_connectivity"), ("unique face search", "Mesh::find_boundary_faces"), ("surface mesh", "Mesh::extract_surface_mesh")])
p("M05", "Selecting cells gives the induced sub-mesh",
  "Keeping a list of cells yields exactly these cells in the given order with identical coordinates, containing only the vertices they use, each once, in their original relative order. Translating or transforming vertices changes exactly the intended coordinates, and serializing a mesh and reading it back yields an equal mesh.",
  ["inputs"], "All meshes and cell lists, including empty lists, all cells and arbitrary order, any coordinate transformation.",
  "One fixed example is tested.",
  ["src/mesh.rs"],
  [("sub-mesh extraction", "Mesh::keep_cells"), ("vertex transformation", "Mesh::translate, transform_vertices, transform_all_vertices"), ("serialization", "Mesh derive Serialize/Deserialize")])
p("M06", "Procedurally generated meshes are valid discretizations of the requested domain",
  "Every mesh generator yields a conforming mesh with positively oriented cells, no duplicate or unused vertices, and (for boxes and rectangles) exactly the requested extents, cell counts and measure, or an empty mesh for zero cells. Voxelizations of bounds cover them with square cells no larger than requested; voxelizations of level sets keep exactly the grid cells with a corner inside the shape, and surface approximations move exactly the outside vertices of these cells along the gradient onto the surface.",
  ["configurations", "inputs"], "All generator parameters: cell counts including zero and non-cubic ones, unit lengths, origins, scales, bounding boxes, signed distance shapes and maximum cell sizes.",
  "Snapshot tests for a few small parameter values.",
  ["src/mesh/procedural.rs"],
  [("rectangular generators", "create_rectangular_uniform_{quad,hex,tet}_mesh"), ("voxelization", "voxelize_bounding_box_2d, voxelize_sdf_2d, approximate_*_mesh_for_sdf_2d")])

p("M07", "Cells, faces and bounds of a mesh follow its vertices and connectivity",
  "Whichever way the cells of a mesh are accessed (by index, by iterating, as a geometry collection), cell i is the geometric cell over the corner vertices of connectivity i; cells that do not exist and cells with missing vertices are never reported as some other cell. The local faces of every planar and surface cell kind form its oriented boundary loop and use exactly the nodes on it, corner connectivities keep the corners, the bounding box of a mesh is the smallest around its cells' corners, and the values gathered for an element are those of its nodes.",
  ["inputs"], "Meshes of all kinds, including empty ones, surfaces, polylines and arbitrary tables of shared and repeated vertices; all cell and face indices; all node numbers; vectors with one to three components.",
  "The unit tests never access cells by index or as a collection; faces of surface kinds are not tested at all.",
  ["src/mesh.rs", "src/connectivity.rs", "src/element.rs"],
  [("cell access", "Mesh::get_cell, cell_iter, GeometryCollection for Mesh, CellConnectivity::cell"), ("local faces", "Connectivity::get_face_connectivity, CellConnectivity::for_each_face"), ("element values", "ElementConnectivity::populate_element_variables")])

# ---------------------------------------------------------------- elements
p("E01", "Shape functions form a nodal basis with matching gradients",
  "For every element kind the basis functions are one at their own reference node and zero at the others, sum to one everywhere, reproduce all polynomials of the element's order, and the reported gradients are the derivatives of the reported values. Neighbouring elements of the same kind agree on a shared face for the same nodal values.",
  ["inputs"], "All element kinds of the library and all points of (and around) the reference domain; all nodal value vectors.",
  "Proptests exist for some element kinds only and use finite differences at points inside the reference domain.",
  ["src/element/segment.rs", "src/element/triangle.rs", "src/element/quadrilateral.rs", "src/element/tetrahedron.rs", "src/element/hexahedron.rs"],
  [("closed-form basis functions", "FixedNodesReferenceFiniteElement implementations")])
p("E02", "Geometry maps agree with vertices, Jacobians and measures",
  "Each element's geometry map sends its reference vertices to the physical vertices, its Jacobian is the derivative of the map, and on valid elements integrating the Jacobian determinant gives the cell's measure; face and lower-dimensional maps lie on the same geometry. The reported diameter is at least the true distance of any two of the element's points and is attained for straight elements.",
  ["inputs"], "All element kinds and all vertex positions (also degenerate, rotated, far from the origin and of any scale).",
  "Tests check identity-like maps and a few sampled shapes.",
  ["src/element.rs", "src/element/triangle.rs", "src/element/quadrilateral.rs", "src/element/tetrahedron.rs", "src/element/hexahedron.rs", "src/element/segment.rs"],
  [("reference map", "FiniteElement::map_reference_coords, reference_jacobian"), ("diameter", "FiniteElement::diameter"), ("element construction from connectivity", "ElementConnectivity::element")])
p("E03", "Reference coordinates are recovered; closest points are closest",
  "For a valid element, mapping reference coordinates to space and back recovers them, and projecting points onto surface elements terminates with the closest point of their plane or line. The closest-point query reports whether the point lies inside the element, and otherwise returns reference coordinates inside the reference domain whose image is at least as close to the query point as any other point of the element.",
  ["inputs"], "All non-degenerate elements of kinds supporting the queries, and all query points inside, near, on boundary features of, and far from the element.",
  "Tests sample a few hundred random points for some element kinds.",
  ["src/element.rs", "src/element/triangle.rs", "src/element/quadrilateral.rs", "src/element/tetrahedron.rs", "src/element/hexahedron.rs", "src/element/segment.rs"],
  [("Newton inverse map", "map_physical_coordinates, project_physical_coordinates"), ("closest point", "ClosestPointInElement implementations"), ("bounds", "BoundsForElement")])

# ---------------------------------------------------------------- spaces
p("S01", "Spatial point location finds a closest element for every query point",
  "For any mesh and query point, indexed point location returns an element that contains the point if there is one, and otherwise an element whose distance to the point is minimal among all elements, with reference coordinates of the closest point. Interpolating a finite element function at a point inside the mesh therefore yields that function's value and gradient there, and results do not depend on cell order.",
  ["inputs", "configurations"], "All valid meshes of the supported kinds (graded, non-convex, disconnected, tiny, far from the origin, single cell) and all query points inside, on interfaces, outside and far away.",
  "Tests interpolate on a few uniform meshes at a fixed list of points.",
  ["src/space/spatially_indexed.rs", "src/space/interpolate.rs", "src/space/space_impl.rs"],
  [("R-tree candidate pruning", "SpatiallyIndexed::find_closest_element_and_reference_coords"), ("interpolation at points", "InterpolateInSpace / interpolate_at_points, interpolate_gradient_at_points"), ("inner space forwarding", "impl FiniteElementSpace for SpatiallyIndexed")])
p("S02", "Precomputed interpolation equals direct interpolation",
  "An interpolation operator precomputed for a list of points gives, for any nodal vector and any number of components, the same values and gradients as direct interpolation at these points, and one result per point (zero if the space has no elements). Building it in parallel or serially gives the same operator, it is linear in the nodal vector, and serialized operators behave the same after reading them back.",
  ["inputs", "schedules", "configurations"], "All spaces (also empty ones), point lists (also empty, repeated, outside the mesh), nodal vectors, solution dimensions and thread counts.",
  "The tests use one or two meshes and never compare the parallel construction on irregular input.",
  ["src/space/fixed_interpolator.rs"],
  [("construction", "FixedInterpolator::from_space_and_points, from_space_and_points_par"), ("evaluation", "FixedInterpolator::interpolate, interpolate_into")])

# ---------------------------------------------------------------- quadrature
p("Q01", "Quadrature rules integrate polynomials exactly up to their strength",
  "Every rule offered for a domain and polynomial strength integrates all polynomials of that degree exactly over the reference domain, and requesting more strength than available is reported as an error. All points lie in the reference domain, weights sum to its measure, and the number of points equals the number of weights.",
  ["configurations", "inputs"], "All domains, all offered strengths, and all polynomials of the stated degree.",
  "Tests cover polyquad rules for monomials, but not every canonical, tensor or Gauss-Lobatto rule nor their combination.",
  ["fenris-quadrature/src/polyquad.rs", "fenris-quadrature/src/univariate.rs", "fenris-quadrature/src/tensor.rs", "src/quadrature/total_order.rs", "src/quadrature/tensor.rs", "src/quadrature/univariate.rs"],
  [("rule tables", "fenris-quadrature/rules, build.rs"), ("Gauss and Gauss-Lobatto", "univariate"), ("tensor products", "tensor")])
p("Q02", "Derived quadratures keep exactness on their domain",
  "Quadratures derived from others, by subdivision of the domain or as the canonical choice for an element and its order, integrate polynomials of the promised degree exactly on the same domain and keep weights and points consistent. Integrals over elements and meshes computed with them are additive, independent of cell numbering, and invariant under rigid motions.",
  ["inputs", "configurations"], "All reference domains, base rules, subdivision counts, elements and meshes.",
  "Tests check a few subdivision levels of one rule.",
  ["src/quadrature/subdivide.rs", "src/quadrature/canonical.rs", "src/quadrature.rs", "src/integrate.rs"],
  [("subdivision", "subdivide_univariate, subdivide_triangle, subdivide_polyhedron"), ("canonical rules", "CanonicalMassQuadrature, CanonicalStiffnessQuadrature"), ("integration", "integrate_over_element, integrate_over_volume_element")])

# ---------------------------------------------------------------- whole problems
p("P01", "Discrete solutions reproduce exact solutions contained in the space",
  "When the exact solution of a Poisson or linear elasticity problem lies in the finite element space, then assembling stiffness and load (serially or in parallel), prescribing the exact values at the boundary through the homogeneous Dirichlet helpers, and solving gives the exact nodal values, zero error norms, the minimum of the total energy among all functions with these boundary values, and the exact value and gradient at every located point. For every elastic material, Newton's method started near it finds the affine deformation that an affine boundary displacement prescribes.",
  ["inputs", "configurations"], "All element kinds, conforming meshes of any numbering with holes and several components, polynomial solutions, Lame parameters, sufficiently strong quadratures, constrained node lists in any order (also with repetitions), serial and parallel assembly.",
  "Convergence tests run a few uniform meshes of the unit square or cube and compare with stored error values.",
  ["src/assembly/global.rs", "src/assembly/local/elliptic.rs", "src/assembly/local/source.rs", "src/error.rs", "src/space/spatially_indexed.rs", "src/space/fixed_interpolator.rs", "fenris-solid/src/lib.rs", "fenris-solid/src/materials.rs", "fenris-optimize/src/newton.rs", "fenris-sparse/src/cg.rs"],
  [("assembly", "CsrAssembler, CsrParAssembler, VectorAssembler, VectorParAssembler"), ("boundary conditions", "apply_homogeneous_dirichlet_bc_csr / _rhs"), ("solvers", "ConjugateGradient, newton, newton_line_search"), ("error norms", "estimate_L2_error, estimate_H1_seminorm_error"), ("point evaluation", "interpolate_at_points, FixedInterpolator")])
p("P02", "Nested spaces and relabelled or moved meshes represent the same problems",
  "A function of a space, carried over to the mesh converted to a higher order kind, to the uniformly refined mesh or to a relabelled mesh, keeps its integral against any load, its norm, seminorm, mass and energy. Discrete energies never grow when the space is enlarged: the gain is exactly the energy of the difference of the two discrete solutions. Relabelling nodes and cells permutes the discrete solution, and rotating, translating or scaling a mesh changes volumes, norms, energies and solutions exactly by the power of the scale that the dimension dictates.",
  ["inputs", "configurations"], "All element kinds with a conversion or refinement, meshes with distorted cells, cracks, holes and several components, any nodal values, polynomial loads, any node and cell permutation, rigid motions and scales.",
  "Tests compare converted connectivity of small meshes with stored values; no test integrates over or solves on converted, refined or reordered meshes and compares with the original.",
  ["src/mesh_convert.rs", "src/mesh/refinement.rs", "src/mesh/reorder.rs", "src/mesh.rs", "src/assembly/global.rs", "src/assembly/local/elliptic.rs", "src/assembly/local/mass.rs", "src/assembly/local/source.rs", "src/error.rs"],
  [("conversions", "From<Mesh<..>> for meshes of higher order"), ("refinement", "refine_uniformly, refine_uniformly_repeat"), ("reordering", "reorder_mesh_par, MeshPermutation::apply"), ("motions", "Mesh::translate, translated, transform_vertices")])
p("P03", "Single precision computes what double precision computes, up to rounding",
  "The library is generic over the scalar type. The same input given in single and in double precision leads to the same combinatorial results (connectivity, boundaries, orderings, colorings, sparsity patterns, closest elements) and to numbers that differ by rounding only: element maps and their inverses, quadrature rules, converted, refined and generated meshes, assembled matrices and vectors, error norms, interpolated values and gradients, distances and areas, solutions of linear and nonlinear systems.",
  ["inputs", "configurations"], "All element kinds, meshes, materials, rules and solver settings whose conditioning lets single precision resolve the result (condition up to 300), on representable input.",
  "Tests run almost everything in double precision only, so a tolerance or a constant that suits one precision goes unnoticed.",
  ["src/element.rs", "src/element/tetrahedron.rs", "src/element/triangle.rs", "src/element/hexahedron.rs", "src/element/quadrilateral.rs", "src/quadrature.rs", "src/quadrature/subdivide.rs", "src/mesh_convert.rs", "src/mesh/procedural.rs", "src/mesh/refinement.rs", "src/assembly/global.rs", "src/assembly/local/elliptic.rs", "src/assembly/local/mass.rs", "src/assembly/local/source.rs", "src/error.rs", "src/space/spatially_indexed.rs", "src/space/fixed_interpolator.rs", "fenris-geometry/src/lib.rs", "fenris-solid/src/materials.rs", "fenris-sparse/src/cg.rs", "fenris-optimize/src/newton.rs"],
  [("elements", "FiniteElement, map_physical_coordinates, project_physical_coordinates"), ("assembly", "CsrAssembler, CsrParAssembler, VectorAssembler, VectorParAssembler"), ("meshes", "From<Mesh<..>>, refine_uniformly, procedural meshes"), ("point evaluation", "SpatiallyIndexed, FixedInterpolator"), ("solvers", "ConjugateGradient, newton, newton_line_search")])
p("Q03", "Quadrature files are read exactly or refused",
  "The parser of expanded quadrature files returns exactly the points and weights written in a file, in order and as correctly rounded doubles, whatever blank lines, tabs and line ends it has, and reports an error for every file with an entry that is no number or a line with the wrong number of entries. It never panics and never drops lines silently.",
  ["inputs"], "All texts.",
  "Tests read two small files.",
  ["polyquad-parse/src/lib.rs"],
  [("parsers", "parse2d, parse3d")])

# ---------------------------------------------------------------- local assembly
p("L01", "Elliptic energy, residual and stiffness are derivatives of each other",
  "For any material or elliptic operator with an energy, the element residual is the derivative of the element energy with respect to the nodal values and the element stiffness is the derivative of the residual, under the same quadrature. Stiffness matrices of symmetric operators are symmetric, and residual and stiffness annihilate what the operator does not see (constants for the Laplacian, rigid translations for elasticity).",
  ["inputs", "configurations"], "All element kinds, non-degenerate geometries, quadrature tables with per-point data, operators, solution dimensions, and nodal states including large ones.",
  "Tests compare against a few precomputed matrices and one operator per dimension.",
  ["src/assembly/local/elliptic.rs", "src/assembly/operators.rs", "src/assembly/operators/laplace.rs", "src/assembly/buffers.rs"],
  [("element kernels", "assemble_element_elliptic_matrix, assemble_element_elliptic_vector, compute_element_elliptic_energy"), ("element assembler", "ElementEllipticAssembler")])
p("L02", "Mass matrices represent the weighted L2 inner product",
  "For any nodal vectors u and v, v'Mu equals the quadrature of density times the product of the two interpolated functions, so that mass matrices are symmetric, positive semi-definite, reproduce total mass, and act on every component separately.",
  ["inputs", "configurations"], "All element kinds, geometries, solution dimensions, densities per quadrature point, quadrature tables and nodal vectors.",
  "Tests compare a few constants.",
  ["src/assembly/local/mass.rs"],
  [("element mass kernel", "assemble_element_mass_matrix"), ("element assembler", "ElementMassAssembler"), ("density views", "Density::as_inner_slice / from_inner_slice")])
p("L03", "Source vectors represent the load functional",
  "For any source function and nodal vector v, v'f equals the quadrature of the source times the interpolated function, evaluated at the physical quadrature point with that point's own data. Source assembly is linear in the source and consistent with mass matrices for sources in the finite element space.",
  ["inputs", "configurations"], "All element kinds, geometries, source functions, solution dimensions and quadrature tables with data.",
  "Tests compare one mesh with constant sources.",
  ["src/assembly/local/source.rs"],
  [("element source kernel", "assemble_element_source_vector"), ("element assembler", "ElementSourceAssembler")])
p("L04", "Quadrature tables return each element's own points, weights and data",
  "Uniform, general and compact quadrature tables describing the same per-element rules and data are interchangeable: each element is given exactly its own points, weights and data in order, and every assembly using them gives the same result. Replacing or splitting off the data and reassembling a table loses nothing, and lookups of elements outside the table are refused.",
  ["inputs", "configurations", "histories"], "All per-element rules of varying size (also empty ones), data types, maps from elements to rules, and orders of queries.",
  "Tests use tables with at most a few elements and never compare the table kinds with each other under assembly.",
  ["src/assembly/local/quadrature_table.rs", "src/assembly/buffers.rs"],
  [("tables", "UniformQuadratureTable, GeneralQuadratureTable, CompactQuadratureTable"), ("buffer filling", "QuadratureBuffer::populate_element_quadrature_from_table")])
p("L05", "Error norms and integrals of discrete functions are the true integrals",
  "The reported L2 error, H1 seminorm error and domain integrals of a finite element function equal, for integrands the quadrature can represent, the exact integral over the mesh, with the squared norms additive over elements. The error of a function against itself is zero, norms scale with the function, and every integrand evaluation receives the value, gradient and position of the function at the physical quadrature point.",
  ["inputs", "configurations"], "All meshes, element kinds, nodal vectors, solution dimensions, reference functions and quadrature tables.",
  "Tests check some polynomial cases on unit squares and cubes.",
  ["src/error.rs", "src/integrate.rs", "src/util.rs"],
  [("error estimation", "estimate_element_L2_error_squared, estimate_L2_error, estimate_H1_seminorm_error"), ("integration over elements", "ElementIntegralAssembler and integrate_over_* functions"), ("interpolation helpers", "compute_interpolation, compute_interpolation_gradient")])

# ---------------------------------------------------------------- solvers
p("N01", "Conjugate gradients only claims convergence when it converged",
  "When the conjugate gradient solver reports success, the returned vector satisfies the stopping criterion for the given system, for any preconditioner and starting guess; otherwise it reports the failure it met, never exceeds the iteration limit, and reports iterates and iteration counts truthfully. Indefinite operators and preconditioners are reported rather than silently accepted, results do not depend on whether a workspace is reused, and for well-conditioned positive definite systems the solver succeeds.",
  ["inputs", "histories", "fault_sequences"], "All operators (positive definite, indefinite, singular, failing), preconditioners, right-hand sides (also zero), guesses (also exact), tolerances, iteration limits, sizes and workspace histories.",
  "Tests solve one random family of positive definite systems.",
  ["fenris-sparse/src/cg.rs"],
  [("solver loop", "ConjugateGradient::solve_with_guess"), ("stopping criterion", "RelativeResidualCriterion"), ("workspace", "CgWorkspace")])
p("N02", "Newton's method returns only true solutions and respects its limits",
  "When the Newton solver reports success, the residual norm at the returned point is within tolerance (after at least the permitted checks), otherwise the error tells whether the iteration limit, the line search or the user's function failed. It never exceeds the iteration limit, solves linear problems in one iteration, converges near regular solutions, and backtracking only accepts steps with sufficient decrease.",
  ["inputs", "fault_sequences"], "All residual functions and Jacobian solvers (linear, nonlinear, failing, non-convergent, already converged), tolerances, iteration limits and line searches.",
  "Tests run two small problems.",
  ["fenris-optimize/src/newton.rs"],
  [("Newton loop", "newton_line_search"), ("line search", "BacktrackingLineSearch, NoLineSearch")])
p("N03", "Numerical differentiation is second-order accurate and leaves its inputs intact",
  "Numerical Jacobians and gradients equal the true derivatives up to the truncation and rounding error of central differences, are exact up to rounding for quadratic functions, call the function only at perturbed points, and leave the caller's evaluation point unchanged. Vector functions assembled from closures, and references to them, evaluate and solve exactly what the closures define.",
  ["inputs"], "All smooth functions between any dimensions, step sizes and points.",
  "One test function.",
  ["fenris-optimize/src/calculus.rs"],
  [("difference quotients", "approximate_jacobian_fd, approximate_gradient_fd"), ("traits", "VectorFunction, DifferentiableVectorFunction")])

# ---------------------------------------------------------------- solid mechanics
p("H01", "Hyperelastic materials: stress and tangent derive from one energy",
  "For every material model and parameter set the stress is the derivative of the energy density with respect to the deformation gradient and the tangent contraction the derivative of the stress; at rest, energy and stress vanish. Nonlinear models are invariant under superposed rotations and all models are symmetric in their tangent; parameter conversions from Young's modulus and Poisson ratio are consistent with the resulting response.",
  ["inputs", "configurations"], "All material models, spatial dimensions, admissible material parameters and deformation gradients with positive determinant, contraction vectors and scales.",
  "Tests use finite differences at a few fixed deformations.",
  ["fenris-solid/src/materials.rs", "fenris-solid/src/lib.rs"],
  [("materials", "LinearElasticMaterial, NeoHookeanMaterial, StVKMaterial"), ("material to operator adapter", "MaterialEllipticOperator"), ("parameters", "LameParameters, YoungPoisson")])
p("H02", "Matrix factorization helpers return true rotations and eigen bounds",
  "The rotation-variant singular value decomposition returns proper rotations whose product with the singular values reproduces the matrix; analytic polar decomposition returns the rotation of the polar decomposition from any start near it; eigenvalue bounds and condition numbers are those of the matrix. Interpreting flat slices as matrices, and the checked reinterpretations of slices and references, expose exactly the same elements without memory errors or accept only identical types. Matrices and connectivity dumped to files read back equal.",
  ["inputs"], "All square matrices of small dimension (singular, reflected, repeated singular values, badly scaled) and all slices and shapes.",
  "Tests check a few matrices and shapes; reinterpretation safety is not visible to tests.",
  ["src/util.rs"],
  [("factorizations", "rotation_svd, apd"), ("slice reinterpretation", "coerce_col_major_slice(_mut), try_transmute_slice, reshape_to_slice"), ("eigenvalue bounds", "min_max_symmetric_eigenvalues")])

# ---------------------------------------------------------------- geometry
p("G01", "Planar polygons: area, orientation, containment, distance and clipping",
  "For any simple polygon, area and orientation follow the shoelace formula independent of starting vertex, point containment agrees with the winding rule, and closest boundary point and distance are minimal over all edges with the right sign. Clipping a convex polygon by a half plane or another convex polygon yields the set intersection, and triangulation tiles the polygon.",
  ["inputs"], "All simple polygons, convex polygons, half planes, segments and points, including points on edges and vertices up to rounding.",
  "Tests use triangles and squares with a few sample points.",
  ["fenris-geometry/src/polygon.rs", "fenris-geometry/src/primitives/triangle.rs", "fenris-geometry/src/primitives/quad.rs", "fenris-geometry/src/primitives/line.rs", "fenris-geometry/src/polytope.rs"],
  [("polygon queries", "Polygon2d / SimplePolygon2d traits"), ("clipping", "ConvexPolygon intersect functions")])
p("G02", "Lines, segments, triangles, quads and tetrahedra answer queries exactly",
  "Closest points of segments, triangles and tetrahedra lie on the primitive and are closest; containment, intersection of lines and segments with each other, with disks, half planes and polygons, and areas, volumes, centroids and winding numbers agree with their mathematical definition, independent of vertex order where the definition is.",
  ["inputs"], "All non-degenerate primitives of any scale and position, and all query points and primitives in general or boundary position up to rounding.",
  "Tests check selected configurations.",
  ["fenris-geometry/src/primitives/line.rs", "fenris-geometry/src/primitives/triangle.rs", "fenris-geometry/src/primitives/tetrahedron.rs", "fenris-geometry/src/primitives/quad.rs", "fenris-geometry/src/lib.rs"],
  [("closest points", "ClosestPoint-like functions on LineSegment, Triangle, Tetrahedron"), ("intersections", "LineSegment2d::intersect_*"), ("winding numbers", "Triangle3d::compute_solid_angle")])
p("G03", "Polyhedral meshes survive cutting and triangulation with volume intact",
  "Intersecting a valid polyhedral mesh with half spaces yields the part on that side, with closed cells and the matching volume; where the original boundary faces pointed outwards, so do those of the result, including the faces created by the cut; the two sides of a cut add up to the original. Triangulation, vertex de-duplication, concatenation, cell selection and translation preserve what each is meant to preserve, and the reported volume equals the enclosed volume.",
  ["inputs", "histories"], "All valid polyhedral meshes with convex cells, all half spaces (also touching vertices, edges and faces) and sequences of operations.",
  "Tests cut one or two cubes.",
  ["fenris-geometry/src/polymesh.rs", "fenris-geometry/src/lib.rs"],
  [("half space cutting", "PolyMesh3d::intersect_half_space, intersect_convex_polyhedron"), ("triangulation", "triangulate"), ("volume", "compute_volume")])
p("G04", "Axis-aligned boxes: bounds, distances, containment and intersection",
  "Bounding boxes of points and geometry are the smallest boxes containing them; enclosing, intersecting, scaling and growing boxes do what the set operations say; the squared minimum and maximum distance and the closest and furthest point of a box to a point are the extremal values over the box; boxes report their corners, extents and center consistently.",
  ["inputs"], "All boxes (also degenerate ones), points and dimensions.",
  "Proptests cover some distance functions in two dimensions.",
  ["fenris-geometry/src/lib.rs", "fenris-geometry/src/util.rs"],
  [("boxes", "AxisAlignedBoundingBox methods"), ("bounded geometry", "BoundedGeometry implementations")])
p("G05", "Convex polytopes and signed distance shapes describe the sets they claim",
  "Point containment for convex polytopes agrees with the intersection of their half spaces and with the primitives they come from. Signed distance shapes are negative inside, positive outside, zero on the boundary, never exceed the true distance, have gradients matching their values, and lie inside their reported bounding box; combined shapes are the set operations of their parts.",
  ["inputs"], "All shapes, parameters and query points.",
  "Tests sample a few points.",
  ["fenris-geometry/src/sdf.rs", "fenris-geometry/src/polytope.rs", "fenris-geometry/src/primitives/tetrahedron.rs"],
  [("signed distances", "SdfCircle, SdfUnion, SdfAxisAlignedBox"), ("convex polytopes", "ConvexPolyhedron, ConvexPolygon, HalfSpace")])

# ---------------------------------------------------------------- io and containers
p("I01", "Reading mesh files yields the described mesh or an error",
  "Loading a mesh file in the supported format yields exactly the nodes with their coordinates and all cells of the requested kind with the file's node references in the library's local ordering, whatever node numbering blocks, other element kinds and text or binary encoding the file uses. A file that is malformed, inconsistent or unsupported is answered with an error, never a panic or a mesh that refers to missing vertices.",
  ["inputs", "fault_sequences"], "All well-formed mesh files of the supported versions for each supported cell kind, and all files obtained from them by corruption, truncation, inconsistent counts or invalid references.",
  "Tests load a handful of asset files and no malformed one.",
  ["src/io/msh.rs"],
  [("parsing and validation", "load_msh_from_file, load_msh_from_bytes")])
p("I02", "Visualization export describes the same mesh and data",
  "Exporting a mesh with point and cell data yields a data set with the same number of points and cells, the same coordinates (padded to three dimensions), cell types whose node count matches the listed nodes in the target format's ordering, and attributes with the given names, component counts and values. What is written to disk can be read back to the same data set, and data of the wrong size is refused.",
  ["inputs", "configurations"], "All meshes of exportable kinds, attribute names, component counts, value arrays and output encodings.",
  "Tests compare a couple of text snapshots.",
  ["src/io/vtk.rs"],
  [("data set builder", "FiniteElementMeshDataSetBuilder"), ("cell types and orderings", "VtkCellConnectivity implementations")])
p("T01", "Property-testing strategies generate only objects of the promised shape",
  "Whatever random numbers drive them, and through every step of shrinking, the exported strategies generate points, boxes and half planes in their range, triangles and elements with the requested orientation, segments, triangles, parallelograms and quadrilaterals that are not degenerate where this is promised and convex where this is promised, and uniform meshes with at most the given number of cells and whole units of area. The same random numbers give the same value.",
  ["inputs", "histories"], "All random streams and all sequences of shrinking steps of every strategy; all mesh unit lengths and cell limits.",
  "Four small proptests look at freshly generated values only, never at what values shrink to.",
  ["fenris-geometry/src/proptest.rs", "src/proptest.rs"],
  [("geometry strategies", "fenris_geometry::proptest"), ("element and mesh strategies", "fenris::proptest")])

p("D01", "Nested arrays behave like a list of lists",
  "Every sequence of operations on a nested array container has the same observable result as on an ordinary list of lists, including queries outside the range, partially filled arrays, clearing, mutation, conversion and equality. Serialized containers read back equal, and hostile serialized input cannot lead to memory errors.",
  ["histories", "inputs"], "All sequences of appending, in-place building, clearing, mutating and querying, with empty arrays and empty containers.",
  "Tests run a few fixed sequences.",
  ["fenris-nested-vec/src/lib.rs"],
  [("offset representation", "NestedVec"), ("array appender", "ArrayAppender")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
