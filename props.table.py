# Read by mkprops.py: one prop(...) per property.
prop("C01", "Integer-array operations equal their sequence-level definitions",
     "Every operation of the integer arrays (permutation inversion and composition, renumbering, set operations, "
     "searches, sorting, offsets and ranges, indexed (packed) array operations, partitions, slicing and assignment, "
     "arithmetic, reductions) returns exactly what its documented definition on sequences of integers gives, for "
     "arrays of any length, any number of components and both integer widths. Inputs which are not documented as "
     "modified are left as they were, and arguments out of the documented domain are refused by an exception and "
     "never read or written out of the memory of the arrays.",
     ["inputs"], "every array content, length (empty, one, many), number of components, integer width (32 and 64 bits) "
     "and parameter of every operation",
     "The tests check each operation on one or two literal arrays, mostly of the default width and in the common "
     "order; the definition has to hold for every content, duplicates, emptiness and alignment.",
     [MC + "MEDCouplingMemArray.txx", MC + "MEDCouplingMemArray.cxx", MC + "MEDCouplingMemArray.hxx"],
     [("DataArrayDiscrete / DataArrayTools algorithms", MC + "MEDCouplingMemArray.txx"),
      ("bounds checks before access", MC + "MEDCouplingMemArray.txx")],
     ["results of the public Python/C++ API of DataArrayInt32/Int64"],
     "reference-model monitor over generated workloads on the ASan+UBSan build", NOTE)
prop("C02", "Floating-point array operations equal their mathematical definitions",
     "Every operation of the floating-point arrays (arithmetic, reductions, norms and distances, tensor and vector "
     "algebra, coordinate system changes, common-tuple search, sorting, selection, component handling, assignment, "
     "conversion, geometric helpers) returns its mathematical definition on the input values within rounding, for any "
     "number of tuples and components. Inputs not documented as modified stay as they were, and inadmissible shapes "
     "or parameters are refused by an exception.",
     ["inputs"], "every finite content, number of tuples and components, and parameter of every operation",
     "The tests use a few literal arrays per operation; ties, zeros, repeated eigenvalues, unusual component counts and "
     "in-place variants are reached by chance only.",
     [MC + "MEDCouplingMemArray.cxx", MC + "MEDCouplingMemArray.txx", IK + "InterpolationUtils.hxx"],
     [("DataArrayDouble algorithms", MC + "MEDCouplingMemArray.cxx"),
      ("BBTree based tuple search", IK + "BBTreePts.txx")],
     ["results of the public API of DataArrayDouble/Float"],
     "numpy reference-model monitor over generated workloads on the ASan+UBSan build", NOTE)
prop("C03", "Analytic expressions evaluate to their mathematical meaning everywhere",
     "An analytic expression accepted by the arrays, fields and meshes has on every tuple the value that the usual "
     "mathematical reading gives (precedence, associativity, signs, functions, comparisons and conditions, named "
     "variables in their documented order, unit-vector symbols), whichever entry point or evaluation engine is used. "
     "A malformed expression, an unknown variable or function, or a value out of a function's domain is refused with "
     "an exception and leaves the process and the inputs intact.",
     ["inputs", "programs"], "every expression text, tuple value and entry point",
     "The tests evaluate a few dozen fixed formulas; the grammar is unbounded and interactions of operators, "
     "brackets, signs and functions are combinatorial.",
     [IK + "ExprEval/InterpKernelExprParser.cxx", IK + "ExprEval/InterpKernelFunction.cxx",
      IK + "ExprEval/InterpKernelValue.cxx", MC + "MEDCouplingMemArray.cxx"],
     [("ExprParser::parse and the stack machine", IK + "ExprEval/InterpKernelExprParser.cxx"),
      ("applyFunc*/fillFromAnalytic*", MC + "MEDCouplingMemArray.cxx")],
     ["values of applyFunc*, fillFromAnalytic*, fast variants", "exceptions on malformed text"],
     "reference-evaluator monitor over generated expression trees on the ASan+UBSan build", NOTE)
prop("C04", "Mesh topology services agree with set-theoretic definitions",
     "Descending connectivity, edges, reverse nodal connectivity, neighbours, skin and boundary, crossings of a line "
     "of cells, common cells and nodes, zones of connected cells, cells lying on nodes, cell types and their grouping "
     "and node duplication along cracks return exactly what their set-level definition on the cells and their faces, "
     "edges and nodes gives. This holds for every conform or non conform mesh, of any cell types including polygons, "
     "polyhedra and quadratic cells, in any order of cells and nodes.",
     ["inputs"], "every mesh (dimension, cell types and order, numbering, orphan nodes, number of zones)",
     "The tests pin literal connectivities of a handful of tiny meshes.",
     [MC + "MEDCouplingUMesh.cxx", MC + "MEDCoupling1GTUMesh.cxx", MC + "MEDCouplingPointSet.cxx",
      IK + "CellModel.cxx", MC + "MEDCouplingSkyLineArray.cxx"],
     [("cell model tables", IK + "CellModel.cxx"), ("buildDescendingConnectivityGen", MC + "MEDCouplingUMesh.cxx")],
     ["results of the topological services of MEDCouplingUMesh and 1SGTU/1DGTU meshes"],
     "set-definition monitor over generated meshes on the ASan+UBSan build", NOTE)
prop("C05", "Measures, centres, normals, orientation and quality match the geometry",
     "For every mesh, the measure, centre of mass, normal, orientation, diameter, planarity and quality numbers of a "
     "cell equal those of the geometric cell (signs following the documented orientation convention, arcs of "
     "quadratic edges included), independently of the numbering of nodes and cells. The services which check or "
     "correct orientation report exactly the cells which are badly oriented and, when they correct, leave every "
     "geometric cell unchanged apart from its orientation.",
     ["inputs"], "every mesh of dimension 1 to 3 in a space of dimension 1 to 3, any cell types and position",
     "The tests pin numbers on fixed cells, mostly axis aligned and of one type at a time.",
     [IK + "VolSurfFormulae.hxx", IK + "VolSurfUser.cxx", MC + "MEDCouplingUMesh.cxx", MC + "MEDCoupling1GTUMesh.cxx",
      IK + "OrientationInverter.cxx", IK + "DiameterCalculator.cxx"],
     [("calculateAreaForPolyg, calculateVolumeForPolyh ...", IK + "VolSurfFormulae.hxx"),
      ("orientCorrectlyPolyhedrons, orientCorrectly2DCells", MC + "MEDCouplingUMesh.cxx")],
     ["getMeasureField, computeCellCenterOfMass, buildOrthogonalField, are*/orientCorrectly*, get*Field of quality"],
     "direct-geometry monitor over generated meshes on the ASan+UBSan build", NOTE)
prop("C06", "Editing a mesh keeps the geometry it does not document to change",
     "Renumbering cells or nodes, merging close nodes, zipping, extracting or replacing parts, aggregating and fusing "
     "meshes, matching meshes up to permutation, converting to and from polygons, polyhedra and quadratic cells, "
     "simplifying degenerated cells and polyhedra, splitting into simplices, moving, extruding and dualising leave "
     "each geometric cell as documented: coordinates of the connectivity bit for bit when nothing is to move, "
     "measure and first moment when cells are split or converted. The maps returned (old to new, new to old) describe "
     "exactly what happened, and arrays shared with other meshes are not modified.",
     ["inputs", "histories"], "every mesh, permutation, tolerance, selection of cells or nodes, and conversion option",
     "The tests edit a few fixed meshes and compare with literal connectivities; the combinations of cell types, "
     "numberings, degenerated and coincident nodes are unbounded.",
     [MC + "MEDCouplingUMesh.cxx", MC + "MEDCouplingUMesh_internal.cxx", MC + "MEDCouplingPointSet.cxx",
      MC + "MEDCoupling1GTUMesh.cxx", IK + "InterpKernelCellSimplify.cxx", IK + "SplitterTetra.txx"],
     [("mergeNodes/zipCoords/renumber*", MC + "MEDCouplingPointSet.cxx"),
      ("convert*/simplexize/tetrahedrize/buildExtrudedMesh", MC + "MEDCouplingUMesh_internal.cxx")],
     ["the edited meshes and the returned maps"],
     "geometry-conservation monitor over generated meshes and edits on the ASan+UBSan build", NOTE)
prop("C07", "P0P0 remapping is the exact intersection matrix and conserves",
     "MEDCouplingRemapper prepares, for cell fields, the matrix of the measures of the intersections of each target "
     "cell with each source cell, whatever the intersector and splitting policy chosen for convex cells (surfaces, "
     "volumes, lengths, arcs of circle, Cartesian meshes, surfaces of space and mixed dimensions included), or the "
     "location of the centre of each target cell with the point locator. Rows and columns sum up to the measure of "
     "the overlapped part. Every transfer (direct, reverse, partial) is the product of that matrix, normalised as "
     "the nature of the field documents, so integrals and constants are preserved where overlap is complete; default "
     "values go exactly to the entries which meet nothing; the inputs are never modified.",
     ["inputs"], "every pair of meshes of convex cells, intersector, option, nature and number of components",
     "The tests compare a few matrices of fixed small meshes, mostly aligned ones; conservation must hold for every "
     "relative position, cell type and nature.",
     [MC + "MEDCouplingRemapper.cxx", IK + "InterpolationPlanar.txx", IK + "Interpolation3D.txx",
      IK + "PolyhedronIntersectorP0P0.txx", IK + "Geometric2DIntersector.txx",
      IK + "Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx", IK + "SplitterTetra.txx",
      IK + "TransformedTriangle.cxx"],
     [("prepare/synchronize/computeProduct", MC + "MEDCouplingRemapper.cxx"),
      ("intersector kernels", IK + "PlanarIntersectorP0P0.txx")],
     ["crude matrix, transferred fields, default values, inputs"],
     "exact-clipping conservation monitor over generated mesh pairs on the ASan+UBSan build", NOTE)
prop("C08", "Nodal, Gauss and finite element remapping use the true interpolating functions",
     "For nodal fields (P0P1, P1P0, P1P1) MEDCouplingRemapper gives the measures of the intersections of cells with "
     "the dual cells of the nodes, or the integrals of the barycentric functions for the barycentric intersectors; "
     "with the point locator, the mapped barycentric intersector and finite element fields, each target point which is "
     "in a source cell receives the value of the interpolating function of that cell there, so that constants and "
     "fields of the space of the elements (linear, quadratic) are reproduced, and each point out of the source mesh "
     "receives the default value. Gauss fields take the nearest Gauss point of the source cell that holds them. The "
     "shape functions of every reference cell are 1 at their node and 0 at the others, sum up to 1, and their "
     "derivatives are those of their values.",
     ["inputs"], "every pair of meshes, reference cell, position of the target points, and nodal values",
     "The tests compare a few matrices of fixed meshes of two or three cells.",
     [MC + "MEDCouplingRemapper.cxx", IK + "PointLocator3DIntersectorP1P1.txx", IK + "InterpolationUtils.hxx",
      IK + "GaussPoints/InterpKernelGaussCoords.cxx", MC + "MEDCouplingFieldDiscretizationOnNodesFE.cxx",
      IK + "PlanarIntersectorP1P0.txx", IK + "PolyhedronIntersectorP1P0.txx"],
     [("prepareInterpKernelOnly*, prepareNotInterpKernelOnly*", MC + "MEDCouplingRemapper.cxx"),
      ("GaussInfo shape functions", IK + "GaussPoints/InterpKernelGaussCoords.cxx")],
     ["crude matrix, transferred fields, values and derivatives of the shape functions"],
     "dual-cell and shape-function monitor over generated mesh pairs on the ASan+UBSan build", NOTE)
prop("C09", "Spatial searches give what a search over the whole geometry gives",
     "Cells containing points (convex cells of any type in 1-D, 2-D and 3-D, polygons which are not convex, cells with "
     "arcs of circle, Cartesian, image and curvilinear meshes), the distance of points to a line or surface mesh and "
     "the cell it is reached at, cells in a bounding box, nodes on a plane or a line, cells crossing a plane, and "
     "nodes near points are exactly those a direct search over every cell or node finds, but for those within the "
     "tolerance of the decision. The accelerated searches (trees) never lose an answer, points out of the mesh get "
     "none, renumbering the mesh only renames the answers, and the mesh is not modified.",
     ["inputs"], "every mesh, position of the points, plane, line or box, and tolerance",
     "The tests look up a handful of points in fixed meshes; a box tree which drops a candidate or an index "
     "computed along the wrong axis shows for particular positions only.",
     [MC + "MEDCouplingUMesh.cxx", MC + "MEDCouplingPointSet.cxx", IK + "PointLocatorAlgos.txx", IK + "BBTree.txx",
      IK + "VolSurfUser.cxx", MC + "MEDCouplingCurveLinearMesh.cxx", MC + "MEDCouplingCMesh.cxx",
      MC + "MEDCouplingIMesh.cxx"],
     [("getCellsContainingPoint(s)", MC + "MEDCouplingUMesh.cxx"), ("BBTree, BBTreePts", IK + "BBTree.txx"),
      ("DistanceFromPtToTriInSpaceDim3 ...", IK + "VolSurfUser.cxx")],
     ["ids and distances returned by the searches"],
     "brute-force search monitor over generated meshes and points on the ASan+UBSan build", NOTE)
prop("C10", "Intersecting, conformizing and simplifying meshes partitions the same geometry",
     "Intersect2DMeshes and Intersect2DMeshWith1DLine (straight edges and arcs of circle, general position or shared "
     "nodes and edges) cut every cell of the first mesh in pieces which cover it exactly once: areas add up cell by "
     "cell, each piece and each point lies in the cells that the returned arrays name (-1 out of the second mesh), the "
     "pieces of the line follow each other and have the named cells on their left and right. conformize2D and "
     "conformize3D put in each cell exactly the nodes its neighbours have on its edges and faces, colinearize2D and "
     "colinearizeKeepingConform2D remove exactly the nodes that documentation allows, without changing a cell's shape; "
     "the ids returned are those of the changed cells, the others are untouched. colinearizeEdges removes from the "
     "polyhedra exactly the nodes which only cut a straight edge. The union of cells and the order of "
     "the cells of a line are exact. The inputs of the intersections are not modified.",
     ["inputs"], "every pair of clean meshes and lines, relative position and numbering",
     "The tests compare connectivities of a few literal meshes; a missed intersection, a lost node or a swapped "
     "cell id appears for particular relative positions.",
     [MC + "MEDCouplingUMesh_intersection.cxx", IK + "Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx",
      IK + "Geometric2D/InterpKernelGeo2DEdge.cxx", IK + "Geometric2D/InterpKernelGeo2DEdgeArcCircle.cxx",
      IK + "Geometric2D/InterpKernelGeo2DComposedEdge.cxx", MC + "MEDCouplingUMesh.cxx"],
     [("Intersect2DMeshes, BuildMesh2DCutFrom", MC + "MEDCouplingUMesh_intersection.cxx"),
      ("conformize3D, Colinearize2DCell", MC + "MEDCouplingUMesh_intersection.cxx")],
     ["the meshes and arrays returned"],
     "partition monitor (areas, exact clips, point sampling) over generated mesh pairs on the ASan+UBSan build", NOTE)
prop("C11", "Sections by planes and Voronoi cells of Gauss points are exact",
     "Cutting a 3-D mesh (any linear cells, polyhedra) or a surface mesh in 3-D by a plane in general position, through "
     "nodes, along edges or along faces gives cells on the plane, inside the cell they are said to come from, whose "
     "area (length) is that of the exact section of that cell; every cell which the plane crosses is in the result, "
     "fields are cut with the values of their cells, and a plane which misses the mesh is refused. Clipping a cell by a "
     "plane gives the part behind and the part before it, whose volumes are exact and add up. voronoize gives one cell "
     "for each Gauss point in order, with its value; in the reference cell it holds the points nearest to that Gauss "
     "point, and the cells cover the whole reference cell, whatever the number and order of the points.",
     ["inputs"], "every mesh and plane in a supported position, and every set of Gauss points",
     "The tests cut a few literal meshes; a lost section or node depends on how the plane meets faces, edges and nodes.",
     [MC + "MEDCouplingUMesh.cxx", MC + "MEDCouplingUMesh_internal.cxx", MC + "MEDCouplingUMesh_intersection.cxx",
      MC + "MEDCouplingFieldDouble.cxx", MC + "MEDCouplingVoronoi.cxx"],
     [("buildSlice3D, buildSlice3DSurf, clipSingle3DCellByPlane", MC + "MEDCouplingUMesh.cxx"),
      ("Voronizer1D/2D/3D", MC + "MEDCouplingVoronoi.cxx")],
     ["sections, cell ids, parts, Voronoi cells"],
     "exact-section monitor over generated meshes and planes on the ASan+UBSan build", NOTE)
prop("C12", "Structured, AMR and extruded meshes stand exactly for their explicit cells",
     "Cartesian, image and curvilinear meshes of any dimensions (lengths of one cell included) answer as the explicit "
     "mesh they stand for: numbering of nodes and cells, positions, ranges, sub-parts, connectivity, measures, centres, "
     "location of points, sub-level mesh. Index computations on ranges (extract, assign, multiply, intersect, translate, "
     "ghost zones) touch exactly the cells of the range. Refining, spreading and condensing values with different "
     "factors per axis, with or without ghosts, put each value in its cell and keep sums (or means). In a hierarchy of "
     "AMR patches every patch knows its place, the cells without overlap cover the domain once with the finest values, "
     "the patches created from a criterion do not overlap and contain every flagged cell, and synchronising attributes "
     "gives fathers the sum or mean of their sons and ghost cells the value of the brother, cousin or father that "
     "covers them. A mapped extruded mesh finds for each 3-D cell its base cell and level.",
     ["inputs", "operation sequence"], "every grid, range, factor, ghost level not thicker than one coarse cell, and hierarchy of patches",
     "The tests take a few literal grids with mostly equal factors; an axis mixed up with another shows only for some shapes.",
     [MC + "MEDCouplingStructuredMesh.cxx", MC + "MEDCouplingIMesh.cxx", MC + "MEDCouplingCMesh.cxx",
      MC + "MEDCouplingCurveLinearMesh.cxx", MC + "MEDCouplingCartesianAMRMesh.cxx", MC + "MEDCouplingAMRAttribute.cxx",
      MC + "MEDCouplingMappedExtrudedMesh.cxx"],
     [("SpreadCoarseToFine, CondenseFineToCoarse and their ghost forms", MC + "MEDCouplingIMesh.cxx"),
      ("addPatch, createPatchesFromCriterion", MC + "MEDCouplingCartesianAMRMesh.cxx"),
      ("synchronizeFineToCoarse, synchronizeAllGhostZones", MC + "MEDCouplingAMRAttribute.cxx")],
     ["arrays, ids and meshes returned"],
     "numpy reference monitor over generated grids and AMR hierarchies on the ASan+UBSan build", NOTE)
prop("C13", "Field operations attach each value to the same place and compute it exactly",
     "Whatever the discretization (cells, nodes, Gauss points, Gauss points on elements, kriging) and the time "
     "discretization, an operation of a field acts on all its arrays and on nothing else: arithmetic, tensor and "
     "analytic operations equal the same operation value by value; measures, integrals, weighted averages and norms "
     "equal the sums over the places of the field, polyhedra and quadratic cells included; taking a part, renumbering "
     "cells or nodes, merging, zipping, simplexizing or changing the support keeps the value of each remaining place; "
     "conversions between discretizations follow their definition; fields over time give at each instant the slice and "
     "the value interpolated between its bounds; kriging is exact on its points and reproduces affine fields. "
     "Operands are not modified, and incompatible operands are refused.",
     ["inputs", "operation sequence"], "every field, numbering, part and instant",
     "The tests take one literal mesh and mostly one array; a lost end array or a shifted Gauss point shows only for "
     "particular discretizations.",
     [MC + "MEDCouplingFieldDouble.cxx", MC + "MEDCouplingFieldDiscretization.cxx", MC + "MEDCouplingTimeDiscretization.cxx",
      MC + "MEDCouplingFieldOverTime.cxx", MC + "MEDCouplingMultiFields.cxx", MC + "MEDCouplingDefinitionTime.cxx",
      MC + "MEDCouplingFieldDiscretizationOnNodesFE.cxx"],
     [("operations of fields", MC + "MEDCouplingFieldDouble.cxx"),
      ("measures, parts, renumbering by discretization", MC + "MEDCouplingFieldDiscretization.cxx"),
      ("operations on the arrays of a time discretization", MC + "MEDCouplingTimeDiscretization.cxx")],
     ["arrays, supports and times of the results"],
     "numpy reference monitor over generated fields on the ASan+UBSan build", NOTE)
prop("C14", "Copies, pickles and serializations equal their source; any change is seen",
     "A deep copy, a clone, a pickled or a serialized-and-restored object (arrays of every type, meshes of every class, "
     "fields of every discretization and value type, templates, multi fields, Gauss localizations, part definitions, dense "
     "matrices, sky-line arrays) is equal to its source with a null tolerance, in content, names, component "
     "informations, units and time labels, and is independent from it: a change of the copy never shows in the source. "
     "Any single change of a value, a coordinate, a connectivity or its index, a structure, a time label, a nature, a "
     "localization, a name or an information makes isEqual and isEqualIfNotWhy (with a reason) answer different in both "
     "directions; isEqualWithoutConsideringStr ignores exactly the strings; a perturbation is seen exactly when it is "
     "over the tolerance, and a NaN is equal to a NaN only. Light copies share the arrays they are said to share, and "
     "what is given to an object lives exactly as long as it is used, however many times it is given. The time label of "
     "an object, once updated, rises with every change of its contents and with nothing else.",
     ["inputs"], "every object, every elementary change and tolerance",
     "The tests compare a few objects; an attribute forgotten by a comparison, a copy or a serialization is silent.",
     [MC + "MEDCouplingMemArray.txx", MC + "MEDCouplingUMesh.cxx", MC + "MEDCoupling1GTUMesh.cxx", MC + "MEDCouplingCMesh.cxx",
      MC + "MEDCouplingIMesh.cxx", MC + "MEDCouplingCurveLinearMesh.cxx", MC + "MEDCouplingFieldDouble.cxx",
      MC + "MEDCouplingTimeDiscretization.cxx", MC + "MEDCouplingFieldDiscretization.cxx", MC + "MEDCouplingMultiFields.cxx",
      "src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx"],
     [("isEqualIfNotWhy, isEqualWithoutConsideringStr", MC + "MEDCouplingUMesh.cxx"),
      ("getTinySerializationInformation, unserialization", MC + "MEDCouplingPointSet.cxx"),
      ("clone, deepCopy", MC + "MEDCouplingFieldDouble.cxx")],
     ["answers of the comparison services", "full content read without the comparison services"],
     "metamorphic mutation monitor over generated objects on the ASan+UBSan build", NOTE)
prop("C15", "VTK files and debug dumps hold exactly the mesh and the fields written",
     "A file written by writeVTK or WriteVTK, ascii or binary, of any mesh class (unstructured with every cell type, "
     "polygons, polyhedra and mixed meshes, single-type, Cartesian, image, curvilinear, extruded) and of any number of "
     "cell and node fields, read back by an independent reader, gives the nodes, cell types, connectivity, faces, grid "
     "extents, origin and spacing, and every value and component name of the fields; the name returned is the file "
     "written; writeVTHB describes every grid of an AMR hierarchy with its box, spacing and values; LoadForDbg restores "
     "the array of writeForDbg. What cannot be written (unnamed field, fields on different meshes, missing mesh or "
     "array, damaged or unwritable file) is refused by an exception and never crashes.",
     ["inputs"], "every mesh, set of fields and writing mode", "The tests write files without reading them back.",
     [MC + "MEDCouplingUMesh.cxx", MC + "MEDCouplingMesh.cxx", MC + "MEDCouplingFieldDouble.cxx", MC + "MEDCouplingMemArray.cxx",
      MC + "MEDCouplingIMesh.cxx", MC + "MEDCouplingCMesh.cxx", MC + "MEDCouplingCurveLinearMesh.cxx", MC + "MEDCouplingAMRAttribute.cxx"],
     [("writeVTKLL", MC + "MEDCouplingUMesh.cxx"), ("WriteVTK", MC + "MEDCouplingFieldDouble.cxx"),
      ("writeVTHB", MC + "MEDCouplingAMRAttribute.cxx")],
     ["content of the files"],
     "independent file reader as oracle over generated meshes and fields on the ASan+UBSan build", NOTE)
prop("C16", "Graph renumberings are inverse permutations with the order they promise",
     "For every symmetric graph, connected or not, and for the neighbourhood graph of every mesh, each renumbering method "
     "(Boost, METIS) returns a new-to-old and an old-to-new array which are permutations inverse of each other, without "
     "reading out of the graph and without modifying it, and gives them again when called again; the one of Boost is a "
     "reverse Cuthill-McKee ordering (each component contiguous, vertices in the order of their first numbered neighbour, "
     "then of their degree); renumbering the cells of the mesh with it carries its neighbourhood graph along. An unknown "
     "method gives no renumbering, an array which is not allocated is refused.",
     ["inputs"], "every graph", "The tests compare one 9x9 grid.",
     ["src/RENUMBER/RENUMBER_BOOSTRenumbering.cxx", "src/RENUMBER/RENUMBER_METISRenumbering.cxx",
      "src/RENUMBER/RenumberingFactory.cxx"],
     [("BOOSTRenumbering::renumber", "src/RENUMBER/RENUMBER_BOOSTRenumbering.cxx"),
      ("METISRenumbering::renumber", "src/RENUMBER/RENUMBER_METISRenumbering.cxx")],
     ["the two permutations"],
     "graph oracle over generated graphs and meshes on the ASan+UBSan build", NOTE)
prop("C17", "Meshes of MED files keep content and groups through edits, writes and reads",
     "A mesh of a MED file - unstructured with several levels of cells of every type, Cartesian or curvilinear - written "
     "to a file or serialized in memory, then read whole, with others, in part (ranges of cells of each type) or through "
     "the MEDLoader functions, gives the coordinates, the cells, the numbers, the names, the time, the description and "
     "every group of cells or nodes written. After any sequence of edits of groups and families (added, removed, renamed, "
     "on all, simplified, erased by level, families renamed or renumbered) each group holds the entities it should, and "
     "groups, families and their fields agree; extractPart, reduceToCells, zipCoords, Aggregate, linearToQuadratic and "
     "their inverses carry groups and numbers along. Unknown meshes, missing or garbage files are refused by an exception.",
     ["inputs", "histories"], "every mesh, grouping and sequence of edits", "The tests sample fixed meshes and are not built here.",
     [ML + "MEDFileMesh.cxx", ML + "MEDFileMeshLL.cxx", ML + "MEDFileMeshElt.cxx", ML + "MEDLoader.cxx", ML + "MEDFilterEntity.hxx"],
     [("MEDFileUMesh::write", ML + "MEDFileMesh.cxx"), ("MEDFileMesh::addGroupUnderground", ML + "MEDFileMesh.cxx"),
      ("MEDFileUMesh::Aggregate", ML + "MEDFileMesh.cxx")],
     ["content read back", "groups and families after each edit"],
     "model-based monitor over sequences of edits and file round trips on the ASan+UBSan build", NOTE)
prop("C18", "Packed containers and part definitions behave as the sequences they store",
     "A skyline array of one, two or three levels holds exactly the packs given: reading, appending, replacing, removing, "
     "thresholding and grouping packs, and building from or converting to polyhedra, faces and super-packs act as on lists "
     "of lists, and an index outside the packs is refused without reading memory. Part definitions by ids or by slice "
     "(any step) designate the positions they state and still do once deep-copied, composed, added, tested for range or "
     "simplified. Dense matrices obey the rules of linear algebra for sizes, sums, products, transposition, sub-blocks. "
     "Arrays of chars and bytes, and tuples, behave as the sequences of characters they store.",
     ["inputs", "histories"], "every sequence of operations on containers of any size", "The tests sample fixed containers.",
     [MC + "MEDCouplingSkyLineArray.cxx", MC + "MEDCouplingPartDefinition.cxx", MC + "MEDCouplingMatrix.cxx", MC + "MEDCouplingMemArrayChar.cxx"],
     [("MEDCouplingSkyLineArray::replaceSimplePacks", MC + "MEDCouplingSkyLineArray.cxx"),
      ("SlicePartDefinition::composeWith", MC + "MEDCouplingPartDefinition.cxx"),
      ("DenseMatrix::multiply", MC + "MEDCouplingMatrix.cxx")],
     ["content of the containers after each operation"],
     "model-based monitor (Python lists, numpy) over sequences of operations on the ASan+UBSan build", NOTE)
prop("C19", "Shape recognition reports curvatures and primitives of a surface",
     "On any triangulated surface, shape recognition gives every node the unit mean of the normals of its triangles weighted "
     "by area, the principal curvatures and directions fitted on its neighbours, and the primitive (plane, sphere, cylinder, "
     "torus) these curvatures made dimensionless by the mean distance to the neighbours designate. Areas are disjoint sets of "
     "at least the minimum number of nodes, their fields on nodes say the same as their accessors, and a plane, sphere, cylinder, cone or "
     "torus regularly meshed is recognised with its radius, axis, centre, angle, apex. Results move and scale with the surface; "
     "the mesh is left as it was; other meshes, unknown areas and fields asked before recognition are refused by an exception.",
     ["inputs"], "every triangulated surface, position and numbering",
     "The tests recognise five fixed meshes read from MED files, which the build here cannot even run.",
     ["src/ShapeRecogn"],
     [("NodesBuilder::computeCurvatures", "src/ShapeRecogn/NodesBuilder.cxx"),
      ("AreasBuilder", "src/ShapeRecogn/AreasBuilder.cxx"),
      ("Areas::computeConeProperties", "src/ShapeRecogn/Areas.cxx")],
     ["fields of the recognised mesh", "accessors of the areas"],
     "reference-model monitor (numpy) and metamorphic relations over generated surfaces on the ASan+UBSan build", NOTE)
