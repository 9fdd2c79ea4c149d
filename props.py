# Source of properties.jsonl and MANIFEST.json (run gen.py after editing).
PL = []
def PR(pid, title, statement, over, text, why, files, mech, note, observe=(), state=()):
    PL.append(dict(id=pid, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech, note=note, observe=list(observe), state=list(state)))
NA = []   # (id, reason) for properties listed but not claimed
IN = "inputs"
PR("C01", "Serialization round-trips every value exactly",
   "Deserializing a buffer produced by serializing any sequence of supported values (primitives, vectors, nested vectors, 2D/3D PLCs with holes, points, segments) yields bit-for-bit the same values in the same order. It consumes exactly the bytes written, so values packed one after another stay separable.",
   IN, "All element values (every bit pattern) and all container shapes up to the stated sizes.", "test_serialize samples a few random values; domain exchange between processors relies on every value and shape.",
   ["src/polytope_serialize.hh"], [("serialize/deserialize specialisations", "src/polytope_serialize.hh")], "Exhaustive over values and shapes within the sizes given in the registry; larger containers are outside.")
PR("C02", "Quantizing a point is order preserving and within half a quantum",
   "Every point inside the bounding box maps to an integer position whose de-quantized location is within half a quantum of it along each axis, and mapping is monotone along each axis. Integer positions survive a round trip through floating-point coordinates, and the box used encloses all the points it was built from.",
   IN, "All points on the sub-quantum lattice, all boxes in the stated families, all in-range integer coordinates.", "Tests quantize a few generator sets; one off-by-one in the scale only shows at particular coordinates.",
   ["src/QuantizedTessellation2d.cc", "src/QuantizedTessellation2d.hh", "src/QuantizedTessellation3d.cc", "src/QuantizedTessellation3d.hh"], [("constructors, quantize, dequantize", "src/QuantizedTessellation{2d,3d}.cc")], "Exact-real model of the double arithmetic with rounding bounds; box families stated in the registry.")
PR("C03", "Filling a tessellation from its quantized form is faithful",
   "Converting a quantized 2D tessellation to a mesh keeps cells, faces and their signed orientation exactly, places every node at the de-quantized position, and records for every face exactly the cells that use it with the right sign. Faces used by one cell are the boundary faces and their nodes the boundary nodes.",
   IN, "All integer node coordinates, face orientations and the stated mesh shapes.", "Tests only look at meshes the tessellator happens to build.",
   ["src/QuantizedTessellation2d.cc", "src/QuantizedTessellation2d.hh"], [("fillTessellation", "src/QuantizedTessellation2d.cc")], "Bounded by mesh shape (see registry).")
PR("C05", "Mesh queries and clear agree with the mesh they are asked about",
   "The cells around each node, the nodes of each cell and the nodes, faces and emptiness reported by a mesh are exactly those implied by its cell, face and node tables, for any face orientation. Clearing a mesh leaves it empty whatever it held.",
   IN, "All connectivities and orientations of the stated mesh shapes, including arbitrary small face/cell tables.", "Existing tests do not exercise these queries on irregular connectivity.",
   ["src/Tessellation.hh"], [("computeNodeCells, computeCellToNodes, clear, empty", "src/Tessellation.hh")], "Bounded by mesh shape.")
PR("C06", "Boundary elements are exactly the faces used once and their nodes",
   "The boundary faces found for a mesh are exactly the faces belonging to one cell, and the boundary nodes exactly the nodes of those faces, each listed once in increasing order. This holds for any mesh, in 2D and 3D.",
   IN, "All small face tables: arbitrary nodes per face and one or two cells each.", "Tests check one or two regular meshes.",
   ["src/findBoundaryElements.hh"], [("findBoundaryElements", "src/findBoundaryElements.hh")], "Bounded by table size.")
PR("C07", "Deleting cells leaves precisely the kept part of the mesh",
   "After deleting any set of cells every kept cell still has the same faces, node positions and orientation in the same order, no unused node or face remains, and face-to-cell links are consistent. Boundary lists and the lists shared with neighbouring domains refer to the same geometric nodes and faces as before, minus those deleted.",
   IN, "Every keep mask, face orientation and shared-list content of the stated meshes.", "test_MeshEditor deletes one fixed set of cells from one mesh.",
   ["src/deleteCells.hh"], [("deleteCells", "src/deleteCells.hh")], "Bounded by mesh shape.")
PR("C08", "Mesh editing keeps the mesh valid and close to the original",
   "Deleting cells with the mesh editor leaves precisely the kept part of the mesh with consistent links, boundary and shared lists. Cleaning removes every edge shorter than the tolerance, keeps every surviving cell closed with consistent face orientation, moves no boundary node off the boundary, and leaves an already clean mesh unchanged.",
   IN, "Every proper subset of cells; interior and boundary node positions on the stated lattices.", "test_MeshEditor runs one mesh at a time.",
   ["src/MeshEditor.cc", "src/MeshEditor.hh"], [("deleteCells, cleanMesh, flagEdgesForCleaning", "src/MeshEditor.cc")], "Bounded by mesh shape and node lattice; serial.")
PR("C10", "2D convex hull is the convex hull of the input points",
   "The hull of any 2D point set is a closed counter-clockwise loop over input points that turns strictly left at every vertex and has every input point on or inside it. Collinear sets give the single segment spanning all points and coincident sets a single point, and the input is left unchanged.",
   IN, "All point sets of the stated size on the stated lattice, duplicates and collinear sets included.", "test_convexHull_2d hulls a few fixed or random clouds; degenerate arrangements are what breaks hull codes.",
   ["src/convexHull_2d.hh"], [("convexHull_2d", "src/convexHull_2d.hh")], "Exhaustive on the lattice; the tolerance is far below the lattice spacing.")
PR("C12", "Point-in-PLC test is exact on closed outline minus open holes",
   "A point is reported within a 2D complex exactly when it lies inside or on the outer boundary and not strictly inside any hole. The answer does not depend on facet order, starting facet or loop orientation.",
   IN, "All points on a fine lattice around convex, concave and holed outlines, both orientations.", "test_within_2d checks a handful of points.",
   ["src/within.hh", "src/polytope_geometric_utilities.hh"], [("within", "src/within.hh"), ("pointInPolygon, pointOnPolygon", "src/polytope_geometric_utilities.hh")], "Exhaustive over the stated outlines and lattice.")
PR("C13", "Nearest boundary point is on the boundary and truly nearest",
   "The point returned as nearest to a query lies on some outer facet or hole facet of the 2D complex, and the returned distance is both its distance from the query and the minimum distance to the whole boundary.",
   IN, "All query points on a lattice around convex, concave and holed outlines, both orientations.", "test_nearestPoint_2d checks a handful of points.",
   ["src/nearestPoint.hh", "src/polytope_geometric_utilities.hh"], [("nearestPoint", "src/nearestPoint.hh"), ("closestPointOnSegment2D", "src/polytope_geometric_utilities.hh")], "Exhaustive over the stated outlines and lattice, to 1e-9.")
PR("C14", "Segment-boundary intersection reports every crossing once",
   "Intersecting a segment with a 2D complex reports, for every outer or hole facet it meets without being parallel to it, an intersection point lying on both, and reports no point that is on no such facet. No point is reported twice for one loop, previously stored results are kept, and the count returned is the number of points added.",
   IN, "All segments with end points on a lattice against convex, concave and holed outlines, both orientations.", "test_intersect_2d samples random segments through one boundary.",
   ["src/intersect.hh", "src/polytope_geometric_utilities.hh"], [("intersect", "src/intersect.hh"), ("segmentIntersection2D", "src/polytope_geometric_utilities.hh")], "Exhaustive over the stated outlines and end-point lattice.")
PR("C04", "Position hashing is exact, reversible to a quantum and never merges far points",
   "The 64-bit hash of a position keeps every coordinate bit, its top bit tells whether the outer box was used, and unhashing returns a position within one quantum. Equal positions hash equally and positions a quantum apart hash differently, so uniquePoints merges exactly repeated points, never points further apart than the tolerance, and numbers the unique points in order of first appearance.",
   IN, "All pairs of positions on the sub-quantum lattice of the inner and outer box in 2D and 3D, all in-range hash coordinates, all short point lists.", "Truncation of a hash only shows for coordinates in the upper half of the box.",
   ["src/polytope_geometric_utilities.hh"], [("Hasher::hashPosition, unhashPosition, hashedPosition", "src/polytope_geometric_utilities.hh"), ("uniquePoints", "src/polytope_geometric_utilities.hh")], "Boxes of exactly 2^31-1 (2^21-1) quanta so that the arithmetic is exact; lists of up to N points.")
PR("C09", "Removing elements keeps the others in order and maps old to new indices",
   "Removing any set of elements from a vector leaves exactly the other elements in their original order, whatever they hold. The returned map sends each kept old index to its new index and each removed one to -1.",
   IN, "Every vector up to the stated length, every element value and every subset removed.", "test_removeElements removes one fixed subset.",
   ["src/removeElements.hh"], [("removeElements", "src/removeElements.hh")], "Bounded by vector length.")
PR("C19", "Cell areas, volumes, centroids, normals and outlines are those of the cell",
   "The signed area or volume and centroid computed for a mesh cell are those of its polygon or polyhedron whatever the stored orientation of its faces, and face centroids and normals are the mean and right-handed unit normal of the face nodes. A cell turned into a PLC has one facet per face, visits the cell's nodes in order and is outward and closed.",
   IN, "Node positions on lattices, all orientations and starts of the faces of the stated cells.", "Tests only sum cell areas of generated meshes, so compensating or orientation dependent errors pass.",
   ["src/polytope_geometric_utilities.hh"], [("computeCellCentroidAndSignedArea, computeCellCentroidAndSignedVolume, computeFaceCentroidAndNormal, cellToReducedPLC", "src/polytope_geometric_utilities.hh")], "Quads, hexahedra and tetrahedra on lattices; tolerance 1e-9.")
PR("C21", "Integer point map and bisection search find exactly what is there",
   "The integer point map reports a point as known exactly when some known point lies within its tolerance, gives that point's number, and otherwise hands out the next number. Bisection search returns the bracketing index in any sorted table, ascending or descending.",
   IN, "All coordinates in a million-wide range, tolerance 0 and 1, tables up to the stated length.", "There is no direct test of IntPointMap; neighbouring buckets only matter when points straddle them.",
   ["src/IntPointMap.hh", "src/bisectSearch.hh"], [("IntPointMap", "src/IntPointMap.hh"), ("bisectSearch", "src/bisectSearch.hh")], "Bounded by number of points and table length.")
PR("C29", "Geometric predicates and intersections are right on every lattice configuration",
   "Segment-segment, ray-plane, ray-box, ray-sphere and ray-circle intersections are reported exactly when they exist and lie on both objects, and the closest point on a segment is the closest. Betweenness, collinearity of two, three or many points and above/below tests agree with exact arithmetic, independent of argument order where that is meant.",
   IN, "All inputs on the stated lattices, including touching, parallel, collinear and coincident ones.", "test_geometric_utilities-style tests try a few generic cases; degenerate ones decide whether meshes are watertight.",
   ["src/polytope_geometric_utilities.hh"], [("segmentIntersection2D, closestPointOnSegment, rayPlaneIntersection, rayBoxIntersection, raySphereIntersection, rayCircleIntersection, between, collinear, aboveBelow", "src/polytope_geometric_utilities.hh")], "Exhaustive on the stated lattices.")
PR("C34", "Circumcenters are equidistant from the vertices",
   "The circumcenter of a non-degenerate triangle in 2D or 3D or of a tetrahedron is equidistant from all its vertices, and for a triangle in 3D lies in its plane. A degenerate triangle or tetrahedron is reported as such.",
   IN, "All triangles and tetrahedra with free vertices on the stated lattices.", "Tests never call the circumcenter functions directly.",
   ["src/polytope_geometric_utilities.hh"], [("computeCircumcenter2d, computeCircumcenter3d, computeTriangleCircumcenter3d", "src/polytope_geometric_utilities.hh")], "Exhaustive on the stated lattices, to 1e-6 relative.")
PR("C35", "Bounding boxes are exactly the extremes of the points, on every processor",
   "The bounding box of a point set is exactly the minimum and maximum of its coordinates, over all processors when a global reduction is asked for, and every processor gets the same box. Expanding a box covers the old box and the new points and nothing more.",
   "inputs schedules", "All coordinates in a wide range, all distributions of up to two points on each of two ranks, every interleaving.", "Serial tests never run the reduction with an empty rank.",
   ["src/polytope_geometric_utilities.hh"], [("computeBoundingBox, expandBoundingBox", "src/polytope_geometric_utilities.hh")], "Up to N points; 2 ranks, MPI modelled.")
PR("C11", "3D convex hull is the closed outward convex hull of the input points",
   "The hull of any 3D point set with volume is a closed surface of non-degenerate outward triangles over the input points, of sphere topology, with every input point on or inside every facet. Repeated, collinear, coplanar and interior points do not change that, wherever they occur in the input, and the input is left unchanged.",
   IN, "A free point anywhere on a lattice against solids and degenerate clouds.", "test_convexHull_3d hulls a few fixed clouds; degenerate arrangements are what breaks hull codes.",
   ["src/convexHull_3d.hh"], [("convexHull_3d", "src/convexHull_3d.hh")], "Fixed clouds plus one free point; two free points are outside.")
PR("C33", "Bounded Voronoi tessellations give each generator its cell and fill the region",
   "Tessellating distinct generators inside a box or a PLC (concave, tilted or with a hole) with the Boost tessellator gives one counter-clockwise cell per generator, containing it; the cells together fill exactly the region, meet face to face, and the topology (face cells, boundary lists) is consistent. In a convex region every point of a cell is nearest to its own generator. Boundary nodes lie on the PLC and every PLC point is a node.",
   IN, "Every position of a free generator on a lattice, before or after fixed ones, in four regions.", "The tests tessellate random or regular points and look at counts; clipped, orphaned and degenerate cells arise for particular positions only.",
   ["src/BoostTessellator.cc", "src/clipQuantizedTessellation2d.cc", "src/TessellatorInline.hh", "src/QuantizedTessellation2d.cc", "src/snapToBoundary.cc"], [("tessellateQuantized", "src/BoostTessellator.cc"), ("clipQuantizedTessellation", "src/clipQuantizedTessellation2d.cc"), ("tessellate", "src/TessellatorInline.hh"), ("snapToBoundary", "src/snapToBoundary.cc")], "Two to three generators; the Boost.Polygon sweep splits one path per lattice position.")
PR("C15", "Convex intersection and containment tests are exact",
   "Two convex polygons or polyhedra are reported as intersecting exactly when they share a point, touching included, whichever is given first. One is reported within another exactly when every vertex is strictly inside it.",
   IN, "All relative positions on a lattice of pairs of convex shapes, and all triangles with a free vertex.", "test_convexIntersect tries boxes and a few rotations; edge-edge contacts in 3D need separating axes no face provides.",
   ["src/convexIntersect.hh", "src/convexWithin.hh"], [("convexIntersect, compare", "src/convexIntersect.hh"), ("convexWithin", "src/convexWithin.hh")], "Exhaustive over the stated shapes and relative positions.")
PR("C16", "Sorting face edges gives one connected loop",
   "Sorting the edges of a face gives every edge exactly once, with the complement marking those traversed backwards, so that consecutive edges share a node and the loop closes. An open chain of edges gets exactly one new edge joining its loose ends, and a closed loop gets none.",
   IN, "All orders, directions and node numberings of loops and chains up to the stated size.", "Tests only sort what meshes happen to contain.",
   ["src/polytope_internal.hh"], [("computeSortedFaceEdges", "src/polytope_internal.hh")], "Up to N edges.")
PR("C17", "Simplifying the facets of a PLC keeps its shape and orientation",
   "Simplifying a 2D outline or 3D surface removes exactly the repeated points and those in the middle of straight edges, and merges coplanar adjacent facets into one. The remaining corners, facet outlines and their directions are those of the input, whichever point or facet came first.",
   IN, "All positions of inserted points, starts, rotations, directions and duplicated points on convex and concave shapes.", "test_simplifyPLCfacets simplifies one shape in one orientation.",
   ["src/simplifyPLCfacets.hh"], [("simplifyPLCfacets", "src/simplifyPLCfacets.hh")], "Stated polygons and prisms.")
PR("C18", "PLCs: reduced copies, validity and canned shapes",
   "A reduced PLC has the same facets and holes over exactly the points they use, with identical coordinates. A PLC is valid exactly when every facet has enough points, clearing it empties it, and the canned boxes and circles are closed, outward oriented and pass through the requested corners or lie at the requested radius.",
   IN, "All index choices and coordinates within the stated sizes.", "Tests reduce or generate a few fixed shapes.",
   ["src/ReducedPLC.hh", "src/PLC.hh", "src/polytope_plc_canned_geometries.hh", "src/makeBoxPLC.hh"], [("ReducedPLC", "src/ReducedPLC.hh"), ("PLC::valid, empty, clear", "src/PLC.hh"), ("plc_box, plc_circle", "src/polytope_plc_canned_geometries.hh"), ("makeBoxPLC", "src/makeBoxPLC.hh")], "Bounded by the stated sizes.")
PR("C28", "Distributed tessellation: own cells and consistent shared elements per rank",
   "Tessellating generators spread over several ranks leaves on every rank exactly its own cells of the global tessellation, with no leftover nodes or faces, for any distribution of generators. With communication info requested, each rank's neighbors are exactly the ranks it shares a node or face with, both sides list every shared node and face once and in the same order, and shared nodes are bitwise equal. The exchange never deadlocks, mismatches or loses messages.",
   "inputs schedules", "All orders and distributions of a few generators over two and three ranks, all four boundary kinds, buffered and rendezvous sends.", "The MPI tests run one random distribution; neighbor discovery and ordering depend on which rank owns which generator and on the domain's size.",
   ["src/DistributedTessellator.cc", "src/polytope_serialize.hh", "src/deleteCells.hh", "src/QuantizedTessellation2d.cc"], [("computeDistributedTessellation, computeDomainNeighbors", "src/DistributedTessellator.cc"), ("deleteCells", "src/deleteCells.hh"), ("checkDistributedTessellation", "src/checkDistributedTessellation.hh")], "MPI is modelled; strips on a line with symbolic positions, and fixed Boost generators with symbolic ownership; 2D.")
PR("C27", "Serial-distributed tessellation: own cells and consistent shared elements",
   "The serial-distributed tessellator leaves on every rank exactly its own cells of the global tessellation, also when some ranks have no generators. Neighbors are exactly the ranks sharing a node or face, both sides list each shared node and face once, in the same order and with equal coordinates, and the collective calls match on all ranks.",
   "inputs schedules", "All orders and distributions of a few generators over two and three ranks, including empty ranks, all four boundary kinds.", "The MPI tests run one random distribution with generators everywhere.",
   ["src/SerialDistributedTessellator.cc", "src/polytope_serialize.hh", "src/deleteCells.hh"], [("computeDistributedTessellation", "src/SerialDistributedTessellator.cc"), ("deleteCells", "src/deleteCells.hh")], "MPI is modelled; 2D.")
PR("C30", "Points, edges and counters order, combine and number exactly",
   "Integer points have a strict total order by x, y, z that agrees with equality, combine component by component keeping their index, and made from real coordinates above the low corner are the nearest lattice point, from whose real position the same point results. Keys and edges, whichever way round, get dense numbers in order of first use, and counters count from zero. Dimension traits extract the coordinates asked for and measure boxes, hulls and face centres.",
   IN, "All coordinate values (32 and 64 bit) and all positions on the sub-spacing lattice.", "No test calls these directly; maps keyed by points and edges rest on them everywhere.",
   ["src/Point.hh", "src/Segment.hh", "src/polytope_internal.hh", "src/DimensionTraits.hh"], [("Point2, Point3, PointComparator", "src/Point.hh"), ("hashEdge, addKeyToMap, CounterMap, pairCompare", "src/polytope_internal.hh"), ("DimensionTraits", "src/DimensionTraits.hh")], "Points made from coordinates at or above the low corner.")
PR("C31", "Tessellator entry points pass on exactly what they were given",
   "Tessellating in a box is tessellating in its counter-clockwise outline, and a reduced PLC is the same as its points and facets; every generator is passed on unchanged. With repeated generators each distinct one is tessellated once and every input is mapped to the cell of a generator within the tolerance, equal inputs to the same cell. Errors reach the handler set last, with their message and status.",
   IN, "All generator coordinates, all boxes and all coincidence patterns within the bounds, all four boundary kinds.", "Tests with repeated generators only look at one fixed set.",
   ["src/TessellatorInline.hh", "src/makeBoxPLC.hh", "src/polytope_geometric_utilities.hh", "src/ErrorHandler.cc"], [("tessellate, tessellateDegenerate", "src/TessellatorInline.hh"), ("makeBoxPLC", "src/makeBoxPLC.hh"), ("uniquePoints", "src/polytope_geometric_utilities.hh"), ("error, setErrorHandler", "src/ErrorHandler.cc")], "The tessellation itself is replaced by one that records its arguments.")
PR("C32", "Snapping moves nodes exactly onto the boundary and nothing else",
   "After snapping, every PLC point that had a boundary node within the tolerance is exactly a node, and every other boundary node within the tolerance lies at the nearest point of the boundary or on a PLC point. Interior nodes, boundary nodes further away and the topology are unchanged, and no node moves further than the tolerance.",
   IN, "All displacements of any one node on a lattice around a box with and without a hole.", "Tests check meshes whose boundary nodes are already right to rounding.",
   ["src/snapToBoundary.cc", "src/nearestPoint.hh"], [("snapToBoundary", "src/snapToBoundary.cc"), ("nearestPoint", "src/nearestPoint.hh")], "One node displaced at a time, the others by fixed amounts.")
PR("C22", "CSG union, intersection and difference hold exactly the right points",
   "For two PLCs with consistently outward facets, a point lies in the union, intersection or difference exactly when it lies in either, both, or the first only, wherever the shapes touch, overlap, contain or miss each other. The facets of the result are again outward and close the boundary, so results can be combined further. The operands are unchanged and nothing stays allocated.",
   IN, "All offsets of one shape against the other and all query points on the lattice.", "test_PLC_CSG is switched off upstream and looks at three placements.",
   ["src/PLC_CSG_2d.hh", "src/PLC_CSG_3d.hh", "src/PLC_CSG.cc"], [("csg_union, csg_intersect, csg_subtract", "src/PLC_CSG_2d.hh"), ("csg_union, csg_intersect, csg_subtract", "src/PLC_CSG_3d.hh")], "Stated shapes whose edges cross at dyadic points; 64-bit integer coordinates in 2D only.")
PR("C23", "Boost operations on PLCs hold exactly the right points and keep holes",
   "Union, intersection, difference and unionReduce of two PLCs return pieces such that a point lies in exactly one piece when it lies in either, both or the first only of the operands, and in none otherwise; each loop of each piece, holes included, is a proper chain of facets. boost_clip returns the piece holding the given point and the remaining pieces as orphans. Point and crossing tests agree with the shapes.",
   IN, "All offsets, directions and query points on the lattice.", "test_BoostGeometry looks at one pair of polygons without holes.",
   ["src/PLC_Boost_2d.hh"], [("boost_union, boost_intersect, boost_subtract, boost_clip, boost_unionReduce, boost_within, boost_intersects", "src/PLC_Boost_2d.hh")], "Stated shapes; boundaries do not touch a hole in a single point, where Boost.Geometry itself fails.")
PR("C24", "C handles for PLCs and errors behave like the C++ objects",
   "After any sequence of operations a C PLC handle reports exactly the facets, holes and nodes that were added, its emptiness and validity are those of the C++ PLC, and converting either way loses nothing. Text output is terminated, never exceeds the given length and touches nothing beyond it. Errors reach the C handler with their message and status, and freeing handles leaks nothing.",
   "inputs histories", "All operation sequences of the stated length with arbitrary node numbers.", "The one C test builds one PLC of four facets.",
   ["polytope_c/polytope_plc.cc", "polytope_c/polytope_c.cc", "polytope_c/polytope_tessellation.cc"], [("polytope_plc_*", "polytope_c/polytope_plc.cc"), ("polytope_set_error_handler", "polytope_c/polytope_c.cc")], "Sequences of K operations.")
PR("C25", "C tessellation structs carry the whole mesh and own their memory",
   "A C tessellation struct holds exactly the C++ tessellation, each compressed list with matching offsets, converting back gives the same mesh, and the C writer passes on mesh, fields, tags and names unchanged. Any history of creating, filling, clearing and freeing accesses only live memory, frees everything once and leaves cleared structs empty. The C tessellator returns the mesh, name and properties of the C++ one.",
   "inputs histories", "All mesh contents and fill/clear histories within the stated sizes.", "The C test prints a few meshes; it never converts back or clears twice.",
   ["polytope_c/polytope_tessellation.cc", "polytope_c/polytope_tessellator.cc", "polytope_c/polytope_write_silo.cc"], [("fill_tessellation, polytope_tessellator_*", "polytope_c/polytope_tessellator.cc"), ("polytope_tessellation_*", "polytope_c/polytope_tessellation.cc"), ("polytope_write_silo_with_tags", "polytope_c/polytope_write_silo.cc")], "Face cells must not use cell 0 reversed as the second cell (the C format cannot express it).")
PR("C26", "Silo output of all ranks is complete, consistent and under the documented names",
   "After all ranks have written, the master file in the documented place lists every rank's mesh and fields exactly once, each listed path exists, and each holds that rank's coordinates, connectivity, hull, named tags, fields, cycle and time unchanged. This holds for any number of ranks per file, and no rank erases another's data, deadlocks, or leaves a file open.",
   "inputs configurations", "All numbers of files per rank, file naming options and overloads, and arbitrary topology and values of small meshes on 2 and 3 (thorough 4) ranks.", "The tests write files but never read one back, and always one file per rank.",
   ["src/SiloWriter_2d.cc", "src/SiloWriter_3d.cc", "src/SiloUtils.cc", "src/SiloUtils.hh", "src/SiloWriter.hh"], [("SiloWriter<2>::write", "src/SiloWriter_2d.cc"), ("SiloWriter<3>::write", "src/SiloWriter_3d.cc"), ("writeTagsToFile", "src/SiloUtils.cc")], "The Silo library, the file system and MPI are models; ranks are scheduled one at a time.")
