# Harness registry: which harness entries decide which property, at what bounds.
PROPS = {}
def E(file, entry, quick="", thorough="", covers=(), bounds="", **kw):
    return dict(file=file, entry=entry, quick=quick, thorough=thorough, covers=list(covers), bounds=bounds, **kw)
def P(pid, entries, assumptions=()):
    PROPS[pid] = dict(entries=entries, assumptions=list(assumptions))

P("C01", [
    E("serialize.cc", "h_primitive", "-DVPN=2", "-DVPN=3", ["full", "empty"], "vectors of up to N entries, every value arbitrary (all bit patterns)"),
    E("serialize.cc", "h_plc2", "-DVPN=2", "-DVPN=3", ["holes", "no facets"], "2D PLCs: up to N facets, 1 hole of up to N facets, 2 coordinates; all values arbitrary"),
    E("serialize.cc", "h_plc3", "-DVPN=2", "-DVPN=3", ["holes", "no facets"], "3D PLCs, same sizes"),
    E("serialize.cc", "h_points", "-DVPN=2", "-DVPN=4", ["end"], "2D and 3D points (integer and double) and segments, alone and in vectors of up to N"),
    E("serialize.cc", "h_long", "", "", ["end"], "vectors of 255 to 257, 300, 600 and 70001 elements, the first and last arbitrary"),
    E("serialize.cc", "h_nested", "-DVPN=2", "-DVPN=3", ["end"], "vectors nested three deep, up to N x N x 1"),
])
MPI = ["mpi.cc"]
P("C02", [
    E("quant.cc", "h_q2", "-DVPN=2", "-DVPN=2", ["less", "equal"], "2 points anywhere on the quarter-quantum lattice (2^33 positions per axis) of a square, tall or wide box at 17x17 offsets", src=["src/QuantizedTessellation2d.cc", "src/QuantizedTessellation3d.cc", "src/KeyTraits.cc", "src/predicates.cc"], extra=MPI),
    E("quant.cc", "h_q3", "-DVPN=2", "-DVPN=2", ["end"], "2 points anywhere on the quarter-quantum lattice of a cube at 9^3 offsets", src=["src/QuantizedTessellation2d.cc", "src/QuantizedTessellation3d.cc", "src/KeyTraits.cc", "src/predicates.cc"], extra=MPI),
    E("quant.cc", "h_qbox", "-DVPN=2", "-DVPN=2", ["end"], "2-3 boundary points on a 33x33 lattice", src=["src/QuantizedTessellation2d.cc", "src/QuantizedTessellation3d.cc", "src/KeyTraits.cc", "src/predicates.cc"], extra=MPI),
    E("quant.cc", "h_qint", "-DVPN=2", "-DVPN=2", ["end"], "every in-range pair of 32-bit coordinates", src=["src/QuantizedTessellation2d.cc", "src/QuantizedTessellation3d.cc", "src/KeyTraits.cc", "src/predicates.cc"], extra=MPI),
])
QSRC = ["src/QuantizedTessellation2d.cc", "src/QuantizedTessellation3d.cc", "src/KeyTraits.cc", "src/predicates.cc"]
def T(entry, covers, bounds, **kw): return E("meshtopo.cc", entry, kw.pop("q", "-DVPN=2"), kw.pop("t", "-DVPN=3"), covers, bounds, src=QSRC + ["src/MeshEditor.cc"], extra=MPI, **kw)
P("C03", [T("h_fill", ["end"], "2 x 2 (thorough 3 x 2) quads, arbitrary face orientation of two faces, every in-range 32-bit node coordinate")])
P("C05", [T("h_query2", ["end"], "N x 2 quads, two faces of either orientation"), T("h_query3", ["end"], "N x 2 x 1 hexahedra"), T("h_queryArb", ["end"], "3 faces with arbitrary nodes out of 3 and arbitrary owners out of 2 cells"), T("h_clear", ["end"], "any one of the ten arrays filled with arbitrary values")])
P("C06", [T("h_bound", ["none", "all"], "N+1 faces with arbitrary nodes out of N+1, one or two cells each"), T("h_bound3", ["end"], "N x 2 x 1 hexahedra")])
P("C07", [T("h_del2", ["all kept", "some deleted"], "every keep mask over N x 2 quads, face orientations, shared lists"), T("h_del3", ["all kept", "some deleted"], "every keep mask over N x 2 x 1 hexahedra")])
P("C08", [T("h_edel2", ["deleted"], "every proper subset of N x 2 quads"), T("h_edel3", ["deleted"], "every proper subset of N x 2 x 1 hexahedra"), T("h_clean", ["cleaned", "already clean"], "(N+1) x 2 quads with interior nodes moved along their row and a boundary node along the boundary, 16 positions each")])
GSRC = ["src/KeyTraits.cc", "src/predicates.cc"]
def G(file, entry, covers, bounds, q="", t=None, **kw): return E(file, entry, q, q if t is None else t, covers, bounds, src=GSRC, extra=MPI, **kw)
P("C10", [E("hull.cc", "h_hull2", "-DVPN=4 -DVPR=2", "-DVPN=4 -DVPR=3", ["area", "collinear", "coincident"], "N points on a lattice", src=GSRC, extra=MPI)])
P("C12", [G("plc2.cc", "h_within", ["in", "out"], "5 outer shapes (3 with one or two holes), both orientations, 2 (thorough 3) starting facets; point anywhere on the quarter (thorough eighth) unit lattice around them", q="-DVPM=4 -DVPS=-2", t="-DVPM=8 -DVPS=-3 -DVPR=2")])
P("C13", [G("plc2.cc", "h_nearest", ["end"], "same shapes, facets in loop order, or reversed and mixed in order and direction; point on the half (thorough quarter) unit lattice", q="-DVPM=2 -DVPS=-1", t="-DVPM=4 -DVPS=-2 -DVPR=2")])
P("C14", [G("plc2.cc", "h_intersect", ["hit", "miss"], "same 5 shapes, facets in loop order, or reversed and mixed in order and direction; both end points anywhere on a lattice of spacing 2 over the box (thorough: also outside it)", q="-DVPL=0 -DVPH=4 -DVPT=1 -DVPR=1", t="-DVPL=-1 -DVPH=5 -DVPT=1"),
    G("plc2.cc", "h_intersect", ["hit", "miss"], "the triangle, both orientations; both end points anywhere on the unit lattice of the box (thorough: one beyond)", q="-DVPA=2 -DVPB=2 -DVPR=0", t="-DVPA=2 -DVPB=2 -DVPR=0 -DVPL=-1 -DVPH=9"),
    G("plc2.cc", "h_intersect", ["hit", "miss"], "the concave quad", q=None, t="-DVPA=3 -DVPB=3 -DVPR=0")])
P("C29", [G("geom.cc", "h_seg", ["hit", "miss"], "6 segments (one a point) against every segment of a lattice, both argument orders", q="-DVPR=3", t="-DVPR=6"), G("geom.cc", "h_closest", ["end"], "segment end and point anywhere on a lattice", q="-DVPR=4", t="-DVPR=5"),
    G("geom.cc", "h_rayplane", ["hit", "miss"], "9 x 9 ray directions and plane normals, ray origin and plane point on a lattice", q="-DVPR=3", t="-DVPR=6"), G("geom.cc", "h_raybox", ["end"], "9 directions, every origin on a lattice in the box"), G("geom.cc", "h_raysphere", ["end"], "9 directions, origins and centers on a lattice"), G("geom.cc", "h_raycircle", ["outside", "inside"], "7 directions, origins and centers on a lattice"),
    G("geom.cc", "h_between2", ["in", "out"], "three 2D lattice points"), G("geom.cc", "h_between3", ["in", "out"], "two 3D lattice points and a fixed one", q="-DVPR=2", t="-DVPR=4"), G("geom.cc", "h_cloud2", ["line", "not"], "up to 4 2D points"), G("geom.cc", "h_cloud3", ["line", "not"], "up to 4 3D points"), G("geom.cc", "h_above", ["end"], "line and 1-2 points on a 4x4 lattice"), G("geom.cc", "h_above3", ["end"], "3 normals, origin and 1-2 points on a 3^3 lattice")])
P("C34", [G("geom.cc", "h_circum2", ["end"], "every lattice triangle", q="-DVPR=3", t="-DVPR=4"), G("geom.cc", "h_circum3", ["tet", "end"], "3 fixed edges, two other lattice points", q="-DVPR=3", t="-DVPR=4"), G("geom.cc", "h_tricircum3", ["ok", "degenerate"], "triangles with 6 lattice coordinates free", q="-DVPR=3", t="-DVPR=4")])
P("C19", [G("cell.cc", "h_area", ["end"], "2x2 quads, an interior and a corner node on 5x5 lattices, all orientations of 4 faces"), G("cell.cc", "h_volume", ["end"], "two hexahedra under every shear and shift of a small lattice"), G("cell.cc", "h_tetcell", ["end"], "tetrahedron with a node on a 9x9x5 lattice, face starts and orientations")])
P("C35", [G("cell.cc", "h_bbox2", ["end"], "1 to N points, +-2^16 at 1/16", q="-DVPN=3", t="-DVPN=5"), G("cell.cc", "h_bbox3", ["end"], "same in 3D", q="-DVPN=2", t="-DVPN=4"), G("cell.cc", "h_bboxmpi", ["end"], "2 ranks with 0 to 2 points each")])
P("C09", [G("cell.cc", "h_remove", ["none", "all", "some"], "up to N elements of any value, every subset", q="-DVPN=5", t="-DVPN=8")])
P("C21", [G("cell.cc", "h_bisect", ["end"], "sorted tables (either direction) of up to N entries", q="-DVPN=5", t="-DVPN=8"), G("cell.cc", "h_ipm2", ["known", "new"], "up to N points, tolerance 0 or 1", q="-DVPN=3", t="-DVPN=4"), G("cell.cc", "h_ipm3", ["known", "new"], "same in 3D, the third point only asked about", q="-DVPN=3 -DVPH=2", t="-DVPN=3")])
P("C04", [G("cell.cc", "h_hash2", ["same", "far"], "two points anywhere on the quarter-quantum lattice (2^33 per axis) of the inner or outer box"), G("cell.cc", "h_hash3", ["same", "far"], "same in 3D"), G("cell.cc", "h_hasho2", ["same", "far"], "two points in the outer box left of the inner one"), G("cell.cc", "h_hasho3", ["same", "far"], "same in 3D"), G("cell.cc", "h_uniq2", ["merged", "distinct"], "up to N points on a 16384^2 lattice, with and without tolerance", q="-DVPN=3", t="-DVPN=4"), G("cell.cc", "h_uniq3", ["merged", "distinct"], "same in 3D", q="-DVPN=3", t="-DVPN=4")])
P("C16", [G("plcops.cc", "h_sort", ["open", "closed"], "loops and open chains of 3 to N edges in any order and direction, nodes any distinct numbers up to 7", q="-DVPN=4", t="-DVPN=5"), G("plcops.cc", "h_sort", ["open", "closed"], "triangles and two-edge chains, nodes any distinct non-negative ints", q="-DVPN=3 -DVPM=2147483647")])
P("C17", [G("plcops.cc", "h_simp2", ["clockwise", "counter-clockwise"], "3 polygons, facets from any start, either direction, optional duplicated points, up to 2 extra points at 1/32 positions of any edge"), G("plcops.cc", "h_simp3", ["end"], "a box, cap or side split in two at 1/32 positions, facets from any start", q="-DVPS=1"), G("plcops.cc", "h_simp3", ["end"], "an L-shaped prism", q="-DVPS=2")])
P("C18", [G("plcops.cc", "h_rplc2", ["holes", "no holes"], "N arbitrary points, up to 2 facets and 2 holes of any points", q="-DVPN=3", t="-DVPN=4"), G("plcops.cc", "h_rplc3", ["holes", "no holes"], "same in 3D", q="-DVPN=2", t="-DVPN=4"), G("plcops.cc", "h_valid2", ["valid", "invalid"], "up to 2 facets and 2 holes of up to 2 facets, 0 to 4 points each"), G("plcops.cc", "h_valid3", ["valid", "invalid"], "same in 3D"), G("plcops.cc", "h_box", ["end"], "any low and high corner"), G("plcops.cc", "h_circle", ["end"], "3 to 3N points, center and radius on lattices", q="-DVPN=3", t="-DVPN=6")])
P("C11", [G("convex.cc", "h_hull3", ["extreme", "interior"], "a tetrahedron and one more point, first or last, anywhere on a lattice around it", q="-DVPL=-1 -DVPH=5 -DVPC=1 -DVPA=0 -DVPB=0 -DVPT=1", t="-DVPL=-2 -DVPH=10 -DVPA=0 -DVPB=0"),
    G("convex.cc", "h_hull3", ["extreme", "interior"], "clouds of 7 points with coplanar, collinear and repeated points and one more point, first or last, anywhere on a lattice", q="-DVPL=-1 -DVPH=2 -DVPC=2 -DVPA=3 -DVPB=4 -DVPT=1", t="-DVPL=-1 -DVPH=5 -DVPC=1 -DVPA=3 -DVPB=4 -DVPT=1"),
    G("convex.cc", "h_hull3", ["extreme", "interior"], "a cube or octahedron and one more point", q=None, t="-DVPL=-1 -DVPH=5 -DVPC=1 -DVPA=1 -DVPB=2 -DVPT=1")])
P("C15", [G("convex.cc", "h_conv2", ["meet", "apart", "within"], "5 x 5 convex polygons, one moved anywhere on a half-unit lattice"), G("convex.cc", "h_convtri", ["meet", "apart"], "triangle with a free vertex moved anywhere on a lattice, against a triangle and a rectangle"),
    G("convex.cc", "h_conv3", ["meet", "apart"], "4 x 4 convex polyhedra, one moved anywhere on a lattice", q="-DVPA=0 -DVPB=3 -DVPL=-5 -DVPH=6", t="-DVPA=0 -DVPB=3 -DVPL=-8 -DVPH=9"), G("convex.cc", "h_within3", ["within", "not"], "4 x 4 convex polyhedra, one moved anywhere on a lattice", q="-DVPL=-4 -DVPH=12", t="-DVPL=-12 -DVPH=12")])
BSRC = QSRC + ["src/BoostTessellator.cc", "src/clipQuantizedTessellation2d.cc", "src/snapToBoundary.cc"]
def B(entry, covers, bounds, q="", t=None, **kw): return E("tess.cc", entry, q, q if t is None else t, covers, bounds, src=BSRC, extra=MPI, **kw)
P("C33", [B("h_boxpts", ["end"], "a box given by its corners; 1 fixed and 1 free generator, either order, free one on a 2x2 (thorough 7x7) lattice", q="-DVPN=2 -DVPL=2 -DVPH=4 -DVPT=2", t="-DVPN=2 -DVPL=1 -DVPH=7"),
    B("h_plc", ["end"], "an L-shaped PLC; 1 (thorough 2) fixed and 1 free generator, either order, on a lattice of 9 (thorough 49) points", q="-DVPS=1 -DVPN=2 -DVPL=2 -DVPH=6 -DVPC=0 -DVPT=2", t="-DVPS=1 -DVPN=3 -DVPL=1 -DVPH=7"),
    B("h_plc", ["end"], "a box with a square hole, same generators on a lattice of 4 (thorough 49) points", q="-DVPS=3 -DVPN=2 -DVPL=3 -DVPH=6 -DVPT=3", t="-DVPS=3 -DVPN=3 -DVPL=1 -DVPH=7"),
    B("h_plc", ["end"], "a tilted quadrilateral, same generators", q=None, t="-DVPS=2 -DVPN=2 -DVPL=1 -DVPH=6"),
    B("h_orphans1", [], "one fixed input"), B("h_orphans2", [], "one fixed input")])
DSRC = QSRC + ["src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc"]
def D(entry, covers, bounds, q="", t=None, **kw): return E("dist.cc", entry, q, q if t is None else t, covers, bounds, src=DSRC, extra=MPI, libs=["-Wl,--unresolved-symbols=ignore-all"], **kw)
def DB(entry, covers, bounds, q="", t=None, **kw): return E("distb.cc", entry, q, q if t is None else t, covers, bounds, src=DSRC + ["src/BoostTessellator.cc", "src/clipQuantizedTessellation2d.cc", "src/snapToBoundary.cc"], extra=MPI, libs=["-Wl,--unresolved-symbols=ignore-all"], **kw)
P("C28", [D("h_dist", ["end"], "3 generators on a line in any order and split over 2 ranks, on a lattice of 5 (thorough 8) positions; unbounded, box, PLC and reduced PLC; every rank numbering its mesh differently; buffered and rendezvous sends", q="-DVPN=3 -DVPX=4", t="-DVPN=3 -DVPX=7"),
    D("h_dist", ["end"], "3 (thorough 4) generators over 3 ranks, domain 1024 units wide", q="-DVPN=3 -DVPR=3 -DVPX=3 -DVPC=8", t="-DVPN=4 -DVPR=3 -DVPX=4 -DVPC=8"),
    DB("h_bdist", ["end"], "6 generators on a 3x2 grid, box, every assignment to 2 ranks", q="-DVPN=6"),
    DB("h_bdist", ["end"], "4 grid generators, box, every assignment to 3 ranks", q="-DVPN=4 -DVPR=3", t="-DVPN=6 -DVPR=3"),
    DB("h_bdist", ["end"], "6 (thorough 8) scattered generators, a PLC with a step, every assignment to 2 ranks", q="-DVPN=6 -DVPG=1 -DVPM=2", t="-DVPN=8 -DVPG=1 -DVPM=2"),
    DB("h_bdist", ["end"], "5 scattered generators, box 8192 wide, every assignment to 3 ranks", q=None, t="-DVPN=5 -DVPR=3 -DVPG=1 -DVPC=1024.0")])
P("C27", [D("h_serial", ["end"], "3 generators on a line in any order and split over 2 ranks (ranks may have none), on a lattice of 5 (thorough 8) positions; all four boundary kinds; buffered and rendezvous sends", q="-DVPN=3 -DVPX=4", t="-DVPN=3 -DVPX=7"),
    D("h_serial", ["end"], "3 (thorough 4) generators over 3 ranks", q="-DVPN=3 -DVPR=3 -DVPX=2", t="-DVPN=4 -DVPR=3 -DVPX=4"),
    DB("h_bserial", ["end"], "4 (thorough 6) grid generators, box, every assignment to 3 ranks", q="-DVPN=4 -DVPR=3", t="-DVPN=6 -DVPR=3"),
    DB("h_bserial", ["end"], "5 (thorough 8) scattered generators, a PLC with a step, every assignment to 2 ranks", q="-DVPN=5 -DVPG=1 -DVPM=2", t="-DVPN=8 -DVPG=1 -DVPM=2")])
ISRC = QSRC + ["src/snapToBoundary.cc", "src/clipQuantizedTessellation2d.cc", "src/ErrorHandler.cc"]
def I(entry, covers, bounds, q="", t=None, **kw): return E("tessin.cc", entry, q, q if t is None else t, covers, bounds, src=ISRC, extra=MPI, libs=["-Wl,--unresolved-symbols=ignore-all"], **kw)
P("C31", [I("h_entry", ["end"], "up to N arbitrary generators (any bit patterns), every box on a 9x9 lattice, any PLC point coordinates", q="-DVPN=2"),
    I("h_degen", ["end"], "a fixed and up to N-1 free generators on a lattice with spacings 1 and 0.5 (the tolerance), four boundary kinds", q="-DVPN=3 -DVPL=2", t="-DVPN=4 -DVPL=3"),
    I("h_error", ["end"], "3 errors, handlers switched at any point, any status and message up to 2 characters")])
P("C32", [I("h_snap", ["end"], "a box, with or without a square hole; any one node anywhere on a 1/8 lattice within 0.75 (thorough 1.5) of its place, PLC nodes numbered from three starts", q="-DVPS=6", t="-DVPS=12")])
CSRC = GSRC + ["src/ErrorHandler.cc", "polytope_c/polytope_c.cc", "polytope_c/polytope_plc.cc", "polytope_c/polytope_tessellation.cc", "polytope_c/polytope_tessellator.cc"]
def C(entry, covers, bounds, q="", t=None, src=CSRC, **kw): return E("capi.cc", entry, q, q if t is None else t, covers, bounds, src=src, extra=MPI, libs=["-Wl,--unresolved-symbols=ignore-all"], **kw)
CSGS = dict(src=["src/PLC_CSG.cc", "src/KeyTraits.cc", "src/predicates.cc"], extra=MPI)
OPS = ["union", "intersection", "difference"]
P("C22", [
    E("csg.cc", "h_csg2", "-DVPS=1 -DVPR=6 -DVPD=1", "-DVPS=3 -DVPR=6 -DVPD=1", OPS, "5 first shapes (box, L, diamond, box with a hole, triangle), 2 (thorough 4) second shapes at 7 x 7 offsets; every point of a 13 x 13 lattice off the edges", **CSGS),
    E("csg.cc", "h_csg2", None, "-DVPS=1 -DVPR=14 -DVPD=0.5", OPS, "2 second shapes at 15 x 15 half-unit offsets", **CSGS),
    E("csg.cc", "h_csg2", "-DVPS=0 -DVPR=6 -DVPD=1 -DVPT=int64_t -DVPC=vp_conc -DVPA1=2", "-DVPS=0 -DVPR=7 -DVPD=1 -DVPT=int64_t -DVPC=vp_conc", OPS, "64-bit integer coordinates, one second shape", **CSGS),
    E("csg.cc", "h_csg3", "-DVPS=3 -DVPD=1 -DVPX=0 -DVPR=0", "-DVPS=3 -DVPD=1 -DVPX=0 -DVPR=5", OPS, "cube and box at 36 (thorough 576) offsets; every point of a 10 x 8 x 9 lattice off the faces", **CSGS),
    E("csg.cc", "h_csg3", "-DVPS=3 -DVPD=1 -DVPX=1 -DVPR=0", "-DVPS=3 -DVPD=1 -DVPX=1 -DVPR=5", OPS, "wedge and box, same", **CSGS),
    E("csg.cc", "h_csg3", "-DVPS=3 -DVPD=1 -DVPX=2 -DVPR=0", "-DVPS=3 -DVPD=1 -DVPX=2 -DVPR=5", OPS, "cube and wedge, same", **CSGS),
])
BGS = dict(src=["src/KeyTraits.cc", "src/predicates.cc"], extra=MPI)
P("C23", [
    E("bg.cc", "h_bg", "-DVPA=2 -DVPS=4 -DVPR=2", "-DVPA=2 -DVPS=4 -DVPR=5", ["end", "hole"], "box, L and ring against rectangle and diamond, both directions, 5 x 5 (thorough 8 x 8) offsets; every point of a 13 x 13 lattice off the edges", **BGS),
    E("bg.cc", "h_clip", "-DVPA=2 -DVPS=4 -DVPR=2", "-DVPA=2 -DVPS=4 -DVPR=5", ["orphan", "single"], "a U and a bar at 13 x 7 offsets, both directions, every point of a 6 x 6 lattice in both, any query point", **BGS),
    E("bg.cc", "h_bwithin", "-DVPA=2 -DVPS=4 -DVPR=2", "-DVPA=2 -DVPS=4 -DVPR=5", ["in", "out"], "5 shapes, both directions, every point of a 9 x 9 lattice", **BGS),
    E("bg.cc", "h_bcross", "-DVPA=2 -DVPS=4 -DVPR=2", "-DVPA=2 -DVPS=4 -DVPR=5", ["hit", "apart"], "2 x 2 shapes at 14 x 14 offsets", **BGS),
    E("bg.cc", "h_bg", None, "-DVPA=1 -DVPS=4 -DVPR=5 -DVPT=int64_t", ["end"], "64-bit integer coordinates, shapes without holes", **BGS),
])
P("C24", [C("h_plc2", ["end"], "every sequence of K operations, nodes any ints", q="-DVPK=5", t="-DVPK=6"), C("h_plc3", ["end"], "same in 3D", q="-DVPK=5", t="-DVPK=6"), C("h_text", ["end"], "room for 7 or 60 characters"), C("h_cerr", ["end"], "2 errors of up to 2 characters")])
P("C25", [C("h_mesh2", ["end"], "up to N nodes, cells, faces, boundary entries, neighbors; rows of up to N entries; all values arbitrary", q="-DVPN=2", t="-DVPN=3"), C("h_mesh3", ["end"], "same in 3D", q="-DVPN=2", t="-DVPN=3"), C("h_history2", ["end"], "every history of K fills and clears", q="-DVPK=5", t="-DVPK=6"), C("h_history3", ["end"], "same in 3D", q="-DVPK=4", t="-DVPK=6"),
    C("h_write2", ["end"], "up to 2 fields and 2 tags of up to 2 entries in any one of the centerings", q="-DVPW", src=CSRC + ["polytope_c/polytope_write_silo.cc"]), C("h_write3", ["end"], "same in 3D", q="-DVPW", src=CSRC + ["polytope_c/polytope_write_silo.cc"]),
    C("h_tess", ["end"], "1 to 3 generators, one at several positions; unbounded, box and PLC", q="-DVPB -DVPK=0", t="-DVPB -DVPK=2", src=BSRC + CSRC[2:])])
SSRC = GSRC + ["src/SiloWriter_2d.cc", "src/SiloWriter_3d.cc", "src/SiloUtils.cc"]
def S(covers, bounds, q="", t=None, **kw): return E("silo.cc", "h_silo", q, q if t is None else t, covers, bounds, src=SSRC, extra=MPI, libs=["-Wl,--unresolved-symbols=ignore-all"], **kw)
P("C26", [S(["end"], "2D, 2 ranks, every overload, any number of files, with and without cycle, directory and .silo suffix; topology, values, tags and time arbitrary; two node fields and tags", q="-DVPD=2 -DVPR=2"), S(["end"], "3D, 3 ranks, same; two edge fields and tags", q="-DVPD=3 -DVPR=3 -DVPV=1"),
    S(["end"], "2D, 4 ranks, two face fields and tags", q=None, t="-DVPD=2 -DVPR=4 -DVPV=2"), S(["end"], "3D, 4 ranks, two cell fields and tags", q=None, t="-DVPD=3 -DVPR=4 -DVPV=3")])
P("C30", [
    G("point.cc", "h_ord2", ["end"], "every three 2D points of 32-bit coordinates"), G("point.cc", "h_ord3", ["end"], "every three 3D points of 32-bit coordinates"), G("point.cc", "h_ord2l", ["end"], "64-bit"), G("point.cc", "h_ord3l", ["end"], "64-bit"), G("point.cc", "h_seg", ["end"], "3 segments on a 5 x 5 lattice"),
    G("point.cc", "h_arith2", ["end"], "coordinates up to 32767 in size, factors up to 7"), G("point.cc", "h_arith3", ["end"], "same in 3D"), G("point.cc", "h_real", ["end"], "3 spacings, corners on a lattice of 2^21, positions on a quarter-spacing lattice of 2^32 per axis"), G("point.cc", "h_fuzz", ["end"], "coordinates up to 2^29 in size, fuzz 0 to 5"),
    G("point.cc", "h_maps", ["end"], "up to K keys and edges in any order", q="-DVPK=3", t="-DVPK=5"), G("point.cc", "h_pairs", ["end"], "every two pairs of ints"), G("point.cc", "h_traits", ["end"], "up to 3 indices into 3 or 4 points of arbitrary coordinates"), G("point.cc", "h_length", ["end"], "boxes on a lattice, 3D hulls of 3 or 4 facets"), G("point.cc", "h_centroid", ["end"], "nodes on an eighth-unit lattice of 2^21 positions per axis"),
])
