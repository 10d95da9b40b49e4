# Checks per property: see check.py for the meaning of the fields.
TV = "TLA+ specification model-checked with TLC; conformance by TLC trace validation of recorded runs of the real code"
TG = TV + ", with inputs/behaviours generated by TLC from the specification replayed into the code"
def MC(module, cfg=None, **k): return dict(kind="mc", module=module, cfg=cfg or module + ".cfg", **k)
def GR(name, mode, **k): return dict(kind="conf", name=name, src="graph.cpp", args=[mode], trace="GraphTrace", **k)
def VX(name, mode, **k): return dict(kind="conf", name=name, src="voxel.cpp", args=[mode], trace="GridTrace", **k)
def RD(name, mode, **k): return dict(kind="conf", name=name, src="road.cpp", args=[mode], trace="RoadTrace", **{**dict(cflags=["-O1", "-fopenmp"]), **k})
def SE(name, mode, **k): return dict(kind="conf", name=name, src="serial.cpp", args=[mode], trace="WireTrace", cflags=["-O1", "-U_GLIBCXX_ASSERTIONS", "-fsanitize=address"], **k)
CD = dict(src="codec.cpp", trace="CodecTrace", repo_src=["src/arc_utilities/base64_helpers.cpp", "src/arc_utilities/zlib_helpers.cpp"], libs=["-lz", "-lboost_filesystem", "-lboost_system"])
def CO(name, mode, **k): return dict(kind="conf", name=name, args=[mode], **CD, **k)
def SIM(module, cfg, nq, nt, depth, capq, capt): return dict(module=module, cfg=cfg, extra=dict(quick=["-simulate", f"num={nq}", "-depth", str(depth)], thorough=["-simulate", f"num={nt}", "-depth", str(depth)]), cap=dict(quick=capq, thorough=capt), min=min(capq, 20))
def CL(name, mode, **k): return dict(kind="conf", name=name, src="cluster.cpp", args=[mode], trace="ClusterTrace", **k)
AL = dict(src="align.cpp", trace="AlignTrace", repo_src=["src/arc_utilities/first_order_deformation.cpp"])
def AN(name, mode, **k): return dict(kind="conf", name=name, args=[mode], **AL, **k)
UT = dict(src="util.cpp", trace="UtilTrace", repo_src=["src/arc_utilities/timing.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lpthread"])
def UX(name, mode, **k): return dict(kind="conf", name=name, args=[mode], **UT, **k)
def RN(name, mode, **k): return dict(kind="conf", name=name, src="rng.cpp", args=[mode], trace="RandTrace", cflags=["-O1", "-fopenmp"], **k)
def GA(name, mode, **k): return dict(kind="conf", name=name, src="geoma.cpp", args=[mode], trace="GeoTrace", **k)
def GB(name, mode, **k): return dict(kind="conf", name=name, src="geomb.cpp", args=[mode], trace="GeoBTrace", **k)
def RR(name, mode, **k): return dict(kind="conf", name=name, src="rrt.cpp", args=[mode], trace="RrtTrace", **k)
def RB(name, mode, **k): return dict(kind="conf", name=name, src="robot.cpp", args=[mode], trace="RobotTrace", **k)
def FL(name, mode, **k): return dict(kind="conf", name=name, src="flyer.cpp", args=[mode], trace="FlyTrace", **k)
TOTP = ["src/arc_utilities/time_optimal_trajectory_parametrization.cpp"]
RC = "-I" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "harness", "ros_cpp")
def SR(name, mode, **k): return dict(kind="conf", name=name, src="serial.cpp", args=[mode], trace="WireTrace", cflags=["-O1", "-U_GLIBCXX_ASSERTIONS", "-fsanitize=address", "-DWITH_ROS", RC], **k)
def RS(name, mode, **k): return dict(kind="conf", name=name, src="rosc.cpp", args=[mode], trace="RoscTrace", repo_src=["src/arc_utilities/trajectory_utils.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lpthread"], cflags=["-O0", RC], **k)
def TX(name, mode, **k): return dict(kind="conf", name=name, src="text.cpp", args=[mode], trace="TextTrace", libs=["-lboost_filesystem", "-lboost_system"], cflags=["-O0"], **k)
def PY(name, src, mode, trace, **k): return dict(kind="conf", name=name, src=src + ".py", args=[mode], trace=trace, **k)

CHECKS = {
"G01": dict(technique=TG, note="Graph.tla: every edit history up to the bound over 3 nodes; conformance: generated histories, random histories up to 40 edits, mutated node lists",
  jobs=[MC("Graph", min_states=1000), GR("edits", "edits", gen=dict(module="Graph", cfg="GraphGen.cfg", extra=dict(quick=["-simulate", "num=40", "-depth", "9"], thorough=["-simulate", "num=300", "-depth", "9"]), cap=dict(quick=600, thorough=6000), min=100), need_ops=["node", "edge", "both", "link", "self", "edgeto"])]),
"G02": dict(technique=TV, note="Components.tla: flooding algorithm on every undirected graph of 4 (thorough 5) nodes; conformance: every graph up to 4 nodes and half of those of 5 (thorough all), random graphs up to 120 nodes",
  jobs=[MC("Components", dict(quick="Components.cfg", thorough="ComponentsT.cfg"), min_states=100), GR("comp", "comp", need_ops=["comp"], min_events=500)]),
"G03": dict(technique=TV, note="RandomWalk.tla: every graph of 4 nodes, every draw sequence; conformance: random graphs and scripted draw sequences",
  jobs=[MC("RandomWalk", min_states=1000), GR("walk", "walk", need_ops=["rwalk"], min_events=1000)]),
"D01": dict(technique=TG, note="Dijkstra.tla: queue algorithm on all 3-node graphs with weights {none,0,1,3} and all goals (thorough also 4 nodes); conformance: the same graphs enumerated by TLC and random graphs to 60 nodes, judged by a shortest-path certificate",
  jobs=[MC("Dijkstra", min_states=1000), MC("Dijkstra", "DijkstraT.cfg", thorough_only=True),
        GR("dij", "dij", need_ops=["dij"], gen=dict(module="Dijkstra", cfg="DijkstraGen.cfg", cap=dict(quick=4000), min=4000))]),
"D02": dict(technique=TG, note="Astar.tla: re-opening best-first search on all 3-node graphs and admissible heuristics; conformance on TLC-enumerated problems and random graphs to 50 nodes, optimality judged by feasible potentials",
  jobs=[MC("Astar", min_states=1000), MC("Astar", "AstarT.cfg", thorough_only=True),
        GR("astar", "astar", need_ops=["astar"], gen=dict(module="Astar", cfg="AstarGen.cfg", cap=dict(quick=5000), min=5000))]),
"D03": dict(technique=TG, note="Astar.tla with re-opening (GenericAstarSearch) and without re-opening under consistent heuristics (SimpleAStarPlanner); conformance on TLC-enumerated problems and random search spaces",
  jobs=[MC("Astar", min_states=1000), MC("Astar", "AstarCons.cfg", min_states=1000), MC("Astar", "AstarT.cfg", thorough_only=True),
        GR("implicit", "implicit", need_ops=["astar", "plan"], gen=dict(module="Astar", cfg="AstarGen.cfg", cap=dict(quick=5000), min=5000))]),
"V01": dict(technique=TG, note="VoxelGrid.tla: every history of writes, resets and replacements up to the bound on a 2-cell grid with its out-of-range ring; conformance: simulated model histories and random ones over every addressing variant, whole contents compared after each step",
  jobs=[MC("VoxelGrid", min_states=10000), MC("VoxelGrid", "VoxelGridT.cfg", thorough_only=True),
        VX("vmap", "map", need_ops=["ctor", "get", "set", "raw", "resetd", "setd", "seto", "special"], gen=SIM("VoxelGrid", "VoxelGridGen.cfg", 10, 100, 10, 300, 3000))]),
"V02": dict(technique=TV, note="GridOps.tla states cell membership with exact floor division, centres, and rigid placement by signed permutations; conformance over random shapes and poses with boundary points, points a trace before and after faces near and up to 2^40 cells away, poses drifting by tiny steps, plus arbitrary rotations with points clear of faces",
  assumptions=["points exactly on cell faces are only tested where the face coordinates are representable exactly (power-of-two cell sizes)"],
  jobs=[MC("VoxelGrid", min_states=10000), VX("vgeom", "geom", need_ops=["pidx", "centre", "pose", "round", "slots", "face", "drift"])]),
"V03": dict(technique=TG, note="ChunkGrid.tla: every history of cell writes, chunk writes and default changes up to the bound over several chunks including negative ones; conformance: simulated model histories on each axis and random histories in three dimensions, points a trace off cell and chunk faces, and arbitrary cell sizes where every write must be read back at its point",
  jobs=[MC("ChunkGrid", min_states=10000), VX("dsh", "dsh", need_ops=["dget", "dcell", "dchunk", "dref", "dchunks", "ddef", "dface", "dany"], gen=SIM("ChunkGrid", "ChunkGridGen.cfg", 10, 100, 9, 300, 3000))]),
"R01": dict(technique=TV, note="Roadmap.tla: states of a line arriving in any order, any nearest-neighbour tie choice, any re-validation, symmetric and asymmetric distances; conformance: random worlds (validity tables, quasi-metrics, K, duplicate policy) grown, re-validated and queried through every entry point, each step judged against the insertion relation and each answer against a feasible potential; serial and parallel builds",
  jobs=[MC("Roadmap", min_states=500), MC("Roadmap", "RoadmapDup.cfg", min_states=500), MC("Roadmap", "RoadmapT.cfg", thorough_only=True),
        RD("road", "road", need_ops=["extend", "build", "update", "query", "multi", "walk", "badmap"]),
        RD("roadpar", "road", cflags=["-O1", "-fopenmp", "-DENABLE_PARALLEL_ROADMAP"], need_ops=["extend", "query"])]),
"R02": dict(technique=TV, note="Rrt.tla: every growth of one tree of 4 (thorough 5) nodes from every choice of nearest node and batch; conformance: nine entry points with scripted call-backs, every call checked against the growth machine with the whole tree as seen by each call-back; broken trees, node edits and serialised nodes",
  assumptions=["call-backs do not change the tree; trees whose links agree but form a ring are only given to the link check"],
  jobs=[MC("Rrt", dict(quick="Rrt.cfg", thorough="RrtT.cfg"), min_states=2000), RR("uni", "uni", need_ops=["goal", "reached", "added", "term", "sample", "gsample", "nn", "fwd", "res"], min_events=5000), RR("rlink", "link", need_ops=["link", "paths", "edit", "ser"])]),
"R03": dict(technique=TV, note="Rrt.tla with two trees: every growth, role swap and bridge of two trees of 3 (thorough 4) nodes; conformance: four entry points with scripted call-backs; bias and swap rates over long runs, every node of the other tree drawn",
  assumptions=["as R02; states of both trees and samples are distinguishable; rates are judged within six standard deviations of 4000 draws"],
  jobs=[MC("Rrt", dict(quick="RrtTwo.cfg", thorough="RrtTwoT.cfg"), min_states=2000), RR("bi", "bi", need_ops=["conn", "bridge", "added", "term", "sample", "nn", "fwd", "res", "often", "spread"], min_events=5000)]),
"K01": dict(technique=TV, note="Knn.tla: partial top-K search by several workers and merging, for every distance table of 4 (thorough 5) items, every K and every split of the work; conformance: random tables up to 300 items, OpenMP and sequential builds",
  assumptions=["distances are finite and not NaN; single-list distance matrices use a symmetric distance with zero self-distance"],
  jobs=[MC("Knn", dict(quick="Knn.cfg", thorough="KnnT.cfg"), min_states=5000), RD("knn", "knn", need_ops=["knn", "table"]), RD("knnseq", "knn", cflags=["-O1"], need_ops=["knn"])]),
"S01": dict(technique=TG, note="Wire.tla: framing of nested values, every history of writes up to the bound over five nested types, unique read-back at every offset; conformance: simulated model histories and random ones over 28 value families (plain and network variants, Eigen) under AddressSanitizer",
  assumptions=["values are compared by their public contents, bit for bit for floating point; the network form of integers is big-endian"],
  jobs=[MC("Wire", min_states=10000), MC("Wire", "WireT.cfg", thorough_only=True), SE("sprim", "prim", need_ops=["write", "read", "net"], gen=SIM("Wire", "WireGen.cfg", 10, 100, 7, 200, 2000))]),
"S03": dict(technique=TV, note="Wire.tla: records written one after another and read back in any order; conformance: random ROS messages, alone, in vectors and through the generic wrapper, between other bytes, under address checking",
  assumptions=["roscpp's serialization is a stand-in with the same buffer layout (a length, then the message)"],
  jobs=[MC("Wire", min_states=1000), SR("msgs", "msgs", need_ops=["write", "read"], min_events=2000)]),
"S02": dict(technique=TV, note="same framing machine (Wire.tla) with graphs, nodes, edges, Dijkstra results, voxel grids, joints and configurations as values, compared by every public query, re-written byte for byte",
  jobs=[MC("Wire", min_states=10000), SE("scomp", "comp", need_ops=["write", "read"])]),
"B01": dict(technique=TV, note="Base64.tla: bit-streaming encoder against the block definition and inverted, every sequence of 4 (thorough 6) representative bytes; conformance: every sequence of up to two bytes and random longer ones; arbitrary texts are decoded without fault",
  jobs=[MC("Base64", dict(quick="Base64.cfg", thorough="Base64T.cfg"), min_states=5000), CO("b64", "b64", need_ops=["enc", "anytext"], min_events=300)]),
"B02": dict(technique=TG, note="Deflate.tla: the window loop around an arbitrary compression engine loses nothing and ends; FileStore.tla: every history of storing, damaging and loading whole and sliced files; conformance: sizes around the 1 MiB window, truncations, flips, insertions, model-generated file histories, failing devices",
  assumptions=["inputs above 4 GiB (automatic slicing on write) are not exercised; reading of slices is"],
  jobs=[MC("Deflate", min_states=20), MC("FileStore", min_states=300), CO("zlib", "zlib", need_ops=["rt", "hurt", "store", "load", "badwrite", "badload"], gen=SIM("FileStore", "FileStoreGen.cfg", 10, 100, 9, 150, 1500))]),
"C01": dict(technique=TG, note="HClust.tla: mask-and-list agglomeration with any tie choice on every 4-item matrix over {0,1,2}, every threshold, both linkages; conformance: the same problems generated by TLC and random matrices up to 14 items, the result required to be reachable by closest-pair merges; serial and parallel builds",
  assumptions=["the distance matrix is symmetric with finite entries"],
  jobs=[MC("HClust", min_states=10000), CL("hc", "hc", need_ops=["hc"], gen=dict(module="HClust", cfg="HClustGen.cfg", cap=dict(quick=6000), min=5000)),
        CL("hcpar", "hc", cflags=["-O1", "-fopenmp", "-DENABLE_PARALLEL_COMPLETE_LINK_CLUSTERING"], need_ops=["hc"])]),
"C02": dict(technique=TV, note="KMeans.tla: weighted Lloyd iteration from every choice of initial items on every small data set ends in a fixpoint; conformance: random planar data with exact rational averages through all six entry points, every call of the average function logged",
  assumptions=["the caller's average is the weighted mean and accepts an empty list; the distance grows with Euclidean distance; weights are positive"],
  jobs=[MC("KMeans", min_states=10000), MC("KMeans", "KMeansT.cfg", thorough_only=True), CL("km", "km", need_ops=["km", "toomany"], min_events=300)]),
"T01": dict(technique=TV, note="Dtw.tla: every history of evaluator sizes and evaluations over every small cost table equals the minimum over all alignments; conformance: reuse histories with random tables up to 14x14 and every 2x2 table",
  jobs=[MC("Dtw", min_states=500), MC("Dtw", "DtwT.cfg", thorough_only=True), AN("dtw", "dtw", need_ops=["dtw"], min_events=300)]),
"T02": dict(technique=TV, note="PathOps.tla states the directed max-min; conformance: random tables up to 40x40 in both directions, serial and OpenMP builds",
  jobs=[MC("Hausdorff", min_states=500), AN("hd", "hd", need_ops=["hd"], min_events=300), AN("hdpar", "hd", cflags=["-O1", "-fopenmp", "-DENABLE_PARALLEL_HAUSDORFF_DISTANCE"], need_ops=["hd"])]),
"U01": dict(technique=TV, note="Shortcut.tla: every draw, validity relation and limit on a path of 5; conformance: paths to 60 states with logged validity calls replayed through the model, uniform and extreme bit generators",
  jobs=[MC("Shortcut", min_states=5000), MC("Shortcut", "ShortcutT.cfg", thorough_only=True), AN("short", "short", need_ops=["short"], min_events=500)]),
"U02": dict(technique=TV, note="Upsample.tla: every tie choice of the splitting rule is characterised by GreedySplit and optimal; conformance: random planar paths with repeated points, all sections, spacings and counts, including refused ranges, single segments of up to 150000 spacings and lengths differing in the last digit",
  assumptions=["spacing is positive; upsampling sections of one point to more points is excluded (asserted by the code)"],
  jobs=[MC("Upsample", min_states=500), AN("sampling", "sampling", need_ops=["resample", "upsample", "fine", "most"], min_events=500)]),
"F01": dict(technique=TG, note="FirstOrder.tla: best-first search with overwritten parents on every table up to 3x4, any tie order; conformance: every table up to 3x3 generated by TLC, random tables and corridors to 9x9, mazes with corridors along the borders, tables to 91x91 (walks checked step by step, refusals certified by a closed set)",
  jobs=[MC("FirstOrder", min_states=5000), AN("fo", "fo", need_ops=["fo", "fobig"], gen=dict(module="FirstOrder", cfg="FirstOrderGen.cfg", cap=dict(quick=1000), min=300))]),
"N01": dict(technique=TV, note="Neighbours.tla: neighbour relation in a box is symmetric, bounded, irreflexive and complete; conformance: two and three dimensions, double and int, random positions inside and outside random boxes, with rounding functions",
  assumptions=["the position and bounds lie on the grid the rounding function rounds to"],
  jobs=[MC("Neighbours", min_states=1000), AN("nb", "nb", need_ops=["nb", "nbc"], min_events=500)]),
"P01": dict(technique=TG, note="Profiler.tla: every interleaving of start/record/add/timed/reset/reinitialize over the names up to the bound agrees with the plain history; conformance: simulated model histories and random ones, data of every name after each step, elapsed times bracketed by clock readings, all six reports parsed and recomputed",
  assumptions=["names do not end in a number (the reports are parsed by columns)"],
  jobs=[MC("Profiler", dict(quick="Profiler.cfg", thorough="ProfilerT.cfg"), min_states=1000), UX("prof", "prof", need_ops=["prof", "psingle", "pgroup", "pall", "watch"], gen=SIM("Profiler", "ProfilerGen.cfg", 10, 100, 13, 100, 1500))]),
"L01": dict(technique=TG, note="Log.tla: every history of opening, copying, moving, destroying and writing over 2-3 handles and 1-2 files loses nothing when handles append; conformance: simulated model histories, random histories over 5 handles and 3 files, concurrent writers on one log, unopenable files",
  assumptions=["a log that was moved from is only assigned to or destroyed"],
  jobs=[MC("Log", dict(quick="Log.cfg", thorough="LogT.cfg"), min_states=1000), UX("log", "log", need_ops=["log", "logpar", "logbad"], gen=SIM("Log", "LogGen.cfg", 10, 100, 15, 200, 2000))]),
"M01": dict(technique=TG, note="Maybe.tla: every history of construction, assignment, copy, move and modification up to the bound; conformance: the simulated histories and random ones over four value types, validity and both getters of every slot after each step",
  jobs=[MC("Maybe", min_states=1000), UX("maybe", "maybe", need_ops=["maybe"], gen=SIM("Maybe", "MaybeGen.cfg", 10, 100, 15, 200, 2000))]),
"X01": dict(technique=TV, note="Prng.tla: every history of draws, discards, copies and re-seedings over two engines, with the real 64-bit words; conformance: random histories over three engines, every drawn word compared with the specified SplitMix64 / xorshift128+ / xorshift1024* step",
  jobs=[MC("Prng", dict(quick="Prng.cfg", thorough="PrngT.cfg"), min_states=500), RN("eng", "eng", need_ops=["edraw", "eskip", "eseed", "ecopy", "erange"])]),
"X02": dict(technique=TV, note="Bits.tla: histories of bit changes against the set of ones; TruncNormal.tla: every choice of method by the bounds stays in the interval; conformance: words of all widths, ranges on and around their limits, truncated normals with finite and infinite bounds on either side of the mean",
  assumptions=["an interval around the mean is not extremely narrow (the accept-reject loop would be slow)"],
  jobs=[MC("Bits", min_states=500), MC("TruncNormal", min_states=1000), RN("bounded", "bounded", need_ops=["bit", "clamp", "tbound"])]),
"X03": dict(technique=TV, note="TruncNormal.tla: every value of the interval can be drawn; conformance: shares of samples per cell against the exact masses (six deviations), distribution functions against independently computed values, sample moments of multivariate Gaussians including singular covariances, unit norm and moments of random rotations, extreme draws",
  jobs=[MC("TruncNormal", min_states=1000), RN("dist", "dist", need_ops=["tshare", "tcdf", "gcdf", "mvg", "rot"])]),
"X04": dict(technique=TV, note="ColourRamp.tla: the hot-to-cold ramp over its whole range stays valid, continuous, monotone and injective, and hex channels survive the round trip; conformance: constructors, setters, builders, conversions, interpolation, scaling, colour codes",
  jobs=[MC("ColourRamp", min_states=1000), RN("colour", "colour", need_ops=["hexrt", "uniq", "useq", "colours", "cmix", "hot"])]),
"X05": dict(technique=TV, note="MapBuild.tla: every sequence of pairs up to the bound; conformance: random pair lists with repeated keys, lookups in both kinds of map, substring tests",
  jobs=[MC("MapBuild", min_states=500), RN("map", "map", need_ops=["map", "substr"])]),
"X06": dict(technique=TV, note="Calendar.tla: living day by day through 1970-2037 (thorough: six centuries) meets the closed form of the date on every day and never goes back; conformance: the wall clock and time zone set by the harness to arbitrary instants and to the turns of minutes, hours, noon, days, leap days and years; stamps, log headers and profile headers compared in full; sleeps measured",
  assumptions=["time zones with a fixed offset"],
  jobs=[MC("Calendar", dict(quick="Calendar.cfg", thorough="CalendarT.cfg"), min_states=10000), dict(kind="conf", name="stamp", src="stamp.cpp", args=[], trace="StampTrace", repo_src=["src/arc_utilities/timing.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lpthread"], cflags=["-O0"], need_ops=["clock", "stamp", "sleep"], min_events=1000)]),
"Q01": dict(technique=TV, note="Circle.tla: exact circle arithmetic over all integer angles within several turns; conformance: multiples of pi/8 (exact in floating point) many turns out and arbitrary angles",
  assumptions=["whether an angle exactly on the end of a range belongs to it is only tested where the angles involved are floating point numbers"],
  jobs=[MC("Circle", dict(quick="Circle.cfg", thorough="CircleT.cfg"), min_states=1000), GA("rev", "rev", need_ops=["uwrap", "udist", "uinterp", "urange", "ubounds", "rang"])]),
"A01": dict(technique=TV, note="Average.tla: running weighted mean against the definition in every order; conformance: random lists with zero and leading zero weights, scalars, vectors, spread and path lengths",
  jobs=[MC("Average", dict(quick="Average.cfg", thorough="AverageT.cfg"), min_states=1000), GA("avg", "avg", need_ops=["avg", "spread", "path"])]),
"A02": dict(technique=TV, note="RotMean.tla: the weighted alignment form over the eight quaternion units; conformance: random rotations with flipped signs, the result certified as dominant direction of the weighted outer products",
  assumptions=["weights enter the rotation average squared, as in the averaging method the code cites"],
  jobs=[MC("RotMean", min_states=1000), GA("rot", "rot", need_ops=["rotavg", "poseavg"])]),
"H01": dict(technique=TV, note="PoseGroup.tla: the group of quarter-turn poses, adjoints and twists; conformance: rotations by exact rational sines and cosines, judged by integer matrices",
  assumptions=["twists between poses more than about 160 degrees apart are not exercised (the logarithm is ill-conditioned at half a turn)"],
  jobs=[MC("PoseGroup", dict(quick="PoseGroup.cfg", thorough="PoseGroupT.cfg"), min_states=200), GB("pose", "pose", need_ops=["inear", "rtiny", "rpy", "rotv", "skew", "adj", "exp", "shift", "between", "interp", "rdist", "same"])]),
"H02": dict(technique=TV, note="Project.tla: projections, nearest points and damped normal equations over small integer vectors; conformance: random integer vectors and matrices of every shape and rank, results certified by their defining equations",
  assumptions=["matrices have no singular value between 1e-9 and 0.3, so that rank is decided the same way in exact and floating point arithmetic"],
  jobs=[MC("Project", min_states=5000), MC("Project", "ProjectT.cfg", thorough_only=True), GB("lin", "lin", need_ops=["proj", "plane", "toplane", "line", "angle", "wdot", "clamp", "fit", "pinv", "wls", "under", "cone"])]),
"H03": dict(technique=TV, note="PairTable.tla: a table of pairwise distances filled in any order by any worker; conformance: random vectors and point sets, every element compared exactly",
  jobs=[MC("PairTable", min_states=1000), GA("conv", "conv", need_ops=["same", "split", "quat", "table", "dist", "vec", "pair", "close", "find", "move"])]),
"W01": dict(technique=TV, note="Spline.tla: every history of setting, solving and asking, the fit always that of the control points in force; conformance: random histories in 2 and 3 dimensions with affine and general targets",
  jobs=[MC("Spline", min_states=1000), GB("tps", "tps", need_ops=["tset", "tsolve", "tnew", "tat"])]),
"W02": dict(technique=TV, note="Quat.tla: rigid motions as integer quaternions, their matrices, products and inverses; conformance: random motions, points, lists and frames through every conversion and builder, components compared exactly where no rotation is involved",
  assumptions=["messages are plain structs with the fields of the real ones; quaternions read as motions are of unit length"],
  jobs=[MC("Quat", dict(quick="Quat.cfg", thorough="QuatT.cfg"), min_states=1000), RS("convs", "conv", need_ops=["pts", "lists", "comps", "mats", "poses", "posel", "move"])]),
"W03": dict(technique=TV, note="Traj.tla: every history of appended pieces, times rising, durations added, nothing moved; conformance: random trajectories with equal, shorter, longer and permuted joint lists, appended one after another",
  assumptions=["a trajectory is not appended to itself"],
  jobs=[MC("Traj", min_states=500), RS("append", "append", need_ops=["append"])]),
"W04": dict(technique=TV, note="the parameter server as a map of typed values changed between reads; every helper's answer is decided by the map; conformance: random histories over two namespaces, all helpers, all value types",
  assumptions=["a stand-in parameter server: whole numbers read as floating point numbers and back, other types do not convert"],
  jobs=[RS("params", "param", need_ops=["set", "del", "get"], min_events=1500)]),
"W05": dict(technique=TG, note="Aligned.tla: the operations on four components with a one at the end refine those on three; conformance: simulated model histories and random ones in both precisions over every operation",
  jobs=[MC("Aligned", min_states=1000), RS("aligned", "aligned", need_ops=["al"], gen=SIM("Aligned", "AlignedGen.cfg", 100, 1000, 13, 100, 1000))]),
"W06": dict(technique=TV, note="WaitNew.tla: every interleaving of the callback with getting and waiting, with and without a lock; conformance: random scripts of deliveries, stops, restarts and shutdown around every call, and real threads with handles that notice being read while written",
  assumptions=["roscpp's queue and spinner are stand-ins that deliver in order and keep the newest message of a full queue"],
  jobs=[MC("WaitNew", min_states=1000), RS("listen", "listen", need_ops=["lact", "lget", "lwait", "lrace"])]),
"W07": dict(technique=TV, note="PrettyText.tla: bracketed texts of nested values read back to the same value, for every value up to the bound; conformance: random values of some forty nested types with every separator, against the text built by the specification",
  jobs=[MC("PrettyText", dict(quick="PrettyText.cfg", thorough="PrettyTextT.cfg"), min_states=500), TX("pretty", "pretty", need_ops=["print", "dyn", "iso", "stream"])]),
"W08": dict(technique=TV, note="maps keyed by hashed values against a plain map over every random history of inserts, writes, erases and finds; directories below a scratch directory as a set of paths; index search, numbering and exception texts by their definitions",
  jobs=[TX("small", "small", need_ops=["hash", "find", "enum", "raise", "mkdir", "file"], min_events=3000)]),
"E01": dict(technique=TV, note="robots as trees of joints: poses as exact integer kinematics after any history of positions, base moves and copies; Jacobian columns from joint axes; which link and joint lists are robots",
  jobs=[MC("Robot", dict(quick="Robot.cfg", thorough="RobotT.cfg"), min_states=500), RB("fk", "fk", need_ops=["mk", "set", "base", "again", "clone", "wrong", "query"]), RB("models", "models", need_ops=["model"])]),
"E02": dict(technique=TV, note="joint values under any history of assignments; distances, interpolation and averages of configurations on exact grids",
  jobs=[MC("Joint", min_states=200), RB("joint", "joint", need_ops=["jmk", "jset", "jcopy", "jdup", "jin", "jdist", "conf", "cavg"])]),
"E03": dict(technique=TV, note="Flyer.tla: every history of setting and copying planar robots with a cached pose; conformance: random histories of planar and spatial robots, Jacobians, distances, interpolations and averages on exact grids of poses",
  jobs=[MC("Flyer", dict(quick="Flyer.cfg", thorough="FlyerT.cfg"), min_states=500), FL("plane", "plane", need_ops=["pmk", "pset", "pclone", "pquery", "pdist", "pmix", "pavg", "bytes"]), FL("space", "space", need_ops=["smk", "sset", "sclone", "squery", "sdist", "smix", "savg", "bytes"])]),
"E04": dict(technique=TV, note="Touch.tla: the table of every list of pairs built pair by pair; conformance: random robots, names, geometries and lists, every pair queried after every move and copy",
  jobs=[MC("Touch", min_states=1000), FL("geom", "geom", need_ops=["gmk", "gdo", "gone"])]),
"E05": dict(technique=TG, note="Arm.tla: every arm under every short history of quarter turns; conformance: those configurations and random ones with exact cosines, joint maps and base poses, every link to a micrometre",
  jobs=[MC("Arm", dict(quick="Arm.cfg", thorough="ArmT.cfg"), min_states=1000), FL("arms", "arms", gen=dict(module="Arm", cfg="ArmGen.cfg", min=500), need_ops=["arm"])]),
"O01": dict(technique=TV, note="paths through lattice way points checked as curves; recorded trajectories within limits and as fast as the specification's own two-pass optimum (exact for straight lines); any order of queries on any copies",
  jobs=[MC("Totp", dict(quick="Totp.cfg", thorough="TotpT.cfg"), min_states=5000), dict(kind="conf", name="traj", src="totp.cpp", args=["traj"], repo_src=TOTP, trace="TotpTrace", need_ops=["path", "traj", "opt", "ask", "tcopy", "tdrop"]), dict(kind="conf", name="line", src="totp.cpp", args=["line"], repo_src=TOTP, trace="TotpTrace", need_ops=["line"])]),
"Y01": dict(technique=TV, note="Chunk.tla: every input sequence up to the bound through the buffering algorithms, front and back, and zipping with repetition, also how far a one-pass input is consumed; conformance: the model's cases and random sequences, generators, sizes",
  jobs=[MC("Chunk", dict(quick="Chunk.cfg", thorough="ChunkT.cfg"), min_states=1000), PY("seq", "pyseq", "seq", "SeqTrace", gen=dict(module="Chunk", cfg="ChunkGen.cfg", min=1000), need_ops=["chunk", "rchunk", "zip", "repeat", "unique"])]),
"Y02": dict(technique=TV, note="NestDict.tla: leaf-by-leaf merge of every pair of nested dictionaries against key paths; conformance: the model's histories of updates and random nested dictionaries, aliasing and rounding",
  jobs=[MC("NestDict", min_states=1000), PY("dicts", "pyseq", "dicts", "SeqTrace", gen=SIM("NestDict", "NestDictGen.cfg", 400, 3000, 30, 1500, 8000), need_ops=["dictup", "round"])]),
"Y03": dict(technique=TV, note="FsTree.tla: removal of every directory tree with links up to the bound, one entry at a time; conformance: random trees with links inside and out, answers, thresholds and free paths, run as an unprivileged user with guarded calls",
  assumptions=["listings that contain a directory twice or inside another, answers other than y and n, and dangling links as free paths are not judged"],
  jobs=[MC("FsTree", dict(quick="FsTree.cfg", thorough="FsTreeT.cfg"), min_states=200)] + [PY(m, "pyfs", m, "FsTrace", gen=dict(module="FsTree", cfg="FsTreeGen.cfg", min=100), need_ops=o) for m, o in (("rm", ["rm"]), ("ask", ["ask"]), ("scripts", ["script"]), ("queries", ["query", "free", "mkdir", "append"]))]),
"Y04": dict(technique=TV, note="Timeout.tla: every placement of alarms over the steps of calls and generators with every ending; conformance: those histories with the alarm fired at exact lines of the real code, and real alarms",
  assumptions=["an alarm that arrives in the wrapped function while it raises its own TimeoutError may be reported either way"],
  jobs=[MC("Timeout", dict(quick="Timeout.cfg", thorough="TimeoutT.cfg"), min_states=1000), PY("timeouts", "pytime", "timeouts", "TimeTrace", gen=dict(module="Timeout", cfg="TimeoutGen.cfg", min=1000, cap=dict(quick=1500, thorough=5000)), need_ops=["call", "prod", "item", "cb", "stop", "fire", "real"])]),
"Y05": dict(technique=TV, note="CondTry.tla: every ending of the function with and without catching; conformance: every kind of exception, result and argument list",
  jobs=[MC("CondTry", min_states=8), PY("guarded", "pyseq", "guarded", "SeqTrace", gen=dict(module="CondTry", cfg="CondTryGen.cfg", min=8), need_ops=["try"])]),
"Y06": dict(technique=TV, note="Travel.tla: walking along every lattice polyline from every start and distance; conformance: the model's walks and random polylines with exact lengths in 2 and 3 dimensions, closest points certified against every segment",
  jobs=[MC("Travel", dict(quick="Travel.cfg", thorough="TravelT.cfg"), min_states=1000), PY("polylines", "pypath", "polylines", "PolyTrace", gen=dict(module="Travel", cfg="TravelGen.cfg", min=1000, cap=dict(quick=2500, thorough=7007)), need_ops=["closest", "travel", "densify", "reverse", "clamp", "dist", "cseg", "axis"])]),
"Y10": dict(technique=TV, note="Cubic.tla: integer cubics by their values and derivatives at both ends; conformance: random scalar and vector boundary conditions and durations",
  jobs=[MC("Cubic", dict(quick="Cubic.cfg", thorough="CubicT.cfg"), min_states=100), PY("polys", "pypath", "polys", "PolyTrace", need_ops=["poly"])]),
"Y11": dict(technique=TV, note="FileSize.tla: a reader of size texts character by character against the grammar; conformance: every short text over the alphabet and random longer ones",
  assumptions=["sizes up to 10^15 bytes (the range in which every whole number of bytes is a floating point number)"],
  jobs=[MC("FileSize", dict(quick="FileSize.cfg", thorough="FileSizeT.cfg"), min_states=1000), PY("sizes", "pyseq", "sizes", "SeqTrace", gen=dict(module="FileSize", cfg="FileSizeGen.cfg", min=1000, cap=dict(quick=16200, thorough=16200)), need_ops=["size"])]),
"Y12": dict(technique=TV, note="Quat.tla: products of integer quaternions against their matrices, points and half angles, for every pair up to the bound; conformance: random rotations made from integer quaternions with integer translations, every operation judged exactly over the common denominator",
  jobs=[MC("Quat", dict(quick="Quat.cfg", thorough="QuatT.cfg"), min_states=1000), PY("transforms", "pytf", "transforms", "PyTfTrace", need_ops=["compose", "invert", "act", "points", "convert", "quats", "axis", "spin", "dh", "sphere", "place", "array", "unit", "markers", "norm", "posemsg", "positions"])]),
"Y13": dict(technique=TV, note="ColorMap.tla: a value sweeping its range through both maps; conformance: every hundred-and-twentieth of the range and beyond, random colours through every colour space and the diverging map",
  assumptions=["the diverging map is not judged at an end whose colour is nearly but not exactly grey when the other end is saturated"],
  jobs=[MC("ColorMap", dict(quick="ColorMap.cfg", thorough="ColorMapT.cfg"), min_states=50), PY("colours", "pytf", "colours", "ColorTrace", need_ops=["hot", "jet", "range", "make", "tomsg", "space", "warm"])]),
"Y07": dict(technique=TV, note="Listener.tla: every interleaving of deliveries, readers and shutdown; conformance: the real listener under the model's schedules, random bytecode-level schedules and every schedule with few forced switches, judged as a register whose operations take effect within their time",
  assumptions=["threads switch at the lines or bytecodes of listener.py and ros_helpers.py and at lock operations"],
  jobs=[MC("Listener", dict(quick="Listener.cfg", thorough="ListenerT.cfg"), min_states=1000), PY("listener", "pylisten", "listener", "ListenTrace", gen=SIM("Listener", "ListenerGen.cfg", 500, 2000, 60, 700, 3000), need_ops=["put", "puts", "ask", "got", "cb", "made", "down", "late"])]),
"Y08": dict(technique=TV, note="ReliableTf.tla: every history of start, replace, stop and close with senders and a network interleaved; conformance: the real class under the model's and random histories and schedules, every transform sent and received recorded",
  assumptions=["one user thread; ROS keeps running; a static pair that was stopped may still be shown in the set of all static transforms"],
  jobs=[MC("ReliableTf", dict(quick="ReliableTf.cfg", thorough="ReliableTfT.cfg"), min_states=1000), PY("reliable", "pyrtf", "reliable", "RtfTrace", gen=SIM("ReliableTf", "ReliableTfGen.cfg", 100, 1000, 300, 100, 2000), need_ops=["start", "started", "stopped", "closed", "send", "set", "recv", "rested", "look"])]),
"Y09": dict(technique=TV, note="RosInit.tla: every nesting of contexts with every ending; Connect.tla: every sequence of connection states over the tries; conformance: the model's cases and random ones in virtual time",
  jobs=[MC("RosInit", min_states=100), MC("Connect", min_states=1000), PY("contexts", "pyros", "contexts", "RosTrace", gen=dict(module="RosInit", cfg="RosInit.cfg", min=100), need_ops=["enter", "up", "body", "leave", "down", "result"]),
    PY("helpers", "pyros", "helpers", "RosTrace", gen=dict(module="Connect", cfg="ConnectGen.cfg", min=500), need_ops=["asked", "shut", "warn", "waited", "poll", "pause", "connected", "fatal", "lookup"])]),
"Y14": dict(technique=TV, note="Pad.tla: every history of presses, releases, looks and shutdown around a wait; conformance: the model's histories and random messages, waits and questions in virtual time",
  jobs=[MC("Pad", dict(quick="Pad.cfg", thorough="PadT.cfg"), min_states=500), PY("pad", "pypad", "pad", "PadTrace", gen=dict(module="Pad", cfg="PadGen.cfg", min=300, cap=dict(quick=1500, thorough=20000)), need_ops=["joy", "shut", "state", "button", "axis", "delta", "click", "wait", "waited"])]),
}
NOT_CLAIMED = {}
