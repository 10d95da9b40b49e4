# Source of /verif/properties.jsonl  (python3 tools/gen_meta.py writes it, together with MANIFEST.json)
def P(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe or [], hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    return d

I = "include/arc_utilities/"
S = "src/arc_utilities/"

PROPS = [
# ---------------------------------------------------------------- graphs and search
P("G01", "Graph edits keep in-edges and out-edges consistent",
  "After any sequence of node and edge additions, every added edge is listed exactly once among the out-edges of its source and once among the in-edges of its target, with the endpoints and weight it was given, new nodes get consecutive indices, and nothing else in the graph changes. An addition that names a missing node or joins a node to itself is refused with an exception and leaves the graph as it was. The linkage check accepts a node list exactly when all edge indices are in range and match their owner, no edge joins a node to itself, and every in-edge has a matching out-edge at the other end and vice versa; building a graph from a list it rejects throws.",
  ["histories", "inputs"], "all sequences of graph edits, all node lists offered to the linkage check or the constructor",
  "test_graph builds one four-node graph and serialises it; no test explores edit sequences, refused edits or malformed node lists.",
  [I + "graph.hpp"], [("addEdgeBetweenNodes / CheckGraphLinkage", I + "graph.hpp")],
  state=[("nodes_", "node list, each with value, distance, in- and out-edge lists", I + "graph.hpp")]),
P("G02", "Undirected connected components label exactly the connected sets",
  "For every graph whose edges all run in both directions, the connected-component query gives every node a label from 1 to the reported number of components, uses every label in that range, and gives two nodes the same label exactly when a path joins them. Isolated nodes form their own component, and the graph is not changed.",
  ["inputs"], "all undirected graphs, any node order, including empty graphs and isolated nodes",
  "no test calls the component query.",
  [I + "graph.hpp"], [("getConnectedComponentsUndirected", I + "graph.hpp")]),
P("G03", "A random walk on a graph returns a loop-free walk from start to goal",
  "For every graph in which the goal can be reached from every node the walk can enter, and for every sequence of random choices, the random walk terminates with a list that begins with the start, ends with the goal, visits no node twice, and steps only along existing edges. When start equals goal the list is just that node. The graph is left unchanged.",
  ["inputs", "schedules"], "all such graphs, all start and goal nodes, all random draws",
  "no test calls it; a fixed seed samples one draw sequence.",
  [I + "dijkstras.hpp"], [("PerformRandomWalk loop trimming", I + "dijkstras.hpp")]),
P("D01", "Dijkstra reports exact shortest distances and a consistent next-hop map",
  "For every graph with non-negative edge weights and every goal node, the Dijkstra result gives each node the length of its shortest directed route to that goal (infinity when there is none), the same value in the returned distance list and in the returned copy of the graph. Following the returned next-hop map from any node with a finite distance walks existing edges to the goal with exactly that total length; nodes that cannot reach it keep no next hop. The input graph is unchanged and an out-of-range goal index throws.",
  ["inputs"], "all weighted directed graphs (ties, zero weights, parallel edges, unreachable parts), all goal nodes",
  "the tests run a single hand-made example and print the result.",
  [I + "dijkstras.hpp"], [("PerformDijkstrasAlgorithm", I + "dijkstras.hpp")]),
P("D02", "Graph A* returns a valid optimal path exactly when one exists",
  "For every graph with non-negative edge lengths and every admissible heuristic, even an inconsistent one, A* between two distinct nodes returns a path that starts at the start, ends at the goal, follows existing edges accepted by the validity check, and whose reported cost is the sum of its edge lengths and the minimum over all such paths, with or without duplicate limiting. If no such path exists it returns an empty path and infinite cost. Edges marked invalid or of infinite weight are never used by the plain variant, and bad or equal endpoints throw.",
  ["inputs"], "all graphs, edge validity predicates, edge lengths, admissible heuristics, endpoint pairs, both duplicate-limiting settings",
  "two hand-made graphs are tested with one heuristic each.",
  [I + "dijkstras.hpp", I + "arc_helpers.hpp"], [("PerformLazyAstar / ExtractAstarResult", I + "dijkstras.hpp")]),
P("D03", "Implicit-space A* planners find optimal paths or report failure",
  "For every finite implicit search problem with non-negative step costs and an admissible, consistent heuristic, the implicit-space A* searches return a chain of states from a start to a goal in which each state is a generated child of its predecessor along a valid edge, with reported cost equal to the chain's total and to the minimum possible. When no goal can be reached they return the documented empty or failed result, and always terminate.",
  ["inputs"], "all finite search problems over the planner callbacks, all start states, goals and heuristics meeting the contract",
  "neither implicit planner is tested at all.",
  [I + "arc_helpers.hpp", I + "simple_astar_planner.hpp"], [("GenericAstarSearch", I + "arc_helpers.hpp"), ("SimpleAStarPlanner", I + "simple_astar_planner.hpp")]),
P("R01", "Roadmap planning only adds checked edges and answers queries truthfully",
  "Growing or extending a roadmap only ever adds states the caller's state check accepted, only links a state to at most K nearest others along connections the edge check accepted, weighted by the caller's distance, and keeps the roadmap well linked. A query returns either a start-to-goal path made of valid connections whose total is minimal among all routes through the roadmap and the connected start and goal states, or an empty path with infinite cost when there is none. Lazily re-validating edges updates weights exactly where the check now fails or the distance has changed, and queries leave the stored roadmap unchanged unless asked to add states.",
  ["inputs", "histories"], "all sampling sequences, state and edge validity predicates, distance functions, K, and query sets",
  "the PRM planner has no test.",
  [I + "simple_prm_planner.hpp"], [("AddNodeToRoadmap / ExtendRoadMap / QueryPath*", I + "simple_prm_planner.hpp")]),
P("R02", "Tree planners grow one linked tree and return its paths to goal states",
  "A single-tree planner only ever adds states the caller's propagation returned, each hung from the node that was nearest to the sampled target or from the earlier state of the same batch it names; parents and children always refer to each other, and a tree with broken links, no tree at all, or a batch naming a later state is refused. Every state is offered to the goal check exactly once, and every returned path runs from a root along parent links to a state that check accepted, in the order they were reached: all of them, or only the first one for the planners that return a single path, which then stop. The reported statistics count exactly the samples, failures, states and solutions, and nodes written and read back are the same.",
  ["inputs", "histories"], "all samples, nearest-neighbour choices, propagation batches, goal predicates, starting trees and stopping conditions",
  "the RRT planner has no test (its header did not compile).",
  [I + "simple_rrt_planner.hpp"], [("SimpleHybridRRTPlanner", I + "simple_rrt_planner.hpp"), ("SimpleRRTPlannerState", I + "simple_rrt_planner.hpp")]),
P("R03", "Two-tree planners join start and goal trees only at accepted bridges",
  "The two-tree planner grows whichever tree is active under the same rules as a single tree, towards a sampled state or, as often as the given bias says, towards some node of the other tree, any of which can be chosen; the trees swap roles as often as the given probability says. A path is returned exactly for each pair of states the caller accepted as connected - initial pairs and new states against the node they were grown towards - and runs from a root of the start tree along parent links, over that one bridge, and back along the goal tree to its root. Bridge notifications name the start tree first whichever tree is active.",
  ["inputs", "histories"], "all random draws, nearest-neighbour choices, propagation batches, connection predicates and starting trees",
  "the bidirectional planner has no test (its header did not compile).",
  [I + "simple_rrt_planner.hpp"], [("SimpleHybridBiRRTPlanner", I + "simple_rrt_planner.hpp")]),
P("K01", "Nearest-neighbour and distance-matrix helpers are exact",
  "For every item list, query and distance function, the K-nearest search returns min(K, N) distinct item indices, each with its own distance, such that no item left out is strictly closer than one returned; the parallel and serial variants agree on the distances. Distance matrices contain in each cell the distance of exactly that pair of items, also when rows and columns come from different lists.",
  ["inputs"], "all item lists (empty, ties, infinities excluded), all K including 0 and beyond N, all query points",
  "no test checks the neighbours or matrices against brute force.",
  [I + "arc_helpers.hpp"], [("GetKNearestNeighbors* / BuildDistanceMatrix*", I + "arc_helpers.hpp")]),
# ---------------------------------------------------------------- voxel grids
P("V01", "A voxel grid behaves as a map from cells to values with an outside value",
  "For every grid size, cell size and origin, and after any sequence of writes, a read of a cell inside the grid returns the last value written to that cell (or the default if none), whether it is addressed by index, by point or by mutable reference, and reports it as inside; writing one cell changes no other. Every read outside the grid returns the out-of-bounds value flagged as outside and every write outside is refused without effect. Resetting or replacing the default, out-of-bounds value or raw data affects exactly what it names.",
  ["histories", "inputs"], "all grid shapes, all sequences of get/set/reset operations by index and by point, inside and outside",
  "no ROS-free test exercises the voxel grid.",
  [I + "voxel_grid.hpp"], [("GetImmutable/GetMutable/SetValue", I + "voxel_grid.hpp")]),
P("V02", "Voxel grid points, indices and cell centres correspond exactly",
  "For every grid, including one placed anywhere by a rigid transform, a point belongs to exactly the cell whose half-open box contains it, and a point outside the grid's box is reported outside. The location returned for a cell index is that cell's centre and maps back to the same index. The linear data index is a bijection between the cells and the storage positions.",
  ["inputs"], "all points around and inside the grid, all cells, all grid shapes and origins",
  "no ROS-free test exercises the index arithmetic.",
  [I + "voxel_grid.hpp"], [("PointInFrameToGridIndex / GridIndexToLocation", I + "voxel_grid.hpp")]),
P("V03", "The dynamic hashed voxel grid behaves as a lazily filled chunked map",
  "After any sequence of writes, a read of a location returns the value last written to the cell or whole chunk covering it, or the default when nothing was written there, and reports whether a cell, a chunk or nothing is stored there; the answers are the same however far from the origin, on negative coordinates as on positive ones. A cell write turns a whole-chunk value into individual cells that keep the old chunk value elsewhere; a chunk write replaces everything in its chunk. Writes never affect other chunks, and no write is lost, whatever the cell size and wherever rounding puts the location.",
  ["histories", "inputs"], "all sequences of cell writes, chunk writes, and reads in any order over many chunks",
  "the hashed grid has no test.",
  [I + "dynamic_spatial_hashed_voxel_grid.hpp"], [("DSHVG chunk map, SetCellValue / SetChunkValue / GetImmutable", I + "dynamic_spatial_hashed_voxel_grid.hpp")]),
# ---------------------------------------------------------------- serialization
P("S01", "Serialized values read back identically and account for every byte",
  "For every supported value (fixed-size numbers, strings, vectors, maps, pairs, nested combinations, and Eigen vectors, matrices and rigid transforms), writing it appends bytes without touching what the buffer already held, and reading at that offset returns an equal value and exactly the number of bytes that writing reported. A sequence of values written one after another can therefore be read back in order, and the network form of an integer stores its most significant byte first.",
  ["inputs", "histories"], "all values and nestings, all buffer prefixes, all sequences of writes",
  "two Eigen tests cover a few fixed sizes from offset zero; framing of consecutive values is not tested.",
  [I + "serialization.hpp", I + "serialization_eigen.hpp"], [("Serialize*/Deserialize*", I + "serialization.hpp")]),
P("S02", "Serialized composite structures are restored to equivalent structures",
  "Graphs, planner search results, voxel grids and joint models read back from their serialized form are indistinguishable from the original under every query (contents, edges and validity, cells, defaults, geometry, limits), consume exactly the bytes written, and work at any buffer offset. Writing the restored object again yields the same bytes.",
  ["inputs", "histories"], "all reachable object states, any buffer prefix",
  "one small graph is round-tripped by a test; grids and models are not.",
  [I + "graph.hpp", I + "dijkstras.hpp", I + "voxel_grid.hpp", I + "simple_linked_robot_model.hpp"],
  [("SerializeSelf / DeserializeSelf", I + "voxel_grid.hpp")]),
P("B01", "Base64 encoding is standard and lossless",
  "For every byte sequence, encoding yields the standard padded base64 text (alphabet A-Z a-z 0-9 + /) and decoding that text returns the original bytes. Decoding any other text ends normally without touching memory it should not.",
  ["inputs"], "all byte sequences of every length",
  "no test calls it.",
  [S + "base64_helpers.cpp"], [("Base64Helpers::Encode/Decode", S + "base64_helpers.cpp")]),
P("B02", "Compression and compressed files are lossless and reject damaged data",
  "For every byte sequence, of any length and compressibility, decompressing the compressed bytes returns the original, and loading a compressed file returns what was stored in it. Truncated, damaged or missing input is reported by an exception and never returned as data, and a file that cannot be written completely is reported by an exception.",
  ["inputs", "fault_sequences"], "all byte sequences around internal buffer boundaries, all truncations and corruptions of the stream",
  "no test calls it.",
  [S + "zlib_helpers.cpp"], [("CompressBytes/DecompressBytes/LoadFromFileAndDecompress/CompressAndWriteToFile", S + "zlib_helpers.cpp")]),
# ---------------------------------------------------------------- clustering, alignment
P("C01", "Hierarchical clustering merges exactly as its linkage rule demands",
  "For every symmetric distance matrix, strategy and threshold, the clusters are a partition of the input items, no two final clusters are within the threshold of each other under the chosen linkage, and every cluster arises by repeatedly merging a closest pair whose distance is within the threshold. Single-link clusters are therefore the components of the within-threshold graph, and in complete-link clusters all pairs are within the threshold. The reported distance is that of the closest remaining pair, or infinity when a single cluster remains.",
  ["inputs"], "all symmetric distance matrices, ties, both strategies, all thresholds",
  "the test clusters random points and prints them without checking.",
  [I + "simple_hierarchical_clustering.hpp"], [("GetClosestPair / Cluster", I + "simple_hierarchical_clustering.hpp")]),
P("C02", "K-means assigns every item to a nearest centre on convergence",
  "For every data set, positive weighting and number of clusters, k-means terminates and returns one label in range per item and as many centres as requested; every item's label names a centre no other is closer than, and each centre of a non-empty cluster is the weighted average of its items. Items are always averaged with their own weights, restarting from its own result changes nothing, and asking for more clusters than there are items is refused with an exception.",
  ["inputs"], "all data sets, weights, cluster counts, seeds and preliminary subset settings",
  "no test calls k-means.",
  [I + "simple_kmeans_clustering.hpp"], [("Cluster / PerformSingleClusteringIteration", I + "simple_kmeans_clustering.hpp")]),
P("T01", "Dynamic time warping returns the minimum alignment cost, every time",
  "For every pair of non-empty sequences and non-negative pairwise cost, the warping cost is the minimum total cost over all monotone alignments that match first to first and last to last. Evaluating with a reused evaluator gives the same result as a fresh one whatever was evaluated before, in any order of sizes.",
  ["inputs", "histories"], "all sequence pairs, cost functions with ties and zeros, all reuse histories of one evaluator",
  "no test calls it.",
  [I + "simple_dtw.hpp"], [("EvaluateWarpingCost", I + "simple_dtw.hpp")],
  state=[("dtw_matrix_", "cost table kept between evaluations", I + "simple_dtw.hpp")]),
P("T02", "Hausdorff distance is the exact directed max-min distance",
  "For every two non-empty finite distributions and every non-negative pairwise distance, the computed Hausdorff distance is exactly the maximum over the first distribution of the minimum distance to the second, the same in serial and parallel builds.",
  ["inputs"], "all pairs of distributions of equal or different sizes, all distance functions",
  "no test calls it.",
  [I + "simple_hausdorff_distance.hpp"], [("ComputeDistance", I + "simple_hausdorff_distance.hpp")]),
# ---------------------------------------------------------------- paths
P("U01", "Shortcut smoothing keeps endpoints and only uses accepted shortcuts",
  "For every path, validity check, random sequence and iteration limits, smoothing returns a subsequence of the path with the same first and last states in which every step is either an original step or one the validity check accepted; every accepted shortcut skips exactly the states between its ends. It spans no more than the allowed fraction of the current path, makes no more attempts and no more failed attempts than the limits allow, and terminates; given iterations to spare it only ends with two states left or its failed attempts used up; a path of two or fewer states is returned as it is.",
  ["inputs", "schedules"], "all paths, all validity predicates, all draws and limits",
  "the C++ path utilities have no test.",
  [I + "path_utils.hpp"], [("ShortcutSmoothPath", I + "path_utils.hpp")]),
P("U02", "Path resampling and upsampling keep waypoints and respect spacing",
  "Resampling a path section keeps its waypoints in order, inserts only evenly spaced points on its segments so that consecutive points are no farther apart than asked, uses no more points than needed, and merges only coincident waypoints; bad ranges throw. Upsampling a section returns exactly the requested number of points, keeping all its waypoints and always splitting a segment whose pieces are longest, or returns the section unchanged when it already has that many points or more.",
  ["inputs"], "all paths, sections, spacings and point counts",
  "the C++ path utilities have no test.",
  [I + "path_utils.hpp"], [("ResamplePathPartial / UpsamplePathPartial", I + "path_utils.hpp")]),
P("F01", "First-order deformation checks find a connecting table walk or report none",
  "For every pair of sequences and every pairwise validity relation, the first-order deformation check returns a walk exactly when the pair of first elements can be connected to the pair of last elements by single steps to one of the eight neighbouring pairs, each step entering a valid pair, and otherwise an empty path. The walk it returns starts at the first pair, ends at the last and makes only such steps. The check is only asked about pairs inside the table.",
  ["inputs"], "all table sizes and validity relations",
  "no test calls it.",
  [S + "first_order_deformation.cpp", I + "first_order_deformation.h"], [("GetFirstOrderDeformation", S + "first_order_deformation.cpp")]),
P("N01", "Grid neighbour queries return exactly the in-bounds adjacent cells",
  "For every grid position and bounds, the two- and three-dimensional neighbour queries return, each exactly once, all and only the cells one step away, diagonals included, inside the inclusive bounds and accepted by the validity check, never the position itself.",
  ["inputs"], "all positions, step sizes, bounds and validity predicates",
  "no test calls it.",
  [I + "get_neighbours.hpp"], [("TwoDimensional8Connected / ThreeDimensional8Connected", I + "get_neighbours.hpp")]),
P("O01", "Time-parameterised trajectories stay on the path, within limits and fastest",
  "For every way-point path without reversals, every blending deviation and all velocity and acceleration limits, the path is a smooth arc-length curve from the first to the last way point within the deviation of all of them, and the trajectory has positive duration, starts and ends at rest at the path's ends, stays on the path and within the limits, and takes no longer than the fastest such motion, up to the integration step. The state at a time depends only on that time: any order of queries, on the trajectory and on copies made at any moment, gives the same answers, and times before the start or after the end give the end states.",
  ["inputs", "histories"], "all way-point lists and limits on dyadic lattices, all query orders",
  "no test calls it.",
  [S + "time_optimal_trajectory_parametrization.cpp"], [("Trajectory::getPosition / getTrajectorySegment", S + "time_optimal_trajectory_parametrization.cpp")],
  state=[("cached_time / cached segment", "cursor of the last query", S + "time_optimal_trajectory_parametrization.cpp")]),
# ---------------------------------------------------------------- small state machines
P("P01", "The profiler records exactly what was timed, per name, in order",
  "After any interleaving of profiler operations over any set of names, the recorded data of a name are exactly the values recorded under it since it was last reset, in order, and no operation on one name affects another. Elapsed times come from that name's own latest start, never decrease between restarts, and recording a timer never started is an error. Reports list each name once with the count, sum, minimum, maximum and mean of its data.",
  ["histories"], "all interleavings of start, record, add, reset, report over all names and the global instance",
  "the timing tests run a handful of fixed sequences with wall-clock sleeps.",
  [S + "timing.cpp", I + "timing.hpp"], [("Profiler", S + "timing.cpp")],
  state=[("timers / data / timed_double_data", "per-name stopwatches and records", I + "timing.hpp")]),
P("L01", "A log file contains exactly the lines logged to it, through copies and moves",
  "After any sequence of constructions, writes, copies, moves, assignments and destructions of logs, each log file contains every message written to a log bound to that file, complete and in order, with the requested separators and headers. A moved-to log writes to the file of the log it was moved from, a copy appends without erasing, and no message ends up in a file its log is not bound to.",
  ["histories"], "all interleavings of log operations over several logs and files",
  "the log has no test.",
  [I + "log.hpp"], [("Log copy and move", I + "log.hpp")]),
P("M01", "An optional value never yields a value it does not hold",
  "After any sequence of constructions, copies, moves and assignments, an optional reports holding a value exactly when one was last put into it, and reading it returns that value; reading an empty one throws instead of returning anything. Copying leaves the source as it was and copies are independent.",
  ["histories"], "all operation sequences over several optionals, for values with and without own resources",
  "the optional type has no test.",
  [I + "maybe.hpp"], [("Maybe::Get/GetImmutable", I + "maybe.hpp")]),
P("X01", "Random generators are reproducible from their seed and position",
  "For each of the random number engines, the sequence produced after seeding, by construction or by re-seeding at any moment, depends only on the seed and is that of the published SplitMix64, xorshift128+ or xorshift1024* algorithm (seeded through SplitMix64); discarding n numbers is the same as drawing and ignoring n; copies continue identically and independently. Distinct operations on one engine never affect another.",
  ["histories"], "all interleavings of draws, discards, copies and re-seedings",
  "no test re-seeds or copies an engine.",
  [I + "arc_helpers.hpp"], [("SplitMix64PRNG / XorShift128PlusPRNG / XorShift1024StarPRNG", I + "arc_helpers.hpp")],
  state=[("state_/s/p", "engine words and cursor", I + "arc_helpers.hpp")]),
P("X02", "Bounded random samples and generated values stay in their domain",
  "For all parameters and draws, a truncated normal sample lies within its bounds, which may be infinite or lie on one side of the mean, and is the mean when the deviation is zero. Bit helpers report or change exactly the bit they name for every word width; clamping returns the nearest value of the range, and spreading moves values strictly inside a dead band to the end on their side of the midpoint and leaves others alone.",
  ["inputs", "schedules"], "all distribution parameters, all seeds, all word widths and bit positions",
  "no test covers samplers or bit helpers.",
  [I + "arc_helpers.hpp"], [("TruncatedNormalDistribution", I + "arc_helpers.hpp"), ("GetBit/SetBit/ClampValue", I + "arc_helpers.hpp")]),
P("X03", "Samplers and distribution functions follow the distribution they name",
  "For all parameters, truncated normal samples fall into every part of the interval in the proportion of its probability, and the Gaussian and truncated Gaussian density, cumulative and interval functions agree with each other and with the distribution, being 0 below and 1 above the bounds. Multivariate Gaussian draws have the given mean and covariance, also when it is singular. Random rotations are unit quaternions, uniform over orientations, and the raw and Euler variants stay in their ranges and agree for the same draws.",
  ["inputs", "schedules"], "all means, deviations, bounds on either side of the mean or infinite, covariances including singular ones, all seeds and extreme draws",
  "no test covers the samplers or the distribution functions.",
  [I + "arc_helpers.hpp"], [("TruncatedNormalDistribution / MultivariteGaussianDistribution / RandomRotationGenerator", I + "arc_helpers.hpp"), ("EvaluateTruncatedGaussianCDF", I + "arc_helpers.hpp")]),
P("X04", "Colour values stay valid through construction, mixing and conversion",
  "For every input, a colour built, set, converted, scaled or interpolated has each channel equal to the requested value trimmed to [0, 1], and 8-bit channels survive being set and read back. The hot-to-cold map runs continuously and linearly through blue, cyan, green, yellow and red over its range and is constant beyond it. Colour codes 1 to 20 give distinct colours, and a colour sequence yields the codes in order.",
  ["inputs"], "all channel values inside and outside the range, all 8-bit values, ratios, factors and ranges",
  "no test covers the colour helpers.",
  [I + "arc_helpers.hpp"], [("RGBAColor / RGBAColorBuilder / InterpolateColor / GenerateUniqueColor", I + "arc_helpers.hpp")]),
P("X05", "Map and string-list helpers preserve exactly the given associations",
  "For every list of key-value pairs, building a map keeps the last value given for each key and nothing else; listing a map returns every key, or every pair, once and in key order; a lookup with a default returns the stored value exactly when the key is present, in ordered and unordered maps alike. A substring is reported as common to a list exactly when every string of the list contains it.",
  ["inputs"], "all key-value lists including repeated keys, all string lists",
  "no test covers these helpers.",
  [I + "arc_helpers.hpp"], [("GetKeys / GetKeysAndValues / MakeFromKeysAndValues / RetrieveOrDefault", I + "arc_helpers.hpp")]),
P("X06", "Time stamps name the instant they were taken at",
  "For every instant and time zone, the time string is the local calendar date and 24-hour time of the call in the documented form, followed in the finer variant by the milliseconds of that second, rounded down; the header of a log file and of a profile report is that same date and time. Sleeping lasts at least as long as asked for, and not at all for a time that is not positive.",
  ["inputs", "schedules"], "all instants including the turns of minute, hour, noon, midnight, month, leap day and year, all fixed zone offsets",
  "no test covers time strings, and a test sees only the instants at which it happens to run.",
  [I + "arc_helpers.hpp", I + "log.hpp", "src/arc_utilities/timing.cpp"], [("GetCurrentTimeAsString / GetCurrentTimeAsStringWithMilliseconds / Sleep", I + "arc_helpers.hpp"), ("Log::Log", I + "log.hpp"), ("addHeader", "src/arc_utilities/timing.cpp")]),
P("Q01", "Revolute angle arithmetic is consistent on the circle",
  "For all angles, wrapping returns the equivalent angle in (-pi, pi]; the signed distance added to the first angle gives the second, has magnitude at most pi, and the unsigned distance is its magnitude, the same both ways; interpolation moves along that shortest arc from the first angle to the second. Range membership holds exactly for the angles met when turning counter-clockwise from the start through the range.",
  ["inputs"], "all angles (including multiples of pi and far outside one turn), ratios and ranges",
  "the math tests cover plain interpolation only.",
  [I + "math_helpers.hpp"], [("ContinuousRevolute* / EnforceContinuousRevoluteBounds", I + "math_helpers.hpp")]),
P("A01", "Weighted averages and spread are exact and order-independent",
  "For all value lists and non-negative weights not all zero, the average equals the weighted sum divided by the total weight (for scalars and vectors alike), does not depend on the order of the items, ignores items of weight zero, and treats no weights as equal weights; the standard deviation is that of the sample. Path length helpers add up exactly the distances of consecutive points.",
  ["inputs"], "all value and weight lists including leading zero weights",
  "averages are printed but never compared with an independent definition for weighted input.",
  [I + "math_helpers.hpp", I + "eigen_helpers.hpp"], [("AverageStdVectorDouble / AverageEigenVector", I + "math_helpers.hpp")]),
P("A02", "Rotation and pose averages agree best with the given items",
  "For all lists of rotations and non-negative weights, the average rotation is a unit quaternion that maximises the total weighted squared alignment with the items, so that it does not depend on the signs of the quaternions or on the order of the items, equals the item when all agree, and ignores items of weight zero. The average pose combines that rotation with the weighted mean of the translations.",
  ["inputs"], "all rotation and pose lists, quaternion signs and weights",
  "rotation averages are printed but not compared with an independent definition.",
  [I + "eigen_helpers.hpp"], [("AverageEigenQuaterniond / AverageEigenIsometry3d", I + "eigen_helpers.hpp")]),
P("H01", "Rotations, twists and poses convert, compose and compare consistently",
  "For all angles, axes and poses, building a rotation or pose from angles gives the named sequence of axis rotations and recovering the angles gives the same rotation back; hat and unhat operators, adjoints, twist transformation and the exponential of a twist follow rigid motion algebra, and the twist between two poses carries the first exactly to the second. Interpolation follows the straight line and the shortest rotation at constant speed and stays within its ends; rotation distance is the angle between the two, zero for equal and pi for opposite ones, never NaN.",
  ["inputs"], "all angles (including gimbal lock and several turns), twists, poses, ratios and quaternion signs",
  "the conversion tests cover plain vectors only.",
  [I + "eigen_helpers.hpp"], [("ExpTwist / TwistBetweenTransforms / AdjointFromTransform", I + "eigen_helpers.hpp"), ("Interpolate / Distance of rotations", I + "eigen_helpers.hpp")]),
P("H02", "Projections, planes and least-squares solvers satisfy their definitions",
  "For all vectors, the projection onto a direction and the rejection from it add up to the vector and are parallel and perpendicular to the direction; plane, line and angle queries give the exact distances, nearest points and angles, and a fitted plane has the least total squared distance. The pseudo-inverse satisfies the four Penrose conditions, the solvers solve their (damped when ill-conditioned) normal equations, and the pyramid for a cone has its edges on the cone for every direction.",
  ["inputs"], "all vectors including zero and collinear ones, matrices of every shape and rank, cones around every direction",
  "none of these functions has a test.",
  [I + "eigen_helpers.hpp"], [("VectorProjection / Hyperplane / FitPlaneToPoints", I + "eigen_helpers.hpp"), ("Pinv / WeightedLeastSquaresSolver / ConvertConeToPyramid", I + "eigen_helpers.hpp")]),
P("H03", "Vector containers, distance tables and element-wise arithmetic are exact",
  "For all vectors, conversions between standard and Eigen containers, splitting and joining keep every element in order and nothing else; element-wise arithmetic on vectors of doubles and pairs gives each element's result and refuses different lengths; approximate comparisons decide exactly by the given threshold. Distance tables of point sets hold the distance of each pair, the nearest point is one at the least distance, and applying a transform to a list transforms each element.",
  ["inputs"], "all vectors, lengths (also unequal and empty ones), thresholds and point sets",
  "a few fixed vectors are compared.",
  [I + "vector_math.hpp", I + "eigen_helpers.hpp", I + "eigen_std_conversions.hpp", I + "math_helpers.hpp"],
  [("CalculateSquaredDistanceMatrix / ClosestPointInSet", I + "eigen_helpers.hpp"), ("EigenToStd conversions", I + "eigen_std_conversions.hpp")]),
P("W01", "A thin plate spline maps its control points exactly, as currently set",
  "After any history of setting template and target points, solving and asking, an answer is the thin plate spline through the control points in force: every template point goes to its target, data that follow an affine map are continued by that map everywhere, and no stale coefficients are used. Asking or solving without control points, or with unequal numbers of them, is refused with an exception.",
  ["histories", "inputs"], "all sequences of calls, 2-D and 3-D control points, affine and general targets",
  "the spline has no test.",
  [I + "thin_plate_spline.hpp"], [("solveForCoeffs / interpolate", I + "thin_plate_spline.hpp")],
  state=[("solved_ / coefficients", "fit kept between calls", I + "thin_plate_spline.hpp")]),
P("W02", "Conversions between Eigen and ROS messages keep the value",
  "Every conversion between Eigen types and ROS geometry messages, in either direction and for single values and lists, keeps points, vectors and quaternion components exactly and in place, denotes the same rigid motion for poses and transforms (of a scaled transform, its rotation), keeps the order and number of list elements and the given frame name, and gives points a last homogeneous component of one and vectors zero. Message builders fill the named fields. Moving lists and pairs by a pose moves each element.",
  ["inputs"], "all points, quaternions of either sign, motions, scalings, lists and frame names",
  "the conversions have no tests here (they need ROS).",
  [I + "eigen_helpers_conversions.hpp", I + "eigen_ros_conversions.hpp", I + "geometry_msgs_builders.hpp", I + "shape_msgs_builders.hpp", I + "eigen_transforms.hpp"],
  [("EigenHelpersConversions", I + "eigen_helpers_conversions.hpp"), ("ConvertTo", I + "eigen_ros_conversions.hpp"), ("Transform", I + "eigen_transforms.hpp")]),
P("W03", "Appending a trajectory continues it in time",
  "Appending a trajectory keeps every point of the first unchanged and adds every point of the second, in order and otherwise unchanged, its time counted from the end of the first. The first takes the second's joint names or frame if it has none; if the joint names differ in number, order or spelling an exception is thrown and the first is unchanged. The second is never changed.",
  ["histories", "inputs"], "all sequences of appends of trajectories with any joint lists, frames and times",
  "trajectory appending has no test.",
  ["src/arc_utilities/trajectory_utils.cpp"], [("append", "src/arc_utilities/trajectory_utils.cpp")]),
P("W04", "Parameters are read as stored, defaulted or refused",
  "Whatever the parameters set so far, a helper that reads a parameter returns the stored value if there is one of that type under that name in that namespace; otherwise the defaulting helpers return exactly the given default, the optional ones nothing, and the required ones throw an invalid-argument error. Reading never changes the parameters.",
  ["histories", "inputs"], "all histories of set and deleted parameters, all value types and helpers",
  "the parameter helpers have no tests here (they need ROS).",
  [I + "ros_helpers.hpp"], [("GetParam / GetParamOptional / GetParamRequired / GetVector", I + "ros_helpers.hpp")]),
P("W05", "Aligned vectors compute like three-vectors",
  "After any history of constructions, assignments, additions, subtractions, scalings and element writes, in place or not, an aligned vector has the components a plain three-vector would have and a fourth component of one, so that its dot product, sum, norm, normalised vector, cross product, comparison and image under a rigid transform are those of the three-vector.",
  ["histories", "inputs"], "all sequences of operations over several vectors, in single and double precision",
  "one test uses the type, for timing.",
  [I + "aligned_eigen_types.hpp"], [("Aligned4Vector3", I + "aligned_eigen_types.hpp")],
  state=[("m_coeffs", "three components and a one", I + "aligned_eigen_types.hpp")]),
P("W06", "The C++ listener returns the latest message, and waits for a new one",
  "Under every interleaving of deliveries and reads, getting returns the message delivered last (or none before the first), whole, and later reads never return an older one; waiting returns only a message delivered after the wait began, and throws once ROS has shut down without one. While stopped nothing is delivered; after a restart the newest waiting message is.",
  ["schedules", "histories"], "all interleavings of callbacks, reads, waits, stops, restarts and shutdown",
  "the listener has no test.",
  [I + "listener.hpp"], [("Listener::callback / get / waitForNew", I + "listener.hpp")],
  state=[("msg_ / mtx_", "latest message and its lock", I + "listener.hpp")]),
P("W07", "Pretty printing writes every element once, in order",
  "The text of a value is made of the texts of its parts in iteration order, each exactly once, with the requested separator between neighbours, keys and values joined by a colon, booleans written as words and vector, quaternion and transform components in the order x, y, z, w. With delimiters asked, lists, sets and maps are enclosed in their brackets at every level of nesting and components are named; without, nothing is added. Streaming a list writes each element once.",
  ["inputs"], "all nestings of the supported containers, all separators",
  "printing has no test.",
  [I + "pretty_print.hpp", I + "ostream_operators.hpp"], [("PrettyPrint", I + "pretty_print.hpp")]),
P("W08", "Small helpers: hashes, index search, numbering, exceptions, directories",
  "Equal keys have equal hashes (zero of either sign included), so that hashed sets and maps keyed by vectors, complex numbers and pairs behave as maps over any history. Index search returns the first position of a value or minus one; numbering yields every element once with its position; exceptions raised through the helper have the requested type and name message, file and line. Creating a directory creates it and its missing parents and nothing else, leaves an existing one as it is, and throws if a file is in the way.",
  ["histories", "inputs"], "all histories of map operations, all lists, all sequences of directories and files",
  "none of these helpers has a test.",
  [I + "hash.hpp", I + "stl_wrappers.hpp", I + "enumerate.h", I + "arc_exceptions.hpp", I + "filesystem.hpp"], [("hash_combine", I + "hash.hpp"), ("find", I + "stl_wrappers.hpp"), ("enumerate", I + "enumerate.h"), ("CreateDirectory", I + "filesystem.hpp")]),
P("E01", "Robot link poses depend only on the current configuration and base",
  "For every well-formed kinematic tree, in whatever order its joints are listed, and after any history of configuration and base updates, each link's pose is the base pose followed by the joint transforms along its chain at the current values, and inverse and derived queries agree with it. Models whose links and joints do not form a tree rooted at the first link, have duplicate names, out-of-range links or non-unit axes are refused.",
  ["histories", "inputs"], "all trees, joint orders and types, all sequences of updates, all malformed models",
  "the robot model has no test.",
  [I + "simple_linked_robot_model.hpp"], [("UpdateTransforms / SanityCheckRobotModel", I + "simple_linked_robot_model.hpp")],
  state=[("links_ transforms", "cached link poses", I + "simple_linked_robot_model.hpp")]),
P("E02", "Joint values always respect their limits and distances add up",
  "A joint's stored value is always within its limits (clamped) or, for a continuous joint, wrapped into one turn, whatever is assigned; non-finite values and inverted limits are refused and leave it unchanged. Configuration distances and interpolations are joint by joint, end exactly at the two given configurations, stay within limits, and refuse configurations of different shape or joint type.",
  ["histories", "inputs"], "all joint types, limits, assignments and configuration pairs",
  "the joint model has no test.",
  [I + "simple_linked_robot_model.hpp"], [("SimpleJointModel", I + "simple_linked_robot_model.hpp")]),
P("E03", "Planar and spatial robots report exactly the pose they were given",
  "After any history of setting and copying, a planar or spatial robot's configuration is the last one set (a planar angle brought into one turn), and its link poses by name, list and map are that configuration's pose; copies are of the same kind and change independently; an unknown link is refused. The Jacobian maps joint velocities to the velocity of any body point; distances are signed per dimension, the shorter way round for rotations, and the combined distance weighs them with the absolute weights; interpolation starts and ends at the given configurations, is proportional in between, takes the shorter way and stays between its ends; averages are means, or the zero configuration of no configurations; written configurations read back identically.",
  ["histories", "inputs"], "all histories of configurations and copies, all points, weights, pairs, ratios and sets of configurations",
  "neither robot has a test (the headers did not compile).",
  [I + "simple_se2_robot_model.hpp", I + "simple_se3_robot_model.hpp"], [("SimpleSE2Robot", I + "simple_se2_robot_model.hpp"), ("SimpleSE3Robot", I + "simple_se3_robot_model.hpp")],
  state=[("config_, pose_", "configuration and the cached pose", I + "simple_se2_robot_model.hpp")]),
P("E04", "Robot links may touch exactly when the model allows it",
  "A linked robot with geometry accepts exactly one geometry per link, named and ordered like the links, and allowed pairs of existing links. Two links may touch exactly when they are the same link or the pair was allowed in either order, whatever was listed twice and however the robot was moved or copied since; asking about a link that does not exist is refused. One-body robots never forbid contact and keep their geometry under the link's name.",
  ["inputs", "histories"], "all lists of links, geometries and allowed pairs, all pairs of queries, all later moves and copies",
  "no test covers the robots with geometry.",
  [I + "simple_robot_models.hpp"], [("LinkedRobotWithGeometry / GenerateAllowedSelfColllisionMap", I + "simple_robot_models.hpp")]),
P("E05", "The fixed arm kinematics place every link as the arm's model says",
  "For each of the four arms and every joint vector and base pose, each link's pose is its parent's pose followed by the joint's fixed offset and the rotation about its axis by the joint value, so that turning a joint moves no link before it and keeps the distance between neighbouring links. Giving the joints by name (missing ones are zero) and asking for poses by name give the same poses.",
  ["inputs"], "all joint vectors, partial joint maps and base poses",
  "no test covers the arm kinematics.",
  [I + "iiwa_7_fk_fast.hpp", I + "iiwa_14_fk_fast.hpp", I + "abb_irb1600_145_fk_fast.hpp", I + "ur_10_fk_fast.hpp"], [("GetLinkTransforms / GetLinkTransformsMap", I + "iiwa_7_fk_fast.hpp")]),
# ---------------------------------------------------------------- Python
P("Y01", "Sequence helpers keep order and drop or repeat only what they promise",
  "For every input sequence, chunking from the front yields consecutive full chunks in order and drops only an incomplete tail, chunking from the back drops only an incomplete head, zipping with repetition yields as many tuples as the longest input and repeats only last elements, and the uniqueness test is true exactly when no element repeats. The inputs are not modified, and one-pass iterators are consumed no further than needed.",
  ["inputs"], "all sequences, generators, sizes and numbers of arguments",
  "a few examples per helper are tested.",
  [S + "algorithms.py"], [("chunked_drop_last, reversed_chunked, zip_repeat_shorter", S + "algorithms.py")]),
P("Y02", "Nested dictionary update merges exactly the given leaves",
  "For every base and update dictionary, the nested update changes the base in place so that every leaf of the update is at its key path, keys not mentioned keep their values, mappings meeting mappings are merged recursively, and the update dictionary itself is not modified; no update leaves the base as it was. Rounding a dictionary keeps its keys and rounds each value without changing the original.",
  ["inputs"], "all nestings of base and update dictionaries",
  "one example is tested.",
  [S + "algorithms.py", S + "dict_tools.py"], [("nested_dict_update", S + "algorithms.py")]),
P("Y03", "Directory removal deletes only what was listed and confirmed",
  "Removing a directory tree deletes everything inside it and the directory itself, and nothing outside it, also when the tree contains symbolic links to files or directories elsewhere. Bulk removal deletes exactly the listed directories after an affirmative answer and nothing otherwise, and the clean-up scripts list exactly the direct subdirectories below the given size or file count. Path helpers never return an existing path as free and never create over an existing one.",
  ["inputs", "histories"], "all directory trees with files, links and nesting; all answers; all thresholds",
  "only the free-path helper has a test, for two names.",
  [S + "filesystem_utils.py", "scripts/remove_small_directories.py", "scripts/remove_directories_with_few_files.py"],
  [("rm_tree / ask_to_remove_directories", S + "filesystem_utils.py")]),
P("Y04", "Timeout wrappers return results or report the timeout, and disarm",
  "Whenever the alarm fires relative to the wrapped call, the timeout wrapper returns either the call's own result or the timed-out marker, passes other exceptions through, and never leaves an alarm armed behind it. The retrying generator yields only items produced by the wrapped generator, restarts it after each timeout and calls the callback once per timeout; the skipping one drops only the timed-out steps and both end when the generator ends.",
  ["schedules", "fault_sequences"], "all placements of alarms over the steps of the call or generator, all results and exceptions",
  "no test covers the timeout helpers.",
  [S + "catches.py"], [("catch_timeout / retry_on_timeout / skip_on_timeout", S + "catches.py")]),
P("Y05", "Conditional try catches exactly when asked",
  "With catching requested, any ordinary exception raised by the function is replaced by the fallback value and a normal result is returned as it is; interrupts and exits still propagate. Without it, results and exceptions pass through unchanged. The function is called exactly once, with exactly the given arguments.",
  ["inputs"], "all functions, results, exception types and arguments",
  "three examples are tested.",
  [S + "conditional_try.py"], [("conditional_try", S + "conditional_try.py")]),
P("Y06", "Polyline helpers stay on the path and travel the requested distance",
  "For every polyline and query point, the closest point returned lies on the polyline at the reported segment and fraction and no vertex or segment point is closer. Travelling along the path forwards or backwards returns a sub-path starting at the closest point to the given start, that follows the path's vertices in order and has the requested length unless the path ends first. Densifying keeps all vertices in order with no gap above the maximum, the length is the sum of the segment lengths, and reversing a trajectory mirrors its points and times.",
  ["inputs"], "all polylines including repeated points, query points, distances of either sign",
  "the path tests need ROS and check single examples.",
  [S + "path_utils.py"], [("closest_point / travel_along / densify", S + "path_utils.py")]),
P("Y07", "A listener always returns the latest message, whole and unshared",
  "Under every interleaving of incoming messages and reads, a read returns a private copy of a message that was the latest at some moment during the read, never an older one than an earlier read returned, and nothing when no message has come and blocking was not asked; a blocking read returns a message unless ROS shuts down. The user callback runs once per message, in order.",
  ["schedules"], "all interleavings of message callbacks and readers",
  "no ROS-free test covers the listener.",
  [S + "listener.py", S + "ros_helpers.py"], [("Listener.callback / get", S + "listener.py"), ("wait_for", S + "ros_helpers.py")],
  state=[("data / lock", "latest message and its lock", S + "listener.py")]),
P("Y08", "Continuously sent transforms have one live sender per frame pair",
  "After any history of starting, replacing and stopping continuous transform sending, each frame pair started and not stopped is sent by exactly one running sender with the latest transform given, starting returns only once that transform has been received, and stopping or closing ends all senders of the pair before returning. Operations on one frame pair never affect another.",
  ["histories", "schedules"], "all sequences of start, restart, stop and close over several frame pairs",
  "the test needs ROS and covers three fixed sequences.",
  [S + "reliable_tf.py", S + "tf2wrapper.py"], [("ReliableTF.start_send / stop_send / close", S + "reliable_tf.py")],
  state=[("managed_tfs", "thread and exit event per frame pair", S + "reliable_tf.py")]),
P("Y09", "ROS contexts and connection helpers always clean up and report",
  "A function run inside the ROS context returns its result or raises its exception unchanged, and ROS is initialised exactly once before it and shut down exactly once after it in either case. Waiting for a condition returns as soon as it holds or ROS shuts down; connecting publishers returns once all are connected and otherwise warns or raises, as asked, naming the unconnected ones. Looking up a transform waits until it is available, is interrupted when ROS shuts down meanwhile, and answers that transform; where the look-up itself fails, the matrix form answers nothing and the message form raises the failure.",
  ["fault_sequences", "histories"], "all outcomes of the wrapped function, all sequences of condition and connection states",
  "the tests need ROS.",
  [S + "ros_init.py", S + "ros_helpers.py", S + "tf2wrapper.py"], [("RosContext / with_ros", S + "ros_init.py"), ("wait_for / try_to_connect / get_connected_publisher", S + "ros_helpers.py"), ("get_transform / get_transform_msg", S + "tf2wrapper.py")]),
P("Y10", "Polynomial trajectories meet their boundary conditions",
  "For all start and target positions, velocities and durations, the linear, quadratic and cubic trajectories pass through the requested positions and velocities at the start and end, and the reported velocity and acceleration are the derivatives of the reported position, in every dimension independently.",
  ["inputs"], "all scalar and vector boundary conditions and durations",
  "single examples are tested.",
  [S + "trajectory_planning.py"], [("get_cubic_trajectory", S + "trajectory_planning.py")]),
P("Y11", "File sizes are parsed by their stated unit",
  "A size text made of a decimal number, an optional k, m or g of either case and an optional b is read as the number times one, a thousand, a million or a thousand million, rounded to whole bytes; any other text raises an error and is never read as a size.",
  ["inputs"], "all texts over digits, dot, units and other characters",
  "the test needs ROS and checks a few strings.",
  [S + "conversions.py"], [("parse_file_size", S + "conversions.py")]),
P("Y12", "Rigid transforms in Python form a group",
  "Composing transforms, poses, matrices and quaternions multiplies the rigid motions in the order given; inverting gives the motion that undoes it; applying a motion to points agrees with its matrix; every conversion between pose, transform, matrix and component forms, by axis and angle, by Denavit-Hartenberg parameters, by roll, pitch and yaw and by spherical coordinates denotes the same motion or point; normalised vectors and quaternions are unit and keep their direction; the angle between two quaternions is the angle of the rotation between them; no argument is changed.",
  ["inputs"], "all rotations and translations, both signs of every quaternion",
  "the Python helpers have no tests here (they need ROS).",
  [S + "transformation_helper.py", S + "numpy_conversions.py", S + "normalize_point_msg.py", S + "marker_utils.py", S + "conversions.py"],
  [("ComposeTransforms", S + "transformation_helper.py"), ("InvertTransform", S + "transformation_helper.py"), ("AxisFromQuaternion", S + "transformation_helper.py"), ("BuildMatrixFromDH", S + "transformation_helper.py"), ("ListPointsToNpArray", S + "numpy_conversions.py"), ("convert_to_pose_msg", S + "conversions.py")]),
P("Y13", "Colour maps are continuous and reach their control colours",
  "The hot-to-cold map goes from blue over cyan, green and yellow to red, one component at a time, clamped outside the range, for every range; the jet map is the trapezium map over -1..1 or 0..1 and refuses values outside; components of messages are clamped to 0..1; conversions between RGB, XYZ, Lab and Msh undo each other for every colour; the diverging map returns the given colours at its ends, is symmetric under exchanging them, and passes through grey between saturated colours of different hue.",
  ["inputs"], "all values, ranges and colours",
  "the colour helpers have no tests.",
  [S + "color.py"], [("interpolate_hot_to_cold", S + "color.py"), ("interpolate_jet", S + "color.py"), ("interpolate_coolwarm", S + "color.py"), ("convert_lab_to_msh", S + "color.py"), ("make_color", S + "color.py")]),
P("Y14", "The controller names the latest joystick state and waits for a press",
  "A controller object answers from the latest joystick message only: every button and axis under its own name in the layout of the chosen driver, a message of another layout is refused, a normalised axis is zero inside its small dead zone and otherwise the axis value (the horizontal axis of the left stick negated), unsupported axes are refused, and the three-dimensional motion combines its three axes. Waiting for a button returns promptly once the latest message shows it pressed or ROS shuts down, and not before. A click is exactly the release of its button.",
  ["histories", "schedules"], "all sequences of messages, questions, waits and shutdown, both drivers",
  "no test covers the controller.",
  [S + "xbox.py", S + "ros_helpers.py"], [("Xbox", S + "xbox.py"), ("joy_to_xbox", S + "ros_helpers.py")]),
P("S03", "ROS messages are written and read back identically",
  "A ROS message written into a byte buffer and read from it at the same offset is equal to the original in every field, reports the same number of bytes read as written, and leaves the rest of the buffer as it was; several messages written one after another are read back in order. Neither touches memory outside the message and the buffer.",
  ["inputs"], "all messages of every supported type, alone, in vectors and after any buffer contents",
  "no test covers the ROS wrappers.",
  ["include/arc_utilities/serialization_ros.hpp"], [("SerializeROSMessage / RosMessageSerializationWrapper", "include/arc_utilities/serialization_ros.hpp")]),
]
