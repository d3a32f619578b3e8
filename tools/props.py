# ---- saving and loading -------------------------------------------------------------------------
prop("C01", "A saved graph loads back as the same graph",
     "Saving a graph and loading the file yields a graph with the same polygons in the same order, every vertex at the same "
     "microdegree, the same edges between every pair of vertices, and the same meridian-crossing flag on each edge. It holds for any "
     "number of polygons, vertices and edges, including none.",
     ["inputs"], "all undirected graphs built from polygons, of any size and edge set, including negative coordinates and every vertex count modulo 8",
     "The round-trip tests save two or three tiny graphs; the packing of the adjacency bits depends on the vertex indices modulo 8 and on every single offset.",
     c(SER, GRAPH), [("writer and reader of the same layout", CODE + SER)], observe=["save_graph_to_file / load_graph_from_file"])
prop("C02", "Loading a damaged file raises an error and never reads outside it",
     "Whatever bytes a graph file contains, loading it either returns a graph or raises an error. It never reads outside the file's "
     "contents or outside a collection built from them.",
     ["inputs", "fault_sequences"], "all byte strings offered as a graph file: empty, truncated at any byte, with any count or index in it",
     "No test loads a damaged file; the failing inputs are truncations and corrupt counts at arbitrary places.",
     c(SER), [("bounds checks of the reader", CODE + SER)], observe=["load_graph_from_file"])
prop("C03", "A failed step of saving or loading is always reported",
     "Saving returns normally only if creating, sizing, closing, mapping and flushing the file all succeeded, and flushing comes after the last byte was written. "
     "Loading returns normally only if mapping the file succeeded.",
     ["fault_sequences"], "every failure of every fallible file operation of a save or a load",
     "The tests never make a file operation fail.",
     c(SER), [("errors of open, ftruncate, close, map and sync", CODE + SER)], observe=["save_graph_to_file", "load_graph_from_file"])
prop("C04", "No file descriptor or heap object is leaked on any path",
     "Every file descriptor opened and every object allocated by the library is released exactly once on every path, including the paths that raise an error.",
     ["fault_sequences", "inputs"], "every path through the code that opens a file or allocates an unmanaged object, including error paths",
     "A leak is invisible to a test that does not count descriptors, and the error paths are not tested.",
     c(SER, SEG), [("descriptor and raw pointer life cycles", CODE + SER)])
prop("C05", "A saved file is completely determined by the graph",
     "The length and every byte of a saved file depend only on the graph, not on what the file contained before or on the order of earlier operations.",
     ["inputs", "histories"], "all graphs, and every earlier content of the output path",
     "The tests always save to a new path.",
     c(SER), [("the file is emptied, then sized, then written", CODE + SER)], observe=["save_graph_to_file"])
prop("C06", "Saving never writes outside the space reserved for the file",
     "The size a file is given before it is mapped covers every byte written to it, for graphs of any number of polygons, vertices and meridian-crossing edges.",
     ["inputs"], "all graphs built from polygons, all vertex counts modulo 8, all numbers of meridian-crossing edges",
     "An off-by-one in the size formula stays inside the memory page for the small graphs of the tests.",
     c(SER), [("size formula and write offsets", CODE + SER)])

# ---- the graph ----------------------------------------------------------------------------------
prop("G01", "Edge updates and all edge queries of a graph agree",
     "After any sequence of adding and removing edges and adding vertices, the edge query, the neighbour list and the meridian flag of a graph agree with each other and with the history: "
     "exactly the added and not removed edges exist, in both directions unless they were added as directed ones. No vertex is its own neighbour, and an operation on one edge never changes another.",
     ["histories", "inputs"], "all sequences of operations on graphs of any size",
     "The tests sample a handful of short sequences on graphs of three to five vertices; a wrong cell or row shows only for other pairs.",
     c(GRAPH), [("adjacency matrix addressing", CODE + GRAPH)], state=[("adjacency matrix", "one cell per ordered vertex pair", CODE + GRAPH)])
prop("G02", "Concurrent use of a graph is free of data races and of deadlock",
     "Any number of threads may add, remove and query edges of one graph at the same time: every access to an edge happens under locks that exclude every conflicting access, "
     "locks are always taken in one global order, and no lock is left held.",
     ["schedules"], "all interleavings of edge operations by any number of threads on any pairs of vertices",
     "The tests use a graph from one thread only; a race or deadlock needs particular interleavings.",
     c(GRAPH), [("one shared mutex per vertex, taken in index order", CODE + GRAPH)])
prop("G03", "Graph equality and text depend on content, not on vertex order",
     "Two graphs compare equal exactly when they have the same vertices and the same edges with the same meridian flags, whatever order their polygons and vertices were given in, "
     "and their text representations are then identical.",
     ["inputs"], "all pairs of graphs, all orders of polygons and vertices",
     "The tests compare a few graphs; equal graphs with differently ordered polygons whose order-defining keys collide are not among them.",
     c(GRAPH), [("sorted text representation", CODE + GRAPH)], observe=["__repr__, __eq__ of a graph"])
prop("G04", "A temporary overlay answers like the base graph plus its own additions",
     "A graph overlay used for one query answers vertex, edge, meridian and neighbour queries exactly like the base graph with the overlay's own vertices and edges added, "
     "and never changes the base graph.",
     ["histories", "inputs"], "all base graphs and all sequences of additions to an overlay",
     "The tests check one overlay; combinations of base and overlay edges, and queries about the overlay's own vertices, are not covered.",
     c(MOD), [("overlay lookups", CODE + MOD)])
prop("M01", "Merging graphs yields exactly the union of their edges",
     "Merging any list of graphs yields a graph whose polygons are exactly the distinct polygons of the inputs, and in which two vertices are joined exactly when some input joins them, "
     "with the meridian flags of the inputs. The result does not depend on the order of the inputs and the inputs are not changed.",
     ["inputs", "schedules"], "all lists of graphs, including none and graphs sharing polygons, and all interleavings of the parallel merge",
     "One test merges two graphs with the same polygons.",
     c(GRAPH), [("merge loop over vertex pairs", CODE + GRAPH)], observe=["merge_graphs"])

# ---- concurrency --------------------------------------------------------------------------------
prop("O01", "Parallel loops share no unprotected mutable state",
     "In every parallel section each iteration writes only to storage of its own, to storage guarded by a lock or critical section, or to the result slot of its own index, "
     "and reads nothing that another iteration may write without such protection.",
     ["schedules"], "all interleavings of all iterations of every parallel section, for any number of threads",
     "A data race rarely shows in a test run and never deterministically.",
     c(VG, SP, GRAPH, POLY), [("OpenMP regions and their shared variables", CODE + VG)])
prop("O02", "An error inside a parallel section reaches the caller",
     "An error raised while a parallel section computes is reported to the caller as an error; it neither terminates the process nor is silently dropped.",
     ["inputs", "fault_sequences"], "every error any iteration of a parallel section can raise",
     "No test makes an iteration of a parallel section fail.",
     c(VG, SP, GRAPH), [("exceptions captured per iteration and rethrown after the region", CODE + VG)])
prop("O03", "Each result of a batch belongs to its own query alone",
     "A batch of path queries returns one result per query, in the order of the queries, and each is what the single query with the same options gives: "
     "the path, or the message of its error and no path. A failing query never affects another one.",
     ["inputs", "schedules"], "all batches, all mixtures of failing and succeeding queries, all schedules",
     "The tests run one batch with one failing pair.",
     c(SP), [("per-index result slot and per-iteration handler", CODE + SP)], observe=["shortest_paths"])

# ---- geometry -----------------------------------------------------------------------------------
prop("E01", "Geometric predicates are decided exactly on integer microdegrees",
     "Orientation of a point to a segment, orientation of two vectors, parallelism, reflexness of a corner and whether two segments meet are the exact answers on the integer microdegree coordinates: "
     "no rounding, truncation or integer overflow takes part, for all coordinates up to two full turns of longitude. Parallel segments are said to meet only where they share an end point.",
     ["inputs"], "all pairs and triples of coordinates with latitude in [-90, 90] degrees and longitude in [-540, 540] degrees",
     "The tests use small round numbers; overflow and rounding appear only for particular large or nearly collinear coordinates.",
     c(COORD, SEG, LINE3), [("64-bit cross products and their signs", CODE + COORD)])
prop("E02", "Longitude periodicity is applied consistently everywhere",
     "Normalising a coordinate brings its longitude into [-180, 180] degrees by whole periods and keeps its latitude; the periodic copies of a coordinate, segment or polygon are itself and one period to either side; "
     "and each is the normalised original again. A vertex is reported as visible across the meridian exactly when the copy seen lies outside [-180, 180].",
     ["inputs"], "all coordinates, segments and polygons",
     "The tests use a few longitudes; boundary values and mixed-up axes or signs are not among them.",
     c(PER, VT), [("periodic copies and normalisation", CODE + PER)])
prop("E03", "Values that compare equal have equal hashes",
     "Whenever two coordinates, segments or polygons compare equal, their hashes are equal, and equality is reflexive, symmetric and decides on all of the value's content; "
     "segments are equal regardless of direction.",
     ["inputs"], "all pairs of coordinates, segments and polygons",
     "The tests compare a few values and never look one up by an equal but differently written value.",
     c(COORD, SEG, POLY), [("equality and hash functions", CODE + SEG)])
prop("E04", "Every ordering used for sorting is a strict weak order",
     "Every comparison used to sort or to order a queue is irreflexive, asymmetric and transitive, and so is the induced equivalence, for all coordinates that can meet in one sort, including the observer itself, collinear and duplicate points.",
     ["inputs"], "all pairs and triples of coordinates met by a comparator",
     "A comparator that is not an order makes the sort undefined only for particular triples.",
     c(ANG, GRAPH, SSI, SP), [("comparators passed to sorts", CODE + ANG)])
prop("E05", "Longitude and latitude, degrees and microdegrees are never mixed up",
     "A longitude is only ever added to, compared with, stored in or returned as a longitude, a latitude as a latitude (products as in distances and cross products aside), and degrees never mix with microdegrees, in the native code, in the graph file, towards the spherical-geometry library and in the Python layer.",
     ["programs", "inputs"], "every expression of the library that handles a coordinate component",
     "A swap is invisible for the symmetric or single-axis coordinates of many tests.",
     c(COORD, SEG, PER, SER, VT, SSI) + [PY + "path_interpolator.py", PY + "graph_generator.py", PY + "shapefiles/shapefile_reader.py"],
     [("axis and unit of every component", CODE + COORD)])
prop("E06", "Coordinate arithmetic is componentwise",
     "Adding, subtracting and negating coordinates, scaling them, and their products and squared magnitudes act on each axis as vector arithmetic does: no axis is dropped, swapped or counted twice, and a zero vector has magnitude zero.",
     ["inputs"], "all coordinates and scalars",
     "The tests use a few vectors.",
     c(COORD), [("vector operations", CODE + COORD)])
prop("E07", "Polygon edges and winding canonicalisation",
     "The edges of a polygon join each vertex to the next and the last to the first, each exactly once; construction keeps the vertices in order or in reversed order, "
     "drops exactly the vertices collinear with their neighbours at which the outline does not turn back, and reverses exactly the clockwise ones.",
     ["inputs"], "all vertex lists",
     "The tests construct a few polygons.",
     c(POLY), [("canonicalisation of vertex lists", CODE + POLY)])
prop("E08", "The open-edge set of a scan holds exactly the inserted, not yet removed edges",
     "For edges at pairwise different distances, after every history of insertions and removals: the closest edge is the one of smallest distance among those inserted and not removed since (inserting one again changes nothing), "
     "removing an edge removes that edge and no other, removing one that is not there changes nothing, and the set is empty exactly when nothing is left.",
     ["histories", "inputs"], "all histories over the edges of a scan; distances beyond 32 bits included",
     "The tests insert a few edges at distinct distances.",
     c(OE), [("two maps kept in step", CODE + OE)])

prop("E09", "A corner hides the land from its own vertex",
     "From a polygon's vertex, exactly the directions strictly inside the corner, and the points on the line of either edge beyond the adjacent vertex, are hidden by the corner itself; "
     "a scan from a polygon's vertex reports no vertex that its own corner hides.",
     ["inputs"], "all corners, convex and reflex, and all points",
     "The tests look at a few corners and points; the boundary directions and reflex corners are not covered.",
     c(LINE3, VT), [("corner visibility rule", CODE + LINE3), ("candidate filter of the scan", CODE + VT)])
prop("E10", "Vertices are scanned counter-clockwise, nearer first",
     "Sorting vertices around an observer returns exactly the given vertices, in counter-clockwise order starting from the positive horizontal, the nearer of two in the same direction first and the observer itself before all others.",
     ["inputs"], "all observers and lists of vertices",
     "The tests sort a few lists; directions half a turn apart and equal directions at large coordinates are not among them.",
     c(ANG), [("angular comparator", CODE + ANG)])

# ---- shortest paths -----------------------------------------------------------------------------
prop("P01", "A returned path starts at the source and ends at the destination",
     "Every path returned starts at the requested source and ends at the requested destination, normalised to [-180, 180] degrees of longitude, each replaced by its projection onto the coast only if land correction was asked for and it lies on land.",
     ["inputs"], "all graphs, sources, destinations and options",
     "The tests check a few paths.",
     c(SP), [("path reconstruction", CODE + SP)], observe=["shortest_path"])
prop("P02", "Without land correction a query on land is refused",
     "If the source or the destination lies strictly inside a polygon and land correction was not asked for, the query raises an error; otherwise a point not on land is never moved, and a point on land is moved onto the closest coast segment.",
     ["inputs"], "all graphs, sources, destinations",
     "The tests check one point per case.",
     c(SP, SSI), [("land check before the search", CODE + SP)], observe=["shortest_path"])
prop("P03", "Every hop of a path is a graph edge or an unobstructed direct line",
     "A returned path is either the direct line between its ends, and then only if that line crosses no coast segment other than those the ends were moved onto, "
     "or each of its steps is an edge of the graph extended by what the source and the destination can see.",
     ["inputs"], "all graphs, sources and destinations",
     "The tests compare a few paths with expected ones.",
     c(SP), [("predecessor links recorded only for neighbours of expanded vertices", CODE + SP)], observe=["shortest_path"])
prop("P04", "The search limit excludes every vertex farther from the source",
     "A path found by searching never visits a vertex whose direct distance to the source, measured over the meridian if shorter, exceeds the search limit. With an infinite limit no vertex is excluded.",
     ["inputs"], "all graphs, sources, destinations and limits",
     "The tests try one limit.",
     c(SP), [("limit test before a vertex enters the queue", CODE + SP)], observe=["shortest_path"])
prop("P05", "A query has no effect on the graph or on later queries",
     "Answering a path query changes neither the graph nor anything else that a later or concurrent query reads; no answer depends on earlier queries.",
     ["histories", "schedules"], "all sequences and interleavings of queries",
     "Tests run queries one at a time and do not compare repeated answers.",
     c(SP, VT, SSI, MOD), [("const queries and per-query overlay", CODE + SP)])
prop("P06", "Every option and coordinate reaches the search unchanged",
     "The search limit, the land-correction flag, the greediness weight and the coordinates a user passes reach the native search unchanged and in their own role, with the same documented defaults (no limit, no correction, weight 1) at every layer, for single and batch queries alike; "
     "results come back in the order and orientation the search produced.",
     ["configurations", "inputs"], "all combinations of options, given or defaulted, positional or by name, in single and batch queries",
     "The tests leave most options at their defaults, so a dropped or swapped option is invisible.",
     c(SP) + ["capi/src/implementation/visibility_graphs/bindings.cpp", PY + "path_interpolator.py", "capi/src/interfaces/path_interpolator.py"],
     [("forwarding through Python, bindings and native code", PY + "path_interpolator.py")], observe=["PathInterpolator.interpolate", "PathInterpolator.batch_interpolate"])
prop("P07", "Distances are planar distances in degrees, over the meridian when told so",
     "The length of a step is the straight distance between its ends, or for a step over the meridian the shorter of the distances to the two periodic copies of one end; "
     "the distance estimate is symmetric and is the smallest of the three; the queue is ordered by distance so far plus weight times estimate.",
     ["inputs"], "all pairs of coordinates and all weights",
     "The tests check path shapes, not lengths, and mostly without the meridian.",
     c(SP), [("distance and estimate functions, queue order", CODE + SP)])

prop("P08", "The search relaxes every neighbour and ends only at the destination",
     "The route search takes the queue's first vertex, examines every neighbour of it, and records distance and predecessor of a neighbour and queues it exactly when the "
     "neighbour lies within the limit and no distance as short is recorded for it; it ends exactly when the destination is taken or nothing is left to examine.",
     ["inputs", "histories"], "all graphs, all queries, all weights and limits, every round of the search",
     "The tests run a dozen queries on two small graphs; a skipped neighbour only shows on the one query whose shortest route uses it.",
     c(SP), [("search loop: queue, recorded distances and predecessors", CODE + SP)])

prop("S01", "Coordinates and points of the sphere stand for the same places",
     "A coordinate converted for spherical geometry is the point at its latitude and longitude; a point of the sphere converted back is the coordinate nearest to it (so converting there and back "
     "changes nothing); a point projected onto a segment becomes the nearest place on that segment.",
     ["inputs"], "all coordinates on the globe, all points, all segments",
     "The tests convert two points whose latitude and longitude are whole degrees.",
     c("types/coordinate/coordinate.cpp") + c("types/line_segment/line_segment.cpp"),
     [("conversions", CODE + "types/coordinate/coordinate.cpp"), ("projection", CODE + "types/line_segment/line_segment.cpp")])
prop("S02", "The land index holds every polygon and answers exactly what is asked",
     "The index of a planner holds every polygon of its graph exactly once with its own vertices. A point counts as on land exactly when it is strictly inside some polygon (a vertex or edge of a coast is not land); "
     "the closest segment is an edge of the nearest boundary, and an error is raised only when there is none; the segments a line meets are exactly the edges sharing a point with it, touching included, each with its own ends.",
     ["inputs"], "all polygon sets, all points, all segments",
     "The tests ask about one or two squares; a boundary point or a touching segment is not among the questions.",
     c("datastructures/spatial_segment_index/spatial_segment_index.cpp") + c("types/polygon/polygon.cpp") + c(SP),
     [("index and its queries", CODE + "datastructures/spatial_segment_index/spatial_segment_index.cpp"), ("outline of a polygon on the sphere", CODE + "types/polygon/polygon.cpp"), ("planner", CODE + SP)])

prop("W01", "A scan looks at every corner in turn, past exactly the edges then in the way",
     "A scan reports vertices of the outlines in the counter-clockwise order it is given by the sort. When it looks at a vertex, the edges in the way are those that the ray to the east crosses away from their ends (edges of the observer's own corner aside), "
     "plus the edges that began (counter-clockwise of the line of sight) and minus those that ended (clockwise of it) at the vertices looked at before and at this one's own ended edges. "
     "The vertex is reported exactly when the nearest of these edges (by where each came into the way) does not meet the line of sight short of the vertex, and the observer, when it is a corner itself, does not look into its own outline. "
     "A half scan stops at the first vertex below the observer; a whole one leaves out nothing. Every vertex of every outline is looked at, with the two edges that join it to its neighbours, the first and last vertex included; each is reported at its normal position with whether it was seen across the meridian.",
     ["inputs", "histories"], "all outlines, observers and orders of events (the geometric predicates themselves: E01)",
     "The tests compare complete scans of a few squares and triangles, where most orders of events never occur.",
     c(VT, OE), [("rotational sweep and its map of edges", CODE + VT)])

# ---- generation ---------------------------------------------------------------------------------
prop("R01", "Splitting a generation covers every vertex exactly once",
     "For every number of splits and every vertex count, the ranges of all split numbers partition the vertices: no vertex is left out and none is processed twice; "
     "the order of the vertices depends only on the seed and the input, so all splits see the same order.",
     ["inputs", "configurations"], "all vertex counts, numbers of splits, split numbers and seeds",
     "One test runs two splits of one file.",
     [PY + "graph_generator.py"] + c(VG), [("split bounds", PY + "graph_generator.py"), ("seeded shuffle", CODE + VG)], observe=["GraphGenerator.generate_for_vertex_range"])
prop("R02", "Generated edges are exactly the visibilities computed for each vertex",
     "A generated graph has the input's polygons, and its edges are exactly those from each processed vertex to every vertex reported visible from it among the polygons and their periodic copies, with the reported meridian flag; a full generation processes every vertex, a partial one exactly those of its range; an improper range raises an error.",
     ["inputs"], "all polygon sets and ranges",
     "The tests generate two tiny graphs.",
     c(VG), [("generation loops", CODE + VG)], observe=["generate_visgraph", "generate_visgraph_with_shuffled_range"])

# ---- the Python layer ---------------------------------------------------------------------------
prop("Y01", "The Python layer reads and writes exactly the files it is told to",
     "Generating writes the graph it computed from the given shapefile to the default file of the given output folder, which must not exist before; merging loads the default file of every given folder and no other, and writes the merged graph of all of them to the output folder; "
     "a path query uses the graph of the given folder.",
     ["inputs", "configurations"], "all paths, all lists of input folders",
     "The tests use one folder each, or mocks.",
     [PY + "graph_generator.py", PY + "graph_merger.py", PY + "path_interpolator.py", PY + "datastructures/graph_file_paths.py"],
     [("path handling of generator, merger and interpolator", PY + "graph_merger.py")])
prop("Y02", "Reading a shapefile keeps every vertex of an outline, in order",
     "Every polygon shape with at least three distinct outline vertices becomes one polygon with exactly the vertices of its first ring, without the repeated closing vertex, in order and on the right axes; other shapes are skipped; no shape is dropped or duplicated.",
     ["inputs"], "all shapefiles",
     "One test reads one file.",
     [PY + "shapefiles/shapefile_reader.py", PY + "datastructures/polygon.py"], [("reader loop", PY + "shapefiles/shapefile_reader.py")])

prop("B01", "The Python names stand for the native operations of the same meaning",
     "Every class, attribute, method, operator and function of the native Python module is the native operation of that name, applied to its arguments in their order: longitude and latitude, the path and the error of a batch result, "
     "graph queries and updates, generation, merging, saving and loading; the package re-exports each under its own name, and a coordinate is constructed from longitude, then latitude.",
     ["inputs", "configurations"], "all names of the module, all arguments",
     "Most names are used by one Python test or none, and a swapped pair of similar entries is invisible on symmetric data.",
     ["capi/src/implementation/visibility_graphs/bindings.cpp", "capi/src/implementation/visibility_graphs/__init__.py"],
     [("binding table", "capi/src/implementation/visibility_graphs/bindings.cpp")], observe=["capi.src.implementation.visibility_graphs"])

# ---- outside the reach of the family ------------------------------------------------------------
prop("V01", "A vertex is reported visible exactly when the line to it is free of land",
     "From any observer, exactly those vertices are reported visible whose straight connection does not cross the interior of any polygon.",
     ["inputs"], "all polygon sets and observers",
     "The tests check a few observers.",
     c(VT, OE, ANG), [("rotational sweep", CODE + VT)],
     na="It does not hold, and cannot be decided here: the sweep orders open edges by the distance at which each was opened and tests only the nearest, so about one random scan in two thousand reports a vertex behind land (scene in DESIGN.md); "
        "testing every open edge would repair it at a cost per vertex no small patch should impose. Beyond that, correctness of the rotational sweep is a geometric theorem about the run-time order of events (and depends on how equal distances, collinear vertices and the observer's own corner are resolved); no sound static argument in reach bounds it.")
prop("V02", "A returned path is a shortest one",
     "With the default greediness weight and no limit, no path along the graph's edges from source to destination is shorter than the returned one.",
     ["inputs"], "all graphs and queries",
     "The tests check a few paths.",
     c(SP), [("best-first search", CODE + SP)],
     na="Optimality of the search depends on run-time distances and on the estimate being a lower bound along every path (with floating-point rounding); it quantifies over all graphs and cannot be bounded by a static argument here. The ingredients that are decidable are P03, P04 and P07.")
prop("V03", "A crash during saving never leaves a file that loads as a different graph",
     "If the process or machine stops at any point during a save, loading the file afterwards raises an error or yields the saved graph, never another one.",
     ["crash_points"], "all crash points of a save",
     "No test crashes a save.",
     c(SER), [("in-place writing of the mapped file", CODE + SER)],
     na="The format has no checksum, length or completion mark, and the file is written in place through a mapping, so the property does not hold by design; making it hold changes the file format or the save protocol, which is not a small repair, and which bytes survive a crash is decided by the kernel at run time.")
prop("V04", "Degrees are converted to the nearest microdegree",
     "A coordinate given in degrees is stored as the nearest microdegree, so that reading it back and storing it again changes nothing.",
     ["inputs"], "all coordinates in degrees",
     "The tests use coordinates exactly representable after conversion.",
     c(COORD), [("conversion macros", CODE + COORD)],
     na="The library truncates instead of rounding, its expected results in the test suite depend on that, and what truncation does to a product of two floating-point numbers is a question about run-time values; recorded as a design limitation in DESIGN.md.")
prop("V05", "Every query terminates, in time bounded by the graph",
     "Every query and every generation terminates, and its running time is bounded by a function of the number of vertices and edges.",
     ["inputs"], "all inputs",
     "Tests run small inputs only.",
     c(SP, VG), [("search loop", CODE + SP)],
     na="Termination of the best-first search rests on distances decreasing strictly in floating-point arithmetic over run-time values; no static argument in reach bounds it.")
