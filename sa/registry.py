"""property -> check function and its description"""
import importlib

TECH = "static analysis: gated value-flow (global value numbering) of the resolved AST"
META = {}


def reg(pid, fn, technique, explanation, level="other", assumptions=()):
    META[pid] = {"fn": fn, "technique": technique, "explanation": explanation, "level": level, "assumptions": list(assumptions)}


def function(pid):
    m, _, f = META[pid]["fn"].partition(":")
    return getattr(importlib.import_module("sa.checks." + m), f)


BASE = ("Decided from the source on every run: the translation units of /repo are parsed with clang, every anchored function is summarised by abstract "
        "interpretation (gated value flow, joins at merges, loops solved as recurrences, nothing executed), and each obligation compares a summary with the rule. "
        "A violation is reported only on a definite mismatch; what the analyser cannot interpret is counted as undetermined in the evidence. ")
TRUST = ("clang's parse of the sources is faithful",
         "the models of the C++ standard library, POSIX, mio, fmt, OpenMP and S2 calls used in the sources are right")

reg("G01", "graph:g01", TECH, BASE + "Rule: representation function of the adjacency matrix per query and update; each update's effect on each query.", assumptions=TRUST)
reg("G02", "graph:g02", TECH + "; lockset and lock-order analysis", BASE +
    "Rule: every access to an adjacency cell is made under both vertices' locks (shared suffices for reads), and every pair of locks is taken in index order.", assumptions=TRUST)
reg("G03", "graph:g03", TECH, BASE + "Rule: text and equality are functions of the vertex and edge sets only; the sorting comparator is a total order.", assumptions=TRUST)
reg("G04", "graph:g04", TECH, BASE + "Rule: each overlay query equals the query on the union of base and overlay; the base is never written.", assumptions=TRUST)
reg("E01", "geom:e01", TECH, BASE + "Rule: the sign of every predicate equals the sign of the exact integer expression, and every intermediate fits its type over the stated coordinate range.", assumptions=TRUST)
reg("E02", "geom:e02", TECH, BASE + "Rule: normalisation, periodic copies and the scan's meridian flag equal their definitions with the named period.", assumptions=TRUST)
reg("E03", "geom:e03", TECH, BASE + "Rule: equality is an equivalence on all content and hash is a function of equality's classes.", assumptions=TRUST)
reg("E06", "geom:e06", TECH, BASE + "Rule: every operator equals the componentwise formula.", assumptions=TRUST)
reg("E07", "geom:e07", TECH, BASE + "Rule: edges of an outline, orientation by exact signed area, and the vertices kept, for outlines with symbolic vertices.", assumptions=TRUST)
reg("E09", "geom:e09", TECH, BASE + "Rule: the corner's answer is the exact sector formula; the scan filters by it.", assumptions=TRUST)
reg("E04", "order:e04", TECH, BASE + "Rule: each comparator extracted at a sort or queue is irreflexive, asymmetric, transitive, with transitive equivalence, over the sign algebra of its atoms.", assumptions=TRUST)
reg("E10", "order:e10", TECH, BASE + "Rule: the comparator orders by exact direction then distance; the output is a permutation of the input.", assumptions=TRUST)
reg("P07", "order:p07", TECH, BASE + "Rule: distance functions and queue comparator equal their formulas.", assumptions=TRUST)

reg("S01", "space:s01", TECH, BASE + "Rule: the conversions, read with the documented meaning of the sphere library's own, place a coordinate at its latitude and longitude, a point at its nearest coordinate, and a projection on the nearest point of the segment.", assumptions=TRUST)
reg("S02", "space:s02", TECH, BASE + "Rule: shapes added for symbolic outlines; questions asked of the index, their options and what their answers become.", assumptions=TRUST)
reg("P08", "path:p08", TECH, BASE + "Rule: the two nested loops of the search, their ends, and the condition under which each neighbour is recorded and queued, equal their formulas.", assumptions=TRUST)
reg("P01", "path:p01", TECH, BASE + "Rule: first and last vertex of every returned list, for the direct line and for the list rebuilt after 0 to 3 steps.", assumptions=TRUST)
reg("P02", "path:p02", TECH, BASE + "Rule: the normal-return condition excludes an end on land without correction, for all eight cases; the ends equal their specified positions.", assumptions=TRUST)
reg("P03", "path:p03", TECH, BASE + "Rule: condition of the direct line; every step of a rebuilt path is a recorded predecessor; predecessors are recorded only along neighbours; edges added to the overlay.", assumptions=TRUST)
reg("P04", "path:p04", TECH, BASE + "Rule: the path condition of every queue insertion and predecessor record implies, and depends on the limit only through, the estimate from the source being within the limit.", assumptions=TRUST)
reg("P05", "path:p05", TECH + "; effect analysis and reachability of shared state over the call graph", BASE +
    "Rule: no write in a summary reaches an object older than the call; no reachable function changes a mutable field, static local or global.", assumptions=TRUST)

PYT = "static analysis: abstract evaluation of the Python syntax tree into closed-form summaries; binding table read from the C++ AST"
PYB = ("Decided from the source on every run: every Python function is summarised path by path over its syntax tree, each loop body once at a symbolic index (comprehension, sum, first stop), nothing is imported or run; "
       "the summary and the rule are compared as terms in random interpretations. The names bound to native code are read from the clang AST of the bindings. What has no closed form is counted as undetermined. ")
PYA = ("the Python standard library and pyshp calls used mean what their documentation says", "clang's parse of the bindings is faithful")
reg("P06", "pylayer:p06", PYT, PYB + "Rule: arguments of the native search for six ways of giving the options, results in order, signatures and defaults at every layer, bindings forward in place.", assumptions=PYA)
reg("B01", "pylayer:b01", PYT, PYB + "Rule: each exported name is bound to the native entity the specification table names.", assumptions=PYA)
reg("R01", "pylayer:r01", PYT, PYB + "Rule: union of the ranges of all splits; seeded shuffle.", assumptions=PYA)
reg("Y01", "pylayer:y01", PYT, PYB + "Rule: the trace of file effects of every entry point.", assumptions=PYA)
reg("Y02", "pylayer:y02", PYT, PYB + "Rule: the polygons returned for every list of shapes with points and parts.", assumptions=PYA)
reg("R02", "gen:r02", TECH, BASE + "Rule: the arguments, the conditions and the index sets of every edge insertion of both generation loops equal their specification, as do the vertices processed and the range accepted.", assumptions=TRUST)
reg("O01", "omp:o01", TECH + "; conflict analysis of the accesses in each parallel section", BASE +
    "Rule: two accesses of different iterations to one place, one of them a write, share a lock or touch different elements; what runs in a section keeps no state between calls.", assumptions=TRUST)
reg("O02", "omp:o02", TECH, BASE + "Rule: with every given operation assumed able to fail, no exception leaves a parallel section, and the call does not return normally when some iteration failed (a batch: its result says so).", assumptions=TRUST)
reg("O03", "omp:o03", TECH, BASE + "Rule: the closed form of the result's element i is the outcome of query i.", assumptions=TRUST)
reg("M01", "omp:m01", TECH, BASE + "Rule: the index sets, conditions and arguments of every edge insertion of the merge equal the union of the inputs' edges; the polygons are the set of the inputs' polygons.", assumptions=TRUST)
FM = TECH + "; summaries composed over a common model of the file"
reg("C01", "file:c01", FM, BASE + "Rule: the reader's polygons, edges and flags, as terms over the file, interpreted over the bytes the writer's terms store, are those of the graph, for graphs of every vertex count modulo 8.", assumptions=TRUST)
reg("C02", "file:c02", FM, BASE + "Rule: at every access of the reader the index is below the length, over truncated and corrupted files.", assumptions=TRUST)
reg("C03", "file:c03", FM, BASE + "Rule: the condition of the normal return excludes the failure of every file operation reached; the flush follows the last store.", assumptions=TRUST)
reg("C05", "file:c05", FM, BASE + "Rule: the content after the recorded file effects is the same whatever the file held, and the stored values use nothing but the graph.", assumptions=TRUST)
reg("C06", "file:c06", FM, BASE + "Rule: every store's place is below the size the file was given.", assumptions=TRUST)
reg("C04", "file:c04", TECH + "; typestate of descriptors and unmanaged objects", BASE + "Rule: for every combination of failing file operations a descriptor is closed exactly once before the exit taken, and not used afterwards; "
    "every object created with new is deleted exactly once on every exit, given to a smart pointer or handed to the callers, which are then judged.", assumptions=TRUST)
reg("W01", "sweep:w01", TECH, BASE + "Rule: over scenes of named corners and outlines, the vertices reported, in order, equal the specified sweep for arbitrary geometric relations; "
    "the two entry points sweep over exactly the corners and edges there are.", assumptions=TRUST)
reg("E08", "sweep:e08", TECH, BASE + "Rule: from the empty set, the abstract states reachable by insertions and removals of three edges are followed to a fixed point; in every one the answers are those of a set ordered by distance.", assumptions=TRUST)
reg("E05", "axes:e05", TECH + "; dimension inference over value terms", BASE + "Rule: sums, comparisons and alternatives have one dimension (power of length, parity per axis, unit); the fields of every coordinate built, the sphere, the file, "
    "the Python layer and the bindings get longitudes and latitudes in their places.", assumptions=TRUST)
