#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
S = "src/cliquematch/"
p("C01", "Operations on an unbuilt graph raise RuntimeError",
  "Searching, resetting, querying, exporting or enumerating a graph (plain, weighted or correspondence) that has no vertices, because it was only default constructed or was built from empty input, raises RuntimeError. No such call touches graph data that does not exist, and building a correspondence from an unbuilt graph raises as well.",
  ["histories", "inputs"], "all public operations, in every order, on graphs in every build state",
  "The tests build a graph before every operation except two; no test calls reset, neighbour query, iteration or weight queries on an unbuilt object, and a crash there is a null dereference that only that call order shows.",
  [S+"core/pygraph.cpp", S+"core/pynwgraph.cpp", S+"core/pyiterator.h", S+"ext/Isograph.cpp"],
  [("loaded check before every use of the graph handle", S+"core/pygraph.cpp check_loaded"),
   ("iterator constructors refuse an unbuilt graph", S+"core/pyiterator.h"),
   ("subgraph isomorphism builder refuses empty graphs", S+"ext/Isograph.cpp build_edges_for_iso")],
  [("graph handle", "null until edges are loaded", S+"core/pygraph.h")], ["Python exceptions", "process exit status"])
p("C02", "Vertex numbers outside 1..n never enter a graph",
  "A constructor that receives a vertex number that is 0 or greater than the number of vertices raises RuntimeError (edge list, adjacency list) or drops that edge (file). No vertex number outside 1..n therefore appears as an end point of a stored edge.",
  ["inputs"], "all edge lists, adjacency lists, matrices and files",
  "Out-of-range numbers are tested for one constructor and one position; the sentinel number 0, the second column, the weighted constructors and the file reader are not.",
  [S+"core/pygraph.cpp", S+"core/pynwgraph.cpp", S+"detail/mmio.cpp"],
  [("range test before storing an edge", S+"core/pygraph.cpp from_edgelist"), ("invalid edges replaced by sentinel loops", S+"detail/mmio.cpp mmio4_reader")],
  [], ["to_edgelist", "to_adjlist", "RuntimeError"])
p("C03", "Caller arrays are read only inside their bounds",
  "Constructors and edge builders read the arrays, matrices, weights, lists and masks passed by the caller only at positions that exist in them, for every shape of input. Input whose shape does not fit (non-square matrix, missing column, wrong number of weights, list of the wrong length) raises RuntimeError.",
  ["inputs"], "all shapes of input arrays",
  "The accessors do not check bounds, so a missing shape test reads foreign memory and usually still returns a plausible graph; tests use well-shaped inputs plus one non-square matrix.",
  [S+"core/pygraph.cpp", S+"core/pynwgraph.cpp", S+"ext/Aligngraph.cpp"],
  [("shape tests before the loops", S+"core/pynwgraph.cpp nw_from_edgelist"), ("loop bounds equal to tested shapes", S+"core/pygraph.cpp from_adj_matrix"), ("mask bounds test", S+"ext/Aligngraph.cpp filter_score")])
p("C04", "Each vertex keeps the weight the caller gave it",
  "For every way of building a weighted graph, vertex v (numbered from 1) has the v-th weight supplied by the caller. The reported vertex weights, neighbour queries, clique weights, weighted degrees and weighted searches all use that same weight for v.",
  ["inputs", "configurations"], "all weighted constructors and all weight queries",
  "Tests use equal or near-equal weights or compare only one constructor, so weights shifted by one vertex, or taken from another neighbour inside the search, go unnoticed.",
  [S+"core/pynwgraph.cpp", S+"detail/nwgraph/nwgraph.cpp", S+"detail/nwgraph/nw_dfs.cpp", S+"detail/nwgraph/nw_enumerate.cpp", S+"detail/nwgraph/nw_heuristic.cpp", S+"detail/nwgraph/nwclique.cpp"],
  [("sentinel weight in front of the caller's weights", S+"core/pynwgraph.cpp"), ("weights copied by vertex id", S+"detail/nwgraph/nwgraph.cpp nwgraph::nwgraph"), ("per-root weight table filled from the neighbour's id", S+"detail/nwgraph/nw_dfs.cpp process_vertex")])
p("C05", "Every built graph is undirected and contains every vertex",
  "Whatever constructor, reader or correspondence builder made the graph, if b is a neighbour of a then a is a neighbour of b. Every vertex 1..n exists in the graph, also when no edge mentions it.",
  ["inputs"], "all constructors, readers and correspondence builders",
  "The search silently misses or invents cliques if one direction or one isolated vertex is lost; tests use dense graphs given in both directions.",
  [S+"core/pygraph.cpp", S+"core/pynwgraph.cpp", S+"detail/mmio.cpp", S+"detail/graph/graph.cpp", S+"templates/ext_template.hpp"],
  [("each edge pushed in both directions", S+"core/pygraph.cpp from_edgelist"), ("self entry for every vertex including the sentinel", S+"templates/ext_template.hpp edges_from_relsets")])
p("C06", "All exports and counts describe the same edge set",
  "Edge list, matrix, adjacency list, file export, neighbour queries and the reported number of edges of one graph describe the same set of undirected edges: each edge appears once in the edge list and the file, and in both positions of matrix and adjacency list. The number of rows equals the reported number of edges, which equals the number of edges in the graph.",
  ["inputs", "histories"], "all graphs, including ones built from duplicate, looped or asymmetric input",
  "Tests round-trip clean symmetric graphs; an export that drops or misplaces an edge, or a count taken from dirty input, needs other inputs.",
  [S+"core/pygraph.cpp", S+"core/pynwgraph.cpp", S+"detail/graph/graph.cpp", S+"detail/nwgraph/nwgraph.cpp"],
  [("edge visitor passes each edge once, smaller id first", S+"detail/graph/graph.cpp send_data"), ("edge count taken from the stored graph", S+"core/pygraph.cpp load_graph")])
p("C07", "Correspondence vertices encode and decode the same pair",
  "The vertex that stands for the pair (i-th element of the first set, j-th of the second) when edges are built is decoded to exactly that pair when a correspondence is returned, by the one-shot search and by the iterators. A correspondence graph has one vertex per pair.",
  ["inputs"], "all set sizes, all pairs, all correspondence graph classes",
  "Square or equal-sized inputs hide swapped lengths and swapped roles; tests mostly use equal set sizes or compare only sizes.",
  [S+"templates/ext_template.hpp", S+"detail/graph/graph.cpp", S+"core/pygraph.cpp", S+"core/pynwgraph.cpp", S+"core/pyiterator.cpp", S+"wrappers/_gen_graph.py", S+"wrappers/isograph.py"],
  [("i*|S2|+j+1 encoding", S+"templates/ext_template.hpp"), ("division and remainder by |S2|", S+"core/pygraph.cpp get_correspondence2"), ("lengths passed from the wrappers", S+"wrappers/_gen_graph.py")])
p("C08", "Correspondence edges satisfy the rule for exactly that mapping",
  "Two pairs are joined in a correspondence graph only if they use different elements of both sets and the matching rule holds for that mapping: the distances differ by at most epsilon and the condition function, if given, returned true for these elements in this order; for subgraph isomorphism an edge of the second graph needs an edge of the first. All combinations of element pairs are considered.",
  ["inputs"], "all sets, metrics, symmetry flags, epsilons and condition functions",
  "Tests use symmetric metrics and conditions and check the size of the result; a condition evaluated on another mapping, or a window that is off by one, rarely changes that.",
  [S+"templates/ext_template.hpp", S+"templates/relset.hpp", S+"templates/pair_dist.hpp", S+"detail/graph/graph.cpp", S+"ext/Aligngraph.cpp"],
  [("epsilon window test", S+"templates/ext_template.hpp edges_from_relsets"), ("condition called with the mapping being added", S+"templates/ext_template.hpp efr_condition"), ("pair table with distinct elements", S+"templates/relset.hpp fill_dists")])
p("C09", "Each search returns all scratch memory it borrowed, zeroed",
  "When a search (heuristic, exhaustive, time-limited) returns, on whatever path and for whatever reason it stopped, the graph has exactly as much scratch memory available as before and it is zero. An enumeration that has been exhausted leaves the graph in that state too.",
  ["histories", "inputs"], "all searches, all ways they stop, any sequence of searches on one graph",
  "A leak or a dirty word shows only after many searches, or on graphs where the search stops early at a bound or deadline.",
  [S+"detail/graph/dfs_stack.cpp", S+"detail/graph/dfs_recurse.cpp", S+"detail/graph/enumerate.cpp", S+"detail/graph/heuristic.cpp", S+"detail/nwgraph/nw_dfs.cpp", S+"detail/nwgraph/nw_enumerate.cpp", S+"detail/nwgraph/nw_heuristic.cpp"],
  [("stack allocator with matching load and clear", S+"detail/graph/graph.h load_memory, clear_memory")],
  [("allocation cursor", "first free word of the scratch area", S+"detail/graph/graph.h search_cur")])
p("C10", "The recorded best clique, its size and its place always agree",
  "Whenever a search records a better clique it stores the members, the size or weight and the vertex it belongs to together, and only if it is strictly better than the recorded one. The size recorded is that of the members stored, and nothing else overwrites the members of the recorded clique.",
  ["inputs", "histories"], "all graphs, searches, and sequences of searches and enumerations",
  "A torn record is visible only if a search stops right after it, or if a later search reuses the record; tests check single searches.",
  [S+"detail/graph/dfs_stack.cpp", S+"detail/graph/dfs_recurse.cpp", S+"detail/graph/heuristic.cpp", S+"detail/nwgraph/nw_dfs.cpp", S+"detail/nwgraph/nw_heuristic.cpp", S+"detail/graph/enumerate.cpp", S+"detail/nwgraph/nw_enumerate.cpp"],
  [("record updated in one block under a strict test", S+"detail/graph/dfs_stack.cpp process_vertex")])
p("C11", "Each pair of neighbours is searched from exactly one of them",
  "The rule that decides which neighbours of a vertex are candidates when searching from it picks, for every edge, exactly one of its two ends as the root that considers the other: the end with the smaller degree, and for equal degrees the end with the smaller number. Every search and the precomputed per-vertex bounds use this same rule, so no clique is skipped and none is found twice.",
  ["inputs"], "all graphs, all searches",
  "Breaking ties in the wrong direction loses or duplicates only cliques among vertices of equal degree; tests have one graph per search.",
  [S+"detail/graph/graph.cpp", S+"detail/graph/dfs_stack.cpp", S+"detail/graph/dfs_recurse.cpp", S+"detail/graph/enumerate.cpp", S+"detail/graph/heuristic.cpp", S+"detail/nwgraph/nwgraph.cpp", S+"detail/nwgraph/nw_dfs.cpp", S+"detail/nwgraph/nw_enumerate.cpp", S+"detail/nwgraph/nw_heuristic.cpp"],
  [("strict comparison for smaller ids, non-strict for larger ids", S+"detail/graph/dfs_stack.cpp process_vertex"), ("per-vertex bound", S+"detail/graph/graph.cpp set_bounds")])
p("C12", "A candidate stays only if it is adjacent to the vertex just added",
  "When a search adds a vertex to the growing clique, every remaining candidate that is not its neighbour is removed and every candidate that is its neighbour is kept. The neighbour test looks at the full relevant part of that vertex's neighbour list and nothing else, so every returned set is a clique.",
  ["inputs"], "all graphs, all searches",
  "Looking one entry short or long in the neighbour list, or filtering with the wrong vertex, produces wrong cliques only for particular numberings.",
  [S+"detail/graph/dfs_stack.cpp", S+"detail/graph/dfs_recurse.cpp", S+"detail/graph/enumerate.cpp", S+"detail/graph/heuristic.cpp", S+"detail/nwgraph/nw_dfs.cpp", S+"detail/nwgraph/nw_enumerate.cpp", S+"detail/nwgraph/nw_heuristic.cpp", S+"detail/utils.h"],
  [("binary search in the neighbour slice", S+"detail/utils.h binary_find"), ("removal list applied to the next candidate set", S+"detail/graph/dfs_stack.cpp process_vertex")])
p("C13", "Iterators keep their graph alive and end with StopIteration",
  "A clique or correspondence iterator keeps the graph it was created from alive for as long as the iterator exists. Each step returns a clique that was just found, and after the last one the iterator raises StopIteration, also when asked again.",
  ["histories"], "all lifetimes of graph and iterator, all numbers of steps",
  "Dropping the graph while iterating is a use after free that needs a collection at the right moment; tests hold the graph in a variable.",
  [S+"core/pyiterator.h", S+"core/pyiterator.cpp", S+"core/wrap_pygraph.cpp"],
  [("owning reference stored in the iterator", S+"core/pyiterator.h"), ("stop when the enumerator passes the last vertex", S+"core/pyiterator.cpp next_clique")])
p("C14", "Search options reach the search they are named after",
  "The bounds, time limit, heuristic, exhaustive-search and continue options given by the caller, by keyword or position, or by default, arrive unchanged and in their own role at the search, through every public entry point that accepts them. Turning the heuristic or the exhaustive search off means it does not run, and a non-positive time limit means no deadline.",
  ["configurations", "inputs"], "all public entry points, all combinations of options, defaults included",
  "Options of the same type can be swapped without any error and the result usually stays the same; tests vary few options and check only the size.",
  [S+"core/wrap_pygraph.cpp", S+"core/pygraph.cpp", S+"core/pynwgraph.cpp", S+"detail/graph/clique.cpp", S+"detail/nwgraph/nwclique.cpp", S+"wrappers/_gen_graph.py", S+"wrappers/isograph.py", S+"wrappers/aligngraph.py"],
  [("keyword names in the bindings", S+"core/wrap_pygraph.cpp"), ("positional forwarding in the wrappers", S+"wrappers/_gen_graph.py"), ("flags tested before each search", S+"detail/graph/clique.cpp find_max_cliques")])
p("C15", "Resetting or rebuilding a graph forgets the previous search",
  "After a reset or after building edges again, a search gives the same answer as on a freshly built graph: nothing that a search writes and a later search reads survives. An upper bound applies only to the call it was given to, and a finished flag is set only when the exhaustive search has gone through every vertex.",
  ["histories"], "all sequences of searches, resets and rebuilds",
  "State left behind changes the answer only for particular sequences of bounds, interruptions and rebuilds; tests do one reset.",
  [S+"core/pygraph.cpp", S+"core/pynwgraph.cpp", S+"detail/graph/graph.h", S+"detail/nwgraph/nwgraph.h"],
  [("reset of size, position and finished flag", S+"core/pygraph.cpp reset_search"), ("reset on load", S+"core/pygraph.cpp load_graph"), ("limit restored after the search", S+"core/pygraph.cpp get_max_clique")])
p("C16", "Searches use only memory the graph owns",
  "The memory a graph sets aside is large enough for the deepest search on it and never moves while anything refers to it. Every place that remembers a position in that memory is updated when the memory is enlarged.",
  ["inputs"], "all graphs, in particular very small, very sparse and very dense ones",
  "The enlargement happens only for small or dense graphs and an undersized area corrupts the heap silently.",
  [S+"detail/graph/graph.cpp", S+"detail/nwgraph/nwgraph.cpp", S+"detail/graph/graph.h", S+"detail/nwgraph/nwgraph.h"],
  [("space requirement compared with available space", S+"detail/graph/graph.cpp set_bounds"), ("bitsets pointed to the new memory", S+"detail/graph/graph.cpp set_bounds")])
p("C17", "Bit sets address exactly the bit they are asked for",
  "Setting, clearing, flipping, testing, counting and scanning element i of a set affects or reads exactly element i, for every size including multiples of the word size, and never shifts by the word size or touches words outside the set. All operations agree on which bit represents element i.",
  ["inputs"], "all sizes and positions",
  "Only sizes around multiples of 64 distinguish wrong masks or word counts; the tests have a handful of sizes.",
  [S+"detail/gbits.h", S+"detail/gbits.cpp"],
  [("word index i/64 and mask shifted by i mod 64", S+"detail/gbits.h"), ("padding mask of the last word", S+"detail/gbits.h refer_from")])
p("C18", "Wrappers return elements of the right set in matching order",
  "When a correspondence is returned as elements, the first result holds elements of the first set and the second result elements of the second set, position by position the pairs that were matched; for graphs the returned vertex numbers start at 1 and the returned subgraphs and mapping refer to the graph they belong to. Custom metrics and their symmetry flags are used for the set they were given for.",
  ["inputs", "configurations"], "all correspondence classes, both result formats, one-shot and iterator",
  "Tests compare index results and use equal-looking sets, so swapped sets or metrics are not noticed.",
  [S+"wrappers/_gen_graph.py", S+"wrappers/a2agraph.py", S+"wrappers/a2lgraph.py", S+"wrappers/l2agraph.py", S+"wrappers/l2lgraph.py", S+"wrappers/aligngraph.py", S+"wrappers/isograph.py", S+"templates/wrap_template.hpp"],
  [("formatting of index pairs", S+"wrappers/a2agraph.py _format_correspondence"), ("metric arguments in order", S+"wrappers/_gen_graph.py build_edges"), ("binding overloads forward metrics", S+"templates/wrap_template.hpp")])
p("C19", "Sorting and cleaning edges never separates an edge's two ends",
  "While the edges are sorted and duplicates dropped, the two end points of an edge always move together, both lists end with the same length, only exact duplicates are dropped, and the sort orders by first and then second end point over the full range of vertex numbers.",
  ["inputs"], "all edge lists, of every length and vertex range",
  "The radix and insertion paths are taken for different sizes and digit counts; a lost or mismatched move changes a few edges only.",
  [S+"detail/utils.cpp"],
  [("paired swaps", S+"detail/utils.cpp radixSort, insertionSort"), ("paired compaction", S+"detail/utils.cpp modUnique"), ("digit count from the vertex range", S+"detail/utils.cpp clean_edges")])
p("C20", "Only time-limited searches depend on the clock, and they all do",
  "Without a time limit the result of a search does not depend on the clock. With a time limit every phase of the exhaustive search whose length is not bounded by the size of the graph checks the deadline, and an interrupted search can be continued without skipping vertices it has not finished.",
  ["schedules", "inputs"], "all graphs, all time limits, all machine speeds",
  "Timing-dependent behaviour needs a slow machine or a large graph; tests use limits that never expire.",
  [S+"detail/graph/clique.cpp", S+"detail/graph/dfs_recurse.cpp", S+"detail/graph/dfs_stack.cpp", S+"core/pygraph.cpp"],
  [("deadline test at every recursion step and root", S+"detail/graph/dfs_recurse.cpp"), ("untimed search without clock", S+"detail/graph/dfs_stack.cpp")])
p("C21", "The exhaustive search returns a maximum clique",
  "Without time limit and upper bound, the exhaustive search returns a clique that no other clique of the graph exceeds in size (or weight), and the enumeration returns every clique of the requested size exactly once.",
  ["inputs"], "all graphs",
  "The tests compare against known answers on a few graphs.",
  [S+"detail/graph/dfs_stack.cpp", S+"detail/nwgraph/nw_dfs.cpp"], [("branch and bound", S+"detail/graph/dfs_stack.cpp")])
p("C22", "Image alignment transforms are numerically correct",
  "The rotation and translation returned for an alignment map the matched points of the first image to those of the second in the least-squares sense.",
  ["inputs"], "all point sets, including degenerate and reflected ones",
  "Tests use one image pair.", [S+"wrappers/aligngraph.py"], [("Kabsch algorithm", S+"wrappers/aligngraph.py _format_correspondence")])
p("C23", "A time-limited search returns soon after its limit",
  "A search with time limit t returns within a small constant time after t.",
  ["schedules"], "all graphs and machine speeds", "Needs measurement on graphs of every size.",
  [S+"detail/graph/dfs_recurse.cpp"], [("deadline test", S+"detail/graph/dfs_recurse.cpp search_vertex")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
assert all(len(x["title"]) <= 80 for x in P)
print(len(P))
