#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
GM = "lib/algorithms/global_mincut/"
MC = "lib/algorithms/multicut/"

prop("C01", "Exact global minimum cut value is the true minimum cut",
 "For every undirected graph with positive edge weights, the exact sequential solver (noi) returns exactly the weight of a lightest set of edges whose removal disconnects the graph, and 0 if the graph is already disconnected. "
 "The value does not depend on the graph representation (static or mutable), the priority queue, the queue-limiting option, the seed, or on a correct upper bound passed by the caller.",
 ["inputs", "configurations"], "all undirected weighted (multi-)graphs x priority queue {bqueue,heap,bstack,default} x limited/unlimited x save_cut x seed x representation",
 "mincut_algo_test runs each algorithm on a handful of fixed graphs; correctness is claimed for every graph, weight range and configuration.",
 [GM+"noi_minimum_cut.h", "lib/coarsening/contract_graph.h", "lib/coarsening/contraction_tests.h"],
 [("CAPFOREST scan with limited priority queue", GM+"noi_minimum_cut.h"), ("contraction of a union-find partition", "lib/coarsening/contract_graph.h"), ("degree-based initial bound and upper-bound updates", GM+"minimum_cut_helpers.h")],
 [("mincut", "best cut value found so far; must never fall below the optimum nor miss it")], ["return value of perform_minimum_cut"])

prop("C02", "Shared-memory parallel exact minimum cut is the true minimum cut",
 "For every undirected graph with positive edge weights and every number of threads, the parallel exact solver returns exactly the minimum cut weight, independent of scheduling, seed and of the heuristic bound it starts from. "
 "Disconnected inputs yield 0.",
 ["inputs", "schedules", "configurations"], "all weighted graphs x 1..8 OpenMP threads x schedules x priority queue x representation",
 "Tests run the parallel solver on few small graphs under one schedule; the guarantee is for all graphs, thread counts and interleavings.",
 ["lib/parallel/algorithm/exact_parallel_minimum_cut.h", "lib/parallel/coarsening/contract_graph.h", "lib/parallel/coarsening/contraction_tests.h", "lib/parallel/data_structure/union_find.h"],
 [("parallel CAPFOREST with shared visited array and union-find", "lib/parallel/algorithm/exact_parallel_minimum_cut.h"), ("parallel contraction", "lib/parallel/coarsening/contract_graph.h")],
 None, ["return value of perform_minimum_cut in the PARALLEL build"])

prop("C03", "Heuristic minimum cut algorithms report only values of real cuts",
 "The inexact algorithms (VieCut, Padberg-Rinaldi, Karger-Stein; sequential and parallel) never return a value below the true minimum cut and, on graphs with at least two vertices, every returned value is the weight of an actual cut of the input graph, at most the minimum weighted degree for VieCut and Padberg-Rinaldi. "
 "They terminate on every graph, including disconnected ones, where VieCut and Karger-Stein return 0.",
 ["inputs", "configurations", "schedules"], "all weighted graphs x seeds x threads; including graphs above the size at which label propagation is used",
 "Tests compare the heuristics with fixed values on a few benign graphs; soundness for arbitrary weights, seeds and sizes is not sampled.",
 [GM+"viecut.h", GM+"padberg_rinaldi.h", GM+"ks_minimum_cut.h", "lib/coarsening/label_propagation.h", "lib/parallel/coarsening/label_propagation.h"],
 [("label propagation clustering + contraction + trivial cut tracking", GM+"viecut.h"), ("Padberg-Rinaldi contraction loop", GM+"padberg_rinaldi.h"), ("recursive random contraction", GM+"ks_minimum_cut.h")],
 None, ["return value of perform_minimum_cut"])

prop("C04", "Approximate minimum cut honours its approximation guarantee",
 "For every weighted graph the approximation algorithm (matula) returns a value that is the weight of a real cut, at least the minimum cut and at most (2+eps) times the minimum cut; disconnected inputs yield 0.",
 ["inputs", "configurations"], "all weighted graphs x priority queues x seeds",
 "The tests never compare the approximation with the optimum except on fixed graphs where it happens to be exact.",
 [GM+"matula_approx.h", GM+"noi_minimum_cut.h"],
 [("CAPFOREST contraction at a fraction of the current bound", GM+"matula_approx.h")], None, ["return value of perform_minimum_cut"])

prop("C05", "A saved cut is a real bipartition realising the reported value",
 "Whenever saving of the cut is enabled, after any minimum cut algorithm (exact, heuristic, approximate or parallel) finishes, the sides recorded on the input graph form a partition into two non-empty vertex sets, and the total weight of the edges of the original graph between them equals the value that was returned.",
 ["inputs", "configurations", "schedules"], "all weighted graphs x all algorithms x threads x priority queues, with save_cut",
 "save_cut_test checks a few graphs per algorithm; the witness goes through several contraction levels whose bookkeeping depends on the input.",
 [GM+"minimum_cut_helpers.h", GM+"noi_minimum_cut.h", GM+"viecut.h", GM+"padberg_rinaldi.h", GM+"matula_approx.h", GM+"ks_minimum_cut.h", "lib/parallel/algorithm/exact_parallel_minimum_cut.h"],
 [("propagation of cut sides through contraction levels", GM+"minimum_cut_helpers.h")],
 [("in-cut flag per vertex", "side of the best cut found so far")], ["getNodeInCut of the input graph after the run"])

prop("C06", "The cactus represents exactly all minimum cuts",
 "For every connected simple weighted graph the all-minimum-cuts algorithm returns the true minimum cut value together with a cactus whose vertex mapping covers every input vertex exactly once, whose bridge edges weigh the minimum cut and cycle edges half of it, and whose minimum cuts (removing one bridge, or two edges of one cycle) induce exactly the set of all global minimum cuts of the graph, none missing and none invented. "
 "This holds for every edge-selection strategy and seed.",
 ["inputs", "configurations"], "all connected weighted graphs x edge selection strategies x seeds x representation",
 "cactus_cut_test checks hand-made families (cycles, cliques, stars) whose cactus is known; it cannot cover the space of graphs with interacting reductions.",
 [GM+"cactus/cactus_mincut.h", GM+"cactus/recursive_cactus.h", GM+"cactus/all_cut_local_red.h", GM+"cactus/heavy_edges.h", GM+"cactus/graph_modification.h"],
 [("recursive flow-based cactus construction and merging", GM+"cactus/recursive_cactus.h"), ("cut-preserving reductions and their reinsertion", GM+"cactus/heavy_edges.h")],
 [("cactus vertex -> contained input vertices", "where each input vertex lives")], ["findAllMincuts result"])

prop("C07", "The parallel all-minimum-cuts algorithm equals the sequential one",
 "For every connected simple weighted graph, thread count and schedule, the parallel all-minimum-cuts algorithm returns the true minimum cut value and a cactus that represents exactly the set of all global minimum cuts of the graph.",
 ["inputs", "schedules", "configurations"], "all connected weighted graphs x 1..8 threads x edge selection x seeds",
 "Tests use fixed graphs with one thread schedule.",
 ["lib/parallel/algorithm/parallel_cactus.h", "lib/parallel/coarsening/contract_graph.h", GM+"cactus/recursive_cactus.h"],
 [("parallel contraction before the recursive construction", "lib/parallel/algorithm/parallel_cactus.h")], None, ["findAllMincuts result in the PARALLEL build"])

prop("C08", "Balanced and low-conductance selection finds the best minimum cut",
 "When asked for the most balanced minimum cut, the reported cut is a minimum cut and no minimum cut of the graph has a larger smaller side; when asked for the lowest-conductance one, no minimum cut has smaller conductance. The side marked on the graph is that cut.",
 ["inputs", "configurations"], "all connected weighted graphs x both objectives x seeds",
 "Tests check a few hand-built cactus shapes; optimality over all minimum cuts is a quantified claim.",
 [GM+"cactus/most_balanced_minimum_cut.h", GM+"cactus/balanced_cut_dfs.h", GM+"cactus/cactus_mincut.h"],
 [("DFS over the cactus combining subtree and cycle weights", GM+"cactus/balanced_cut_dfs.h")], None, ["edges returned by findAllMincuts and cut flags on the graph"])

prop("C09", "Dynamic minimum cut value is correct after every update",
 "After initialisation and after each edge insertion or deletion in any sequence, the maintained minimum cut value equals the minimum cut of the current graph (0 if disconnected), and the maintained graph contains exactly the edges inserted and not deleted.",
 ["histories", "inputs"], "all initial graphs x all sequences of insertions/deletions with arbitrary positive weights",
 "No unit test exercises the dynamic algorithm; its caches depend on long operation histories.",
 [GM+"dynamic/dynamic_mincut.h", GM+"dynamic/cactus_path.h"],
 [("incremental update along a cactus path", GM+"dynamic/dynamic_mincut.h"), ("decremental update by max-flow", GM+"dynamic/dynamic_mincut.h"), ("cache of cactus cuts", GM+"dynamic/dynamic_mincut.h")],
 [("current cut / cactus", "claimed minimum cut of the current graph")], ["getCurrentCut, return values of addEdge and removeEdge"])

prop("C10", "Dynamic algorithm maintains a cactus of all current minimum cuts",
 "After initialisation and after each edge insertion or deletion the maintained cactus maps every vertex of the (connected) graph to exactly one cactus vertex and represents only minimum cuts of the current graph, at least one. It represents exactly the set of all minimum cuts after initialisation, after every recomputation, after a deletion that lowers the minimum cut and, from any of these points on, as long as only edges are inserted; a deletion that leaves the minimum cut value unchanged may add minimum cuts that are not recorded.",
 ["histories", "inputs"], "all initial graphs x all update sequences",
 "No unit test exercises the dynamic algorithm.",
 [GM+"dynamic/dynamic_mincut.h", GM+"dynamic/cactus_path.h", GM+"cactus/recursive_cactus.h"],
 [("cactus contraction along the path of an insertion", GM+"dynamic/cactus_path.h"), ("rebuilding after a deletion", GM+"dynamic/dynamic_mincut.h")], None, ["getCurrentCactus after each operation"])

prop("C11", "Maximum flow equals minimum s-t cut, and the source set is a minimum cut",
 "For every undirected weighted graph and set of distinct terminals the flow solver returns the maximum flow from the chosen source to all other terminals, and when requested the returned source side contains the source, no other terminal, and its boundary weighs exactly the flow value. "
 "With a limit, a result below the limit is exact, and otherwise the true flow is at least the limit; re-running on the same, modified or resized graph object gives the same answers as a fresh graph.",
 ["inputs", "histories"], "all weighted graphs x terminal sets x source choice x limits x sequences of flow calls on one graph object",
 "push_relabel_test uses paths, cliques and small random graphs against stored values; state left on edges between calls is input and history dependent.",
 ["lib/algorithms/flow/push_relabel.h", MC+"maximum_flow.h"],
 [("push-relabel with global relabelling and gap heuristic", "lib/algorithms/flow/push_relabel.h"), ("per-problem flow reset", "lib/algorithms/flow/push_relabel.h")],
 [("flow and problem id on edges", "residual state of the last solved problem")], ["returned flow value and source set"])

prop("C12", "Multiterminal cut solver returns the optimum",
 "For every weighted graph and set of terminals, the exact multiterminal cut solver returns the minimum total weight of edges whose removal separates all terminals pairwise, for every thread count, schedule, problem-queue order, edge-selection rule, branching mode and reduction setting. Components with fewer than two terminals contribute nothing.",
 ["inputs", "configurations", "schedules"], "all weighted graphs x terminal sets x configurations x 1..8 worker threads",
 "multiterminal_cut_test uses a few small graphs with known optima and one configuration; reductions, branching and queues interact in input-dependent ways.",
 [MC+"multiterminal_cut.h", MC+"branch_multicut.h", MC+"problem_management.h", MC+"kernelization_criteria.h", MC+"edge_selection.h", MC+"maximum_flow.h", MC+"graph_contraction.h"],
 [("branch and reduce with bounds from isolating flows", MC+"branch_multicut.h"), ("split into connected components", MC+"multiterminal_cut.h")],
 [("global upper bound", "weight of the best solution known")], ["return value of multicut"])

prop("C13", "Multiterminal solutions are feasible and weigh what is reported",
 "Whenever the multiterminal solver writes its solution, the file assigns every vertex a block, each terminal is in its own block, and the weight of edges between different blocks equals the reported value. In inexact mode, or with local search, bounds or time limits in effect, the reported value is never below the optimum and still belongs to a feasible solution.",
 ["inputs", "configurations", "schedules"], "all weighted graphs x terminal sets x exact/inexact x local search on/off x threads, including inputs with several components",
 "No test reads the written solution or compares inexact results with the optimum.",
 [MC+"multiterminal_cut.h", MC+"problem_management.h", MC+"local_search.h", MC+"branch_multicut.h"],
 [("best solution tracking", MC+"problem_management.h"), ("local search by gain and flow moves", MC+"local_search.h")], None, ["file written with write_solution, return value"])

prop("C14", "Multiterminal reductions preserve the optimum",
 "Applying the reduction rules to any multiterminal instance yields a smaller instance in which the weight already deleted plus the optimum of the remainder equals the optimum of the original instance, with terminals kept apart and the mapping from original to remaining vertices total and consistent. Lower and upper bounds recorded for an instance enclose its optimum.",
 ["inputs", "configurations"], "all weighted graphs x terminal sets x numbers of terminals",
 "Tests only look at the final solver value on graphs where reductions trivially apply.",
 [MC+"kernelization_criteria.h", MC+"graph_contraction.h", MC+"maximum_flow.h", MC+"multicut_problem.h"],
 [("low/high degree, triangle, connectivity, articulation point, equal neighbourhood and flow reductions", MC+"kernelization_criteria.h")],
 [("deleted weight, bounds, mapping chain", "what the reduced problem stands for")], ["problem after kernelization"])

prop("C15", "Subproblems are neither lost nor duplicated nor corrupted in transit",
 "Every subproblem put into the shared work queue by any worker is eventually handed out exactly once or discarded only because its lower bound cannot beat the best known solution, for any number of workers, queue order and interleaving. A subproblem sent to another worker process and received there equals the original: same graph, terminals, deleted weight, bounds and vertex mapping.",
 ["schedules", "histories", "inputs"], "all sequences of add/take per worker x 1..8 workers x queue types; all subproblems",
 "No test exercises the queue or the serialised form at all.",
 [MC+"problem_queues/per_thread_problem_queue.h", MC+"problem_queues/single_problem_queue.h", MC+"mpi_communication.h", "lib/data_structure/mutable_graph.h"],
 [("per-thread queues with stealing", MC+"problem_queues/per_thread_problem_queue.h"), ("graph and problem serialisation", MC+"mpi_communication.h")], None, ["pullProblem/addProblem, send/receive of a problem"])

prop("C16", "Terminal selection honours the request",
 "For every terminal request (explicit vertices, highest-degree, random, distant or from a partition file, with or without growing each terminal to a neighbourhood) the instance handed to the solver has exactly the requested number of terminals when the graph allows it, explicit vertices become the terminals named, highest-degree terminals are the vertices of highest degree, and no vertex is assigned to two terminals.",
 ["inputs", "configurations"], "all graphs x selection modes x counts x growth sizes",
 "Tests only use explicit terminals on small fixed graphs.",
 [MC+"multiterminal_cut.h", "lib/algorithms/misc/graph_algorithms.h"],
 [("terminal set-up", MC+"multiterminal_cut.h"), ("top-k degree selection", "lib/algorithms/misc/graph_algorithms.h")], None, ["result of setting up the terminals"])

prop("C17", "Contraction preserves every cut that respects the contracted blocks",
 "Contracting a graph along any partition gives a graph with one vertex per block, in which the weight between two blocks is the sum of the weights of original edges between them, without self-loops or lost weight, and in which original vertices map to their block. Every implementation (static or mutable, sequential or parallel, dense or sparse, edge-wise or block-wise) agrees for all sizes and thread counts.",
 ["inputs", "schedules", "configurations"], "all weighted graphs x all partitions x 1..8 threads x contraction implementations",
 "contraction_test checks few graphs and block shapes; the implementation selected depends on sizes (number of blocks against vertices) that the tests do not reach.",
 ["lib/coarsening/contract_graph.h", "lib/parallel/coarsening/contract_graph.h", "lib/data_structure/mutable_graph.h"],
 [("hash-based and matrix-based parallel contraction", "lib/parallel/coarsening/contract_graph.h"), ("contraction by union-find", "lib/coarsening/contract_graph.h")], None, ["contracted graph"])

prop("C18", "Contraction tests never merge across every better cut",
 "Each rule that marks edges contractible given an upper bound on the minimum cut (degree and triangle tests, connectivity certificates, heavy edges) only joins vertices such that contracting them leaves min(bound, minimum cut) unchanged; in the mode that must keep all minimum cuts, no minimum cut separates joined vertices. This holds sequentially and for any number of threads.",
 ["inputs", "configurations", "schedules"], "all weighted graphs x valid upper bounds x rules x threads",
 "Tests run whole algorithms on a few graphs; an unsafe rule shows only on graphs where the minimum cut is separated by that rule.",
 ["lib/coarsening/contraction_tests.h", "lib/parallel/coarsening/contraction_tests.h", GM+"noi_minimum_cut.h", "lib/parallel/algorithm/exact_parallel_minimum_cut.h", GM+"cactus/all_cut_local_red.h", GM+"cactus/heavy_edges.h"],
 [("Padberg-Rinaldi tests", "lib/coarsening/contraction_tests.h"), ("modified CAPFOREST", GM+"noi_minimum_cut.h")], None, ["union-find after a test"])

prop("C19", "Clustering and sparsification building blocks return valid structures",
 "Label propagation returns a label for every vertex, each label class of its remapped result is a contiguous numbering of non-empty clusters, and contracting and tracking trivial cuts afterwards never yields a bound below the minimum cut. Sparsification never increases the number of vertices or invents weight, and maps every vertex to an existing one.",
 ["inputs", "schedules", "configurations"], "all weighted graphs x iterations x threads x sampling types",
 "Exercised by tests only through the final heuristic value.",
 ["lib/coarsening/label_propagation.h", "lib/parallel/coarsening/label_propagation.h", "lib/coarsening/sparsify.h", "lib/parallel/coarsening/sparsify.h", "lib/coarsening/contract_graph.h"],
 [("label propagation and cluster remapping", "lib/coarsening/label_propagation.h"), ("trivial cut correction", "lib/coarsening/contract_graph.h"), ("edge sampling", "lib/coarsening/sparsify.h")], None, ["mappings and contracted graphs"])

prop("C20", "The mutable graph behaves like an abstract weighted multigraph",
 "For every sequence of vertex/edge insertions, deletions, weight changes and contractions, the mutable graph reports the same vertices, edges, weights, degrees and contained vertices as an abstract multigraph model, each undirected edge is consistently visible from both endpoints, and each original vertex is found in exactly the vertex that contains it. Copying, simplifying and serialising yield the same abstract graph.",
 ["histories", "inputs"], "all operation sequences of bounded length over small to medium graphs",
 "mutable_graph_test runs short fixed sequences; the reverse-edge bookkeeping breaks only under particular interleavings of operations.",
 ["lib/data_structure/mutable_graph.h"],
 [("reverse edge and position bookkeeping", "lib/data_structure/mutable_graph.h")],
 [("current position / contained vertices", "where each original vertex is")], ["public accessors"])

prop("C21", "Static graphs and graph conversions represent the same graph",
 "A static graph built from a list of arcs reports exactly these arcs, weights, degrees and the minimum degree; converting between static and mutable form, extracting a block or the largest connected component yields exactly the (induced) graph with a correct vertex mapping.",
 ["inputs"], "all weighted graphs x vertex subsets/blocks",
 "graph_test checks small fixed graphs only.",
 ["lib/data_structure/graph_access.h", "lib/data_structure/mutable_graph.h", "lib/tools/graph_extractor.h", "lib/algorithms/misc/strongly_connected_components.h"],
 [("CSR construction", "lib/data_structure/graph_access.h"), ("conversion", "lib/data_structure/mutable_graph.h"), ("block extraction", "lib/tools/graph_extractor.h")], None, ["public accessors"])

prop("C22", "Priority queues behave like priority queues",
 "For every sequence of insert, change-key, increase, decrease, delete and extract operations within the declared key range, each priority queue implementation reports the same membership, size, keys and maximum as a reference map, extracts an element of maximum key, and honours its documented tie rule (FIFO or LIFO within a key).",
 ["histories"], "all operation sequences x implementations x key ranges",
 "pq_test runs a few fixed scripts on some of the queues.",
 ["lib/data_structure/priority_queues/bucket_pq.h", "lib/data_structure/priority_queues/node_bucket_pq.h", "lib/data_structure/priority_queues/fifo_node_bucket_pq.h", "lib/data_structure/priority_queues/vecMaxNodeHeap.h", "lib/data_structure/priority_queues/maxNodeHeap.h"],
 [("bucket arrays with max pointer", "lib/data_structure/priority_queues"), ("binary heap with position index", "lib/data_structure/priority_queues/vecMaxNodeHeap.h")], None, ["public queue interface"])

prop("C23", "Union-find maintains exactly the merged partition",
 "After any sequence of unions, two elements have the same representative exactly if they were connected by unions, and the number of sets reported is right. The concurrent variant gives, once all threads finish, exactly the partition generated by all unions of all threads, and a query made after a union that happened before it never contradicts it.",
 ["histories", "schedules"], "all union/find sequences; concurrent histories of 2..8 threads",
 "union_find_test has five tiny sequential scripts; concurrent unions are not tested.",
 ["lib/data_structure/union_find.h", "lib/parallel/data_structure/union_find.h"],
 [("union by rank with path compression", "lib/data_structure/union_find.h"), ("lock-free linking", "lib/parallel/data_structure/union_find.h")], None, ["Find, Union, SameSet, n"])

prop("C24", "METIS graph files are read and written faithfully",
 "Reading any well-formed METIS file (with or without edge weights, with comment lines, isolated vertices, self-loops, any standard whitespace between numbers and with or without a final newline) yields the graph described, in static and mutable form alike. Writing any graph and reading it back yields the same graph.",
 ["inputs"], "all well-formed METIS files; all weighted graphs",
 "Tests read a few fixed files; formatting variations and the writers are not covered.",
 ["lib/io/graph_io.h"],
 [("line parser", "lib/io/graph_io.h"), ("writers", "lib/io/graph_io.h")], None, ["graph returned by readers, files written"])

prop("C25", "Auxiliary files (vectors, cuts, temporal, DIMACS, GraphML) round-trip",
 "Vectors of integers (below 2^53) or of doubles with at most six digits, partitions and cuts written to disk read back as the same values; temporal edge lists are read in time order with every insertion and deletion preserved; DIMACS and GraphML outputs describe exactly the graph they were produced from.",
 ["inputs"], "all vectors, partitions, temporal edge lists and graphs",
 "No test covers these readers and writers.",
 ["lib/io/graph_io.h", GM+"cactus/graph_modification.h", GM+"cactus/most_balanced_minimum_cut.h"],
 [("vector and partition I/O", "lib/io/graph_io.h"), ("temporal reader", "lib/io/graph_io.h"), ("GraphML writer", "lib/io/graph_io.h")], None, ["files and returned values"])

prop("C26", "Core decomposition is exact",
 "For every graph, the core number computed for each vertex is the largest k such that the vertex belongs to a subgraph in which every vertex has at least k neighbours (edge weights do not count), and the extracted k-core graph is a largest connected component of the subgraph induced by exactly the vertices with core number at least k, with its edge weights and a correct mapping to the original vertices.",
 ["inputs"], "all (weighted) graphs x k",
 "core_decomposition_test checks a few fixed graphs.",
 ["lib/algorithms/misc/core_decomposition.h"],
 [("bucket peeling", "lib/algorithms/misc/core_decomposition.h")], None, ["core numbers, extracted graph"])

prop("C27", "Connected components are exact",
 "For every graph the connected-components routine assigns two vertices the same component exactly if a path joins them, reports the right number of components, and the largest-component extraction returns a component of maximum size as an induced subgraph; repeated use on the same object gives the same answer.",
 ["inputs", "histories"], "all graphs, connected or not, static and mutable",
 "No test covers disconnected inputs systematically.",
 ["lib/algorithms/misc/strongly_connected_components.h", "lib/tools/graph_extractor.h"],
 [("iterative Tarjan-style search", "lib/algorithms/misc/strongly_connected_components.h")], None, ["component ids and largest component graph"])

prop("C28", "Structure detectors report only true structures",
 "Vertices reported as separable by an articulation point, as having equal neighbourhoods, or as a clique really are: articulation-point groups are cut off from all terminals by one vertex, equal-neighbourhood groups have the same weighted neighbourhoods up to each other, and vertex sets reported as cliques are cliques.",
 ["inputs"], "all weighted graphs x terminal sets",
 "clique_test checks a few fixed graphs; the other detectors are untested.",
 ["lib/algorithms/misc/find_articulation_points.h", "lib/algorithms/misc/equal_neighborhood.h", "lib/algorithms/misc/maximal_clique.h"],
 [("lowpoint DFS", "lib/algorithms/misc/find_articulation_points.h"), ("neighbourhood hashing", "lib/algorithms/misc/equal_neighborhood.h"), ("clique search", "lib/algorithms/misc/maximal_clique.h")], None, ["returned groups"])

prop("C29", "Degree, distance, quality and random helpers meet their contracts",
 "Top-k degree queries return k distinct vertices of highest degree, breadth-first distances are shortest hop distances from the source, the reported edge cut of a partition is the weight of its crossing edges, random permutations are permutations, and bounded random numbers stay inside the requested bounds and are reproducible from the seed.",
 ["inputs", "configurations"], "all graphs, partitions, k, seeds and bounds",
 "Untested or tested on one or two inputs.",
 ["lib/algorithms/misc/graph_algorithms.h", "lib/tools/quality_metrics.h", "lib/tools/random_functions.h", "lib/tools/string.h"],
 [("degree ranking", "lib/algorithms/misc/graph_algorithms.h"), ("edge cut", "lib/tools/quality_metrics.h"), ("permutations", "lib/tools/random_functions.h")], None, ["return values"])

prop("C30", "Computations leave their input intact and are repeatable",
 "Running any minimum-cut, cactus or flow computation does not change vertices, edges or weights of the input graph, static or mutable (flow bookkeeping and marks aside); running the same sequential computation again, in the same process or after other computations, with the same seed and configuration returns the same result.",
 ["inputs", "histories", "configurations"], "all graphs x algorithms x sequences of computations in one process",
 "Each test builds a fresh graph and runs one algorithm once.",
 [GM+"noi_minimum_cut.h", GM+"viecut.h", GM+"cactus/cactus_mincut.h", "lib/common/configuration.h", "lib/tools/random_functions.h"],
 [("global configuration and seed", "lib/common/configuration.h"), ("contraction to new graphs", "lib/coarsening/contract_graph.h")], None, ["input graph before and after, repeated results"])

prop("C31", "Command-line programs report correct results for graph files",
 "For every valid graph file and documented option combination, the command-line programs terminate normally and report what an independent computation on the same file gives: mincut prints the minimum cut (an upper bound for the inexact algorithms) in one RESULT line per iteration and saves a cut of exactly that weight; the cactus file represents exactly the minimum cuts; kcore writes the largest component of a core whose minimum cut is lighter than its minimum degree; multiterminal_cut prints the multiterminal cut of the given terminals; dynamic_mincut prints the right cut after the updates of a file, static or dynamic, in batches or not; mincut_contract reports a cut of the original graph; mincut_recursive follows the largest blocks.",
 ["inputs", "configurations"], "all METIS/temporal files x documented options",
 "The programs have no tests at all.",
 ["app/mincut.cpp", "app/kcore.cpp", "app/multiterminal_cut.cpp", "app/dynamic_mincut.cpp", "app/mincut_contract.cpp", "app/mincut_heavy.cpp", "app/mincut_recursive.cpp"],
 [("option handling and RESULT line", "app/mincut.cpp")], None, ["stdout RESULT lines and output files"])

prop("C32", "Graph-producing tools write the graphs they promise",
 "The tools that generate or transform graphs write files describing exactly the documented graph: gnp_torus the blocks and torus of the requested sizes, make_graph_weighted the same edges with weights in the range and a heavy edge at every vertex, largest_cc and temporal_largest_cc the largest component (of the final graph), create_augment_edges insertions of new edges and deletions of inserted ones; the cut-sequence tools decremental_gnp and dynmc_from_static report the same cut changes with the static and the dynamic algorithm, and balanced_small_cut prints the minimum cut of each graph of its sequence.",
 ["inputs", "configurations"], "all sizes, seeds, weight ranges and input graphs",
 "The tools have no tests at all.",
 ["app/gnp_torus.cpp", "app/make_graph_weighted.cpp", "app/largest_cc.cpp", "app/temporal_largest_cc.cpp", "app/create_augment_edges.cpp", "app/decremental_gnp.cpp", "app/dynmc_from_static.cpp", "app/balanced_small_cut.cpp"],
 [("graph writers", "lib/io/graph_io.h")], None, ["files written"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
