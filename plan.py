"""Which harness binaries decide which property."""
GRAPHS = "Graphs come from 16 structural families (random, trees+chords, cycles, clusters, grids, wheels, cactus-like, bipartite, ...) x 8 weight classes, randomly renumbered, about 30% with a planted light cut, about 8% disconnected. "

BIN = {
    "mincut_seq": {"src": "harness/mincut_seq.cpp"},
    "mincut_par": {"src": "harness/mincut_par.cpp", "flags": ["-DPARALLEL"]},
    "dynamic": {"src": "harness/dynamic.cpp"},
    "dynamic_par": {"src": "harness/dynamic.cpp", "flags": ["-DPARALLEL"]},
    "flow": {"src": "harness/flow.cpp"},
    "ds": {"src": "harness/ds.cpp", "flags": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]},
    "ds_par": {"src": "harness/ds.cpp", "flags": ["-DPARALLEL"]},
    "contract": {"src": "harness/contract.cpp"},
    "contract_par": {"src": "harness/contract.cpp", "flags": ["-DPARALLEL"]},
    "io": {"src": "harness/io.cpp", "flags": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]},
    "misc": {"src": "harness/misc.cpp", "flags": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]},
    "pure": {"src": "harness/pure.cpp"},
    "pure_par": {"src": "harness/pure.cpp", "flags": ["-DPARALLEL"]},
    "multicut": {"src": "harness/multicut.cpp"},
    "cactus": {"src": "harness/cactus.cpp"},
    "cactus_par": {"src": "harness/cactus.cpp", "flags": ["-DPARALLEL"]},
}

APPS = {
    "C31": ("mincut kcore mincut_contract mincut_heavy mincut_recursive multiterminal_cut dynamic_mincut", "mincut mincut_contract mincut_heavy mincut_recursive dynamic_mincut"),
    "C32": ("gnp_torus make_graph_weighted largest_cc temporal_largest_cc create_augment_edges decremental_gnp dynmc_from_static balanced_small_cut", "create_augment_edges decremental_gnp balanced_small_cut"),
}
# small programs run under the sanitizers
ASAN_APPS = {"kcore", "gnp_torus", "make_graph_weighted", "largest_cc", "temporal_largest_cc"}
for _id, (_seq, _par) in APPS.items():
    _needs = []
    for _a in _seq.split():
        _f = ["-DVP_LOG_PRINT", "-O1"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if _a in ASAN_APPS else [])
        BIN["app_" + _a] = {"src": "{REPO}/app/%s.cpp" % _a, "app": True, "flags": _f}
        _needs.append("app_" + _a)
    for _a in _par.split():
        BIN["app_" + _a + "_par"] = {"src": "{REPO}/app/%s.cpp" % _a, "app": True, "flags": ["-DVP_LOG_PRINT", "-O1", "-DPARALLEL"]}
        _needs.append("app_" + _a + "_par")
    BIN["apps_" + _id] = {"src": "harness/apps.cpp", "needs": _needs, "flags": ["-O1"]}

PLAN = {
    "C01": {"bins": ["mincut_seq"],
            "technique": "property-based testing: generated graphs against a Stoer-Wagner reference, and contraction invariant of CAPFOREST",
            "rule": GRAPHS + "A case is non-trivial if the minimum cut is positive and smaller than the minimum weighted degree.",
            "note": "noi on static and mutable graphs, all priority queues, limited/unlimited, save_cut on/off; n up to 400, weights up to 2^34; *_huge sub-checks: six families up to 13000 vertices described by a few numbers, against a sparse reference."},
    "C02": {"bins": ["mincut_par"],
            "technique": "property-based testing: generated graphs x thread counts against a Stoer-Wagner reference, contraction invariant of the parallel CAPFOREST",
            "rule": GRAPHS + "Thread counts 1-8, workers oversubscribe the cores to vary schedules. Non-trivial: the minimum cut is positive and smaller than the minimum weighted degree.",
            "note": "parallel exact solver (-DPARALLEL build) on both representations, n up to 700 plus n>10000; *_stress sub-checks: up to 13000 vertices, 2 worker processes with 2-8 threads each and repetitions, so that threads overlap; certified contractions re-checked by the oracle. Schedules are sampled, not enumerated; weighted minimum degree <= 50000 (bucket queues)."},
    "C03": {"bins": ["mincut_seq", "mincut_par"],
            "technique": "property-based testing: generated graphs; validity predicate (value is the weight of a real cut, >= Stoer-Wagner optimum)",
            "rule": GRAPHS + "Plus graphs with more than 10000 vertices that reach label propagation. Non-trivial: the minimum cut is positive and smaller than the minimum weighted degree.",
            "note": "viecut, padberg-rinaldi, karger-stein; enumeration of all cuts for n<=14; up to 13000 vertices against a sparse reference."},
    "C04": {"bins": ["mincut_seq"],
            "technique": "property-based testing: generated graphs against a Stoer-Wagner reference, approximation bound predicate",
            "rule": GRAPHS + "Non-trivial: the minimum cut is positive and smaller than the minimum weighted degree.",
            "note": "value in [lambda, 2*lambda+1] (the code contracts at max(1, bound/2)), at most the minimum degree; n up to 13000."},
    "C05": {"bins": ["mincut_seq", "mincut_par"],
            "technique": "property-based testing: the saved bipartition is re-weighed on the generated graph",
            "rule": GRAPHS + "Non-trivial: the minimum cut is positive and smaller than the minimum weighted degree.",
            "note": "all sequential and parallel algorithms on both representations; n up to 13000."},
    "C06": {"bins": ["cactus"],
            "technique": "property-based testing: set of cuts represented by the returned cactus against an exhaustive enumeration of all minimum cuts (closed sets of residual graphs)",
            "rule": GRAPHS + "Plus graphs with more than 10000 vertices with a known quotient. Non-trivial: the graph has at least two minimum cuts.",
            "note": "simple connected graphs, n up to 190 and huge clustered graphs; all six edge selection rules, both representations, with and without a passed bound."},
    "C07": {"bins": ["cactus_par"],
            "technique": "property-based testing: set of cuts of the parallel algorithm's cactus against an exhaustive enumeration of all minimum cuts, thread counts 1-8",
            "rule": GRAPHS + "Thread counts 1-8. Non-trivial: the graph has at least two minimum cuts.",
            "note": "-DPARALLEL build of parallel_cactus (3/4) and cactus_mincut (1/4); schedules are sampled by oversubscription."},
    "C08": {"bins": ["cactus", "cactus_par"],
            "technique": "property-based testing: selected cut against the best over the exhaustive enumeration of all minimum cuts",
            "rule": GRAPHS + "Non-trivial: at least two minimum cuts with different balance / conductance.",
            "note": "marked vertices and returned edges are both checked, sequential and parallel. The selection alone also runs on given cacti (paths, long cycles, trees of blocks, up to 250000 vertices) against a closed form."},
    "C09": {"bins": ["dynamic", "dynamic_par"],
            "technique": "stateful property-based testing: generated update histories against a model graph with Stoer-Wagner after every operation",
            "rule": "Histories of insertions and deletions that follow the current minimum cut (deletions across it, re-insertions, random noise) on graphs of 16 families, cycles, trees of cycles and empty graphs. Non-trivial: the minimum cut value rises and falls within the history.",
            "note": "up to 600 operations on up to 40 vertices, more than 1000 insertions to overflow the cut cache; static-algorithm fallbacks and cache restores are labelled; sequential and -DPARALLEL."},
    "C10": {"bins": ["dynamic", "dynamic_par"],
            "technique": "stateful property-based testing: cuts of the maintained cactus against an exhaustive enumeration of all minimum cuts after every operation",
            "rule": "Histories as for C09. Non-trivial: the minimum cut value rises and falls within the history.",
            "note": "soundness (only minimum cuts, at least one, total mapping) always; completeness whenever the history guarantees it (see the statement)."},
    "C11": {"bins": ["flow"],
            "technique": "stateful property-based testing: sequences of flows, modifications, copies and contractions on one graph and solver object against Dinic's algorithm, plus flow conservation and cut checks",
            "rule": GRAPHS + "2-6 terminals, limits below and above the flow. Non-trivial: some flow is positive and smaller than the degree of the source and of the sinks.",
            "note": "all four template variants, n up to 500, weights up to 2^34; explicit and default problem ids, also as the first computations of a process."},
    "C12": {"bins": ["multicut"],
            "technique": "property-based testing: generated graphs x terminals x configurations x threads against an independent branch-and-bound reference (isolating cuts)",
            "rule": GRAPHS + "2-8 terminals (single vertices or blocks of vertices), connected or not, all queue orders, edge rules and branching modes, 1-8 threads. Non-trivial: the isolating-cut bounds do not already coincide.",
            "note": "n up to 45 against the reference, up to about 1200 with blown-up vertices; schedules are sampled; some cases compute flows on the graph first or solve it twice. Instances that the reference cannot solve in 400 nodes are discarded; the few on which the solver needs more than 5 s are only checked against the lower bound (n > 14)."},
    "C13": {"bins": ["multicut"],
            "technique": "property-based testing: the written solution re-weighed on the generated graph; value against the reference optimum (equal, or not below in inexact / time-limited runs)",
            "rule": GRAPHS + "1-4 graphs side by side, terminals in some or all of them, terminals that span several components. Non-trivial: the isolating-cut bounds do not already coincide.",
            "note": "exact, inexact (all three parameters varied) and zero-time runs, 1-8 threads."},
    "C14": {"bins": ["multicut"],
            "technique": "property-based testing: optimum of the remaining instance (reference solver) plus deleted weight against the original optimum after every stage",
            "rule": GRAPHS + "Upper bounds above, at and equal to the optimum, up to 4 rounds of reduction and contraction, with and without renumbering; half of the cases with weights tuned to local rules. Non-trivial: the reductions shrink the graph.",
            "note": "connected graphs, n up to 40, up to 7 terminals, sequential and parallel flows."},
    "C15": {"bins": ["multicut"],
            "technique": "stateful property-based testing: queue histories against a model (exactly once, order, discards) by one and by 2-8 concurrent workers; send/receive round trips of reduced problems",
            "rule": "Histories of add / take / take for sending / discard, 8 queue orders. Non-trivial: at least 6 problems and 4 taken (queues), reduced problems (transit).",
            "note": "messages pass through an in-process MPI stand-in; schedules are sampled by oversubscription."},
    "C16": {"bins": ["multicut"],
            "technique": "property-based testing: terminals selected on generated graphs against the request (names, degree ranks, distances, files, block growth)",
            "rule": GRAPHS + "Six selection modes, 1 to n terminals, block sizes up to 100. Non-trivial: at least two terminals.",
            "note": "explicit terminals are distinct; breadth-first growth is checked block by block."},
    "C17": {"bins": ["contract", "contract_par"],
            "technique": "property-based testing: generated graphs x partitions, every contraction routine against the quotient graph of the edge list, chained over up to three levels",
            "rule": GRAPHS + "Partitions: random, few blocks, two huge blocks (the contested edge), one block, along edges, identity, single edges, pairs. Non-trivial: some vertices are merged and more than one block remains.",
            "note": "all sequential and parallel routines on both representations, n up to 16000, 1-8 threads (pcontract_stress on few processes, so that races show); in-place contraction of mutable graphs on simple graphs."},
    "C18": {"bins": ["contract", "contract_par"],
            "technique": "property-based testing: partition marked by every contraction test against Stoer-Wagner on the quotient (exact mode) and exhaustive enumeration of all minimum cuts / pairwise maximum flows (all-cuts mode)",
            "rule": GRAPHS + "Half of the graphs have edge weights tuned to half of a vertex degree +-1. Non-trivial: something is contracted and the minimum cut is below the minimum degree, or there are several minimum cuts.",
            "note": "bounds between minimum cut and minimum degree, n up to 380 exactly and 13000 by value, 1-8 threads; the connectivity certificates (CAPFOREST) are checked in C01/C02."},
    "C19": {"bins": ["contract", "contract_par"],
            "technique": "property-based testing: label propagation, remapping, trivial cuts and sparsification on generated graphs against structural invariants, Stoer-Wagner bounds and induced subgraphs",
            "rule": GRAPHS + "Non-trivial: more than one and fewer than n clusters / sampled vertices.",
            "note": "n up to 13000, 1-8 threads, four sampling types, contraction factor 0-0.9."},
    "C20": {"bins": ["ds"],
            "technique": "stateful property-based testing: generated operation histories against an abstract multigraph model after every operation (ASan/UBSan build)",
            "rule": "Histories of insertions, deletions, weight changes, four kinds of contraction, new vertices, copies, simplification, serialisation, conversion. Non-trivial: at least three kinds of operations and at least one that moves vertices.",
            "note": "up to 40 vertices, 60 operations; contraction on simple graphs (parallel edges only with the other operations)."},
    "C21": {"bins": ["ds"],
            "technique": "property-based testing: static graphs and conversions against the generated arc list (ASan/UBSan build)",
            "rule": GRAPHS + "Isolated first/last vertices, self-loops, parallel edges. Non-trivial: more than 3 vertices and 2 edges.",
            "note": "three construction interfaces, METIS arrays, conversions both ways, block extraction, auxiliary flow / adjacency list graphs."},
    "C22": {"bins": ["ds"],
            "technique": "stateful property-based testing: operation histories on every queue against a reference map (ASan/UBSan build)",
            "rule": "Histories of insert, change, increase, decrease, delete and extract. Non-trivial: at least 3 elements queued at once and (4 kinds of operations or resolved ties).",
            "note": "5 implementations, keys in [0, span], span up to 10^5 (buckets) or 2^40 (heaps); tie rule on histories of insertions and extractions."},
    "C23": {"bins": ["ds", "ds_par"],
            "technique": "stateful property-based testing: union/find histories against a reference partition; concurrent unions on 2-8 threads repeated over many schedules",
            "rule": "Non-trivial: several sets remain and some were united (sequential); at least 4 operations spread over threads with effect (concurrent).",
            "note": "schedules of the concurrent variant are sampled by oversubscription."},
    "C24": {"bins": ["io"],
            "technique": "property-based testing: generated METIS texts (all formats, whitespace, comments, self-loops) against the generated graph; write/read round trip with an independent parser (ASan/UBSan build)",
            "rule": GRAPHS + "Non-trivial: more than two vertices and one edge, and an unusual feature of the text (read).",
            "note": "fmt 0/1/10/11/100/101/111 with ncon up to 3, weights up to 2^62, blanks/tabs/CRLF, missing final newline, static and mutable graphs."},
    "C25": {"bins": ["io", "cactus"],
            "technique": "property-based testing: write/read round trips of vectors and cuts, generated temporal and DIMACS texts, GraphML output re-parsed and compared with the cactus (io: ASan/UBSan build)",
            "rule": "Non-trivial: at least two values / three updates / three edges / three cactus vertices.",
            "note": "vectors of 5 types (integers below 2^53, doubles of at most 6 digits), temporal files of 3 forms with equal times."},
    "C26": {"bins": ["misc"],
            "technique": "property-based testing: core numbers against naive peeling, every core graph against the induced subgraph (ASan/UBSan build)",
            "rule": GRAPHS + "Non-trivial: at least two different core numbers and a 2-core.",
            "note": "weighted and unweighted graphs, parallel edges, isolated vertices, n up to 200; createCoreGraph for every k up to the largest core."},
    "C27": {"bins": ["misc"],
            "technique": "property-based testing: components against union-find, residual-graph components against reachability, repeated use of one object (ASan/UBSan build)",
            "rule": GRAPHS + "Mostly thinned out to several components. Non-trivial: at least two components, one with an edge.",
            "note": "static components, largest component, strongly connected components of residual graphs with random flows and problem ids; n up to 300."},
    "C28": {"bins": ["misc"],
            "technique": "property-based testing: reported groups against the definition by brute force (components without a vertex, weighted neighbourhoods, cliques) (ASan/UBSan build)",
            "rule": GRAPHS + "With glued-on blocks, planted twins and near-twins. Non-trivial: something is merged / a clique of 3 is reported.",
            "note": "n up to about 100; clique detection: soundness only (the search prunes by weight)."},
    "C29": {"bins": ["misc"],
            "technique": "property-based testing: helpers against definitions on generated graphs, seeds and vectors (ASan/UBSan build)",
            "rule": GRAPHS + "Non-trivial: at least 4 vertices and 3 edges / 4 elements.",
            "note": "top-k, BFS, percentiles, edge cut, validity check on valid and broken graphs, permutations, bounded random numbers, text helpers."},
    "C30": {"bins": ["pure", "pure_par"],
            "technique": "stateful property-based testing: generated sequences of computations on one graph object; input compared with a snapshot, results with a fresh copy, with earlier repetitions and with the same computation in a process of its own",
            "rule": GRAPHS + "Sequences of 2-7 computations out of 13 (4 parallel). Non-trivial: at least two different computations.",
            "note": "static and mutable input graphs; repeated results include saved cuts and the whole cactus (sequential) or the value (parallel)."},
    "C31": {"bins": ["apps_C31"],
            "technique": "end-to-end property-based testing: the programs are built, run as processes on generated graph files, options and update files, and their RESULT lines and output files compared with independent computations (Stoer-Wagner, enumeration of minimum cuts, core peeling, exhaustive multiterminal cuts)",
            "rule": GRAPHS + "Written as METIS files; options drawn from the documented ones, short and long spelling, 1-8 threads. Non-trivial: non-trivial minimum cuts, several iterations, proper cores, changes of the cut value.",
            "note": "mincut, mincut_parallel, kcore, multiterminal_cut, dynamic_mincut, mincut_contract, mincut_recursive (about 1000 vertices); mincut_heavy only for consistency of its own output, as the heuristic promises no bound."},
    "C32": {"bins": ["apps_C32"],
            "technique": "end-to-end property-based testing: the tools are built, run as processes with generated sizes, seeds and graph files, and the files they write compared with the documented construction; static and dynamic run of the cut-sequence tools are compared with each other and with a reference",
            "rule": GRAPHS + "Non-trivial: the output differs from the input (proper component, mixed heavy and light edges, deletions, at least two cut changes / rounds).",
            "note": "gnp_torus, make_graph_weighted, largest_cc, temporal_largest_cc, create_augment_edges, decremental_gnp, dynmc_from_static, balanced_small_cut (options -a and -b, which never end by themselves, are stopped after five rounds)."},
}
NOT_APPLICABLE = {}
