import sys,json,subprocess,os
sys.path.insert(0,'/verif')
import plan
P={}
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); P[p['id']]=p
D={}
def d(i,*a): D[i]=a
# (generated, oracle, bounds & cost, reach, limits)
d("C01","noi_small/medium/large/bound: random graph, representation (static, mutable), priority queue, limiting, save_cut, seed, passed upper bound.","Stoer-Wagner of our own (checked against exhaustive enumeration in development), Dinic-based minimum cut above 60 vertices. CAPFOREST is also run alone: the quotient by the returned union-find must keep min(bound, lambda).","n <= 400, weights < 2^34; noi_huge: six families up to 13000 vertices against a sparse certificate-contraction reference of our own (checked against Stoer-Wagner on 20000 graphs); about 45 s.","Tests use a few fixed graphs of at most a dozen vertices; ties, weight overflow, priority-queue specific scan orders and bounds need many graphs.")
d("C02","par_small/medium/large/huge and par_capforest with 1-8 OpenMP threads (more threads than the graph has vertices included), -DPARALLEL build of the library.","as C01.","n <= 700, plus clustered graphs over 10000 vertices, where the code takes other branches; the *_stress sub-checks run graphs of up to 13000 vertices on few worker processes with 2-8 threads each, repeatedly, so that threads really overlap; bucket queues limit the weighted minimum degree to 50000. Schedules are sampled by oversubscription, not enumerated.","No test is built with PARALLEL.")
d("C03","viecut, padberg-rinaldi, karger-stein; sequential and parallel; the label-propagation stage of VieCut alone on n > 10000.","value >= lambda and value is in the set of weights of all cuts (enumerated, n <= 14) or lambda <= value <= minimum degree.","n <= 150; heur_huge and pvc_stress up to 13000 vertices against the sparse reference; vc_lp_stage above 10000.","Randomised heuristics: one seed decides nothing.")
d("C04","matula on both representations.","lambda <= value <= 2*lambda+1 and <= minimum degree, a real cut for n <= 14.","n <= 120; matula_huge up to 13000.","the guarantee only fails on particular contraction orders")
d("C05","every algorithm with save_cut, both representations, sequential and parallel, Karger-Stein, the LP stage of VieCut.","weight of the marked bipartition recomputed from the edge list; both sides non-empty.","n <= 400; save_huge and psave_stress up to 13000 vertices.","several algorithms stored the cut of another contraction level (five fixes)")
d("C06","cactus_small..huge with six edge-selection rules, seed, both representations, with and without known bound; disconnected graphs.","exact set of all minimum cuts: bitmask enumeration up to 14 vertices, closed sets of the residual graph of maximum flows above (independent code), compared as sets with the cuts represented by bridges and cycle pairs of the returned cactus; structure of the cactus and the vertex mapping checked.","n <= 190, clustered graphs of several thousand vertices compared by count and value.","missing or invented cuts depend on how nested and crossing cuts meet the reductions")
d("C07","as C06 for parallel_cactus (3/4) and cactus_mincut under -DPARALLEL (1/4), 1-8 threads.","as C06.","as C06; schedules sampled.","no parallel test")
d("C08","C06 graphs with find_most_balanced_cut or find_lowest_conductance.","best value over the enumerated set; the marked side and the returned edges must be that cut.","n <= 60.","")
d("C09","histories of up to 600 insertions/deletions (bursts, re-insertions, deletions of bridges, zero cuts, more than 1000 insertions for the cache) sequential and -DPARALLEL.","model edge list with Stoer-Wagner after every operation; maintained graph compared as edge multiset.","<= 40 vertices; repeated initialisation of the same object; dyn_hub: hub histories in which edges between far parts and re-insertions keep several cached cacti alive; the labels report how often the caches and static fallbacks were reached.","a test can sample only a handful of histories")
d("C10","the same histories, smaller.","the set of minimum cuts of the maintained cactus against enumeration after every operation: always sound; complete whenever the history guarantees it (see statement).","<= 14 vertices for enumeration.","")
d("C11","one solver object and graph with a sequence of flows, edge changes, contractions, copies; all four template variants; limits.","Dinic of our own on the model graph.","n <= 500, weights < 2^34.","stale flow of earlier problems only shows in sequences")
d("C12","graph x terminals (2-8) x configuration (queue type, edge selection, branching, reductions, local search, bounds, ILP off) x 1-8 threads; blown-up instances (vertices replaced by heavy clusters).","independent branch and bound with isolating-cut lower bounds (oracle_mtc.h).","n <= 45 exactly, about 1200 blown up.","")
d("C13","exact, inexact and zero-time runs that write their solution; several components.","written blocks re-weighed; terminals in their own blocks; value against the optimum (equal, or >= in inexact runs).","as C12.","")
d("C14","kernelisation stages one by one and together.","optimum of the remaining instance (reference) + deleted weight = original optimum, mapping total.","n <= 40, 7 terminals.","")
d("C15","queue histories single-threaded with a model; 2-8 workers concurrently; serialise/send/receive through an in-process MPI stand-in; best-solution bounds.","exactly-once bookkeeping by problem identity.","schedules sampled.","")
d("C16","terminal selection for every kind of request.","the request itself: names, degree ranks, distances, contents of the partition file.","n <= 200.","")
d("C17","graph x partition x routine x threads; chains of contractions; single-edge contraction.","quotient of the edge list.","n <= 2500; pcontract_stress up to 16000 vertices, few workers, repeated, so that races between the threads of one contraction show.","")
d("C18","each contraction test with a bound between lambda and the minimum degree, and in all-cuts mode.","Stoer-Wagner on the quotient; enumeration of all minimum cuts in all-cuts mode.","n <= 380; tests_huge up to 13000 vertices against the sparse reference.","")
d("C19","label propagation, remapping, trivial cuts, sparsify (sequential and parallel, four sampling types).","structural invariants; total weights; Stoer-Wagner.","n <= 350; cluster_huge up to 13000 vertices.","")
d("C20","operation histories on mutable_graph; serialise, copy, simplify in between.","abstract multigraph model compared after every operation, under ASan/UBSan.","40 vertices, 60 operations.","")
d("C21","construction interfaces, conversions, extraction.","generated arc list, under ASan/UBSan.","n <= 300.","")
d("C22","histories on the five priority queues.","std::map reference, tie rule.","keys up to 10^5 / 2^40.","")
d("C23","sequential and concurrent union/find histories.","reference partition.","schedules sampled, many repetitions per case.","")
d("C24","METIS texts in all formats with unusual but legal whitespace; round trips.","the generated graph.","weights < 2^62.","")
d("C25","vectors, cuts, temporal files, DIMACS, GraphML.","generated data.","see statement.","")
d("C26","core decomposition and core graphs.","naive peeling, induced subgraphs.","n <= 200.","")
d("C27","components on static and residual graphs.","union-find, reachability closure.","n <= 300.","")
d("C28","articulation-point groups, equal neighbourhoods, cliques.","definitions by brute force.","n <= 100; cliques: soundness only.","")
d("C29","helpers.","definitions.","","")
d("C30","2-7 computations in sequence on one graph object.","snapshot of the input; results equal to those of a fresh copy and of the first run.","n <= 60.","")
d("C31","the programs are compiled from app/ and run as processes in a scratch directory on generated files and options.","independent computation on the generated graph, see the statement.","n <= 60 (mincut_recursive about 1000).","they have no tests at all")
d("C32","the tools, in the same way.","documented construction.","n <= 60.","")
o=[]
w=o.append
w("""# Design

VieCut is a C++ library and a set of programs for minimum cut problems. What
users rely on are *values and structures with an exact mathematical meaning*
(minimum cut, all minimum cuts, dynamic minimum cut, flow, multiterminal cut),
and data structures and file formats below them. Every one of the %d
properties in properties.jsonl therefore has an executable oracle, and all of
them are decided by property-based testing: generated inputs, histories,
configurations, thread counts and process runs against the oracle, with
shrinking. None is listed under not_applicable.

## Machinery

* `harness/pbt.h`: registry of sub-checks (generator + runner), worker
  processes (fork, one case after another, crash / sanitizer abort / CPU-time
  limit are failures of the case), seeds derived from (VERIF_SEED, sub-check,
  index) so that every case is reproducible, statistics (cases, non-trivial by
  a stated rule, labels, samples), and a shrinker that removes vertices, edges,
  operations and configuration and reduces weights while the failure persists.
  The shrunk case is a text file, the replay file. Cases that outlast
  their CPU limit are failures ("does not terminate").
* `harness/gen.h`: graph families (16 structures x 8 weight classes, planted
  cuts, duplicate weights, renumbering, disconnected ones).
* `harness/oracle.h`, `oracle_mtc.h`: reference algorithms that share no code
  with VieCut (Stoer-Wagner, Dinic, enumeration of cuts, all minimum cuts by
  closed sets of residual graphs, peeling, multiterminal branch and bound).
* `harness/repo.h`: builds the library's graph objects, resets the global
  configuration before every case.
* `shim/`: the parts of tlx the code uses, and a single-process MPI whose
  messages are kept in memory, because neither is available offline.
* `run.py check ID --tier quick|thorough`: compiles what the property needs
  from /repo's working tree (content-addressed cache in build/, so a rebuilt
  tree is really rebuilt), replays known findings and the regression cases in
  `regress/ID/`, runs the generated search, writes evidence/ID.json. `run.py
  replay FILE` reruns one case. A failing case is run again before it is
  reported; failures of multi-threaded sub-checks need not be deterministic
  and are reported with the case that showed them.
* Two builds of the library: sequential and -DPARALLEL (the repository makes
  this choice per target as well). Data structures, readers and helpers are
  compiled with ASan+UBSan, everything else with -D_GLIBCXX_ASSERTIONS.

Termination: workers have a CPU-time limit per case which is far above what
the slowest case needs (the limits are CPU time, not wall-clock, so a loaded
machine does not matter).

## Properties
""" % len(P))
for i in sorted(P):
    p=P[i]; a=D[i]; q=plan.PLAN[i]
    w("### %s %s" % (i,p['title']))
    w("*Generated:* %s" % a[0])
    w("*Oracle:* %s" % a[1])
    if a[2]: w("*Bounds:* %s" % a[2])
    if a[3]: w("*Why tests cannot:* %s" % a[3])
    w("*Binaries:* %s. *Rule and limits:* %s %s" % (", ".join(q['bins']), q['rule'].replace(plan.GRAPHS,"Standard graphs. "), q['note']))
    w("")
w(open('/verif/tools/design_tail.md').read().rstrip())
w("")
w("## Genuine defects repaired in /repo")
w("")
w("Each was found by one of the checks (the shrunk cases are in `regress/`), is one `fix:` commit and is listed in known_findings.jsonl.")
w("")
for l in open('/verif/known_findings.jsonl'):
    k=json.loads(l)
    if k['status']=='fixed': w("* %s (%s): %s" % (k['commit'], ", ".join([k['property']]+k['also']), k['what']))
w("")
open('/verif/DESIGN.md','w').write("\n".join(o))
