import json,subprocess
M="""fbef7cb C01,C04|edge weights and degrees above 2^31 were truncated to int in priority-queue keys and contraction tests: NOI and VieCut returned cuts below or above the minimum cut of heavy graphs
d2668b0 C18|the weights of a triangle were sorted in a copy: the heavy-triangle test contracted edges inside minimum cuts
1aaf105 C05,C30|padberg_rinaldi and matula_approx contracted the mutable graph of the caller: input destroyed, saved cut refers to another graph
15b53ae C05|karger-stein saved the cut of the last recursive call, not of the better one: weight of the saved cut above the reported value
3821c09 C03|karger-stein sampled for ever on disconnected graphs
f55f7ce C05|viecut saved the cut of the label-propagation level although a lighter one was found below it
5b0f99e C17,C03|parallel contractGraphSparse read el[1] of a graph contracted to a single block (out of bounds)
17402e3 C20,C06|mutable_graph contraction read past the last vertex when the last vertex was contracted away
366db7a C06|copying contraction tracked coarse vertices only with save_cut: cactus vertices contained wrong vertices
140dd72 C21|from_graph_access counted the weight of double edges twice
7ce3ab8 C20|deleteVertex left the containment record of the deleted vertex behind
b8eb680 C06|vertices set aside by the recursive cactus kept stale positions: original vertices mapped to wrong cactus nodes
8c34d4f C07,C06,C08|guaranteed cactus edges of a heavier value stayed in the cactus when a lighter cut was found last
14e97df C09,C10|cactus_path::findPath contracted too few or too many vertices between bridges and cycles: dynamic cut value wrong after insertions
613cd19 C10,C09|cached insertions were lost when a cached cactus was replaced: dynamic cut value too small afterwards
3e12dd8 C11|initial distance labels of limited push-relabel exceeded the label range: flow below the minimum
4b2fe7d C23|concurrent unions could link two roots into a cycle or lose a union
7d958ad C20,C15|serialise/deserialise lost data of graphs with more vertices than arcs and of contracted graphs
b97634d C06,C07,C09,C10|all-minimum-cut algorithms missed or invented cuts on graphs with parallel edges
da12fce C18|allCutsPrTests12 joined vertices separated by minimum cuts
239ba4d C17|contraction::contractEdge returned stale terminals without save_cut
6ae310f C19|sparsify::remove_heavy_vertices dropped edge weights
89786b6 C19,C31|parallel edge sampling read out of bounds, divided by zero, and never terminated for small graphs
98979a7 C19|random_matching hung or read out of bounds at isolated vertices and rematched matched neighbours
1d3baea C24,C25|readers read past the end of lines with tabs or trailing blanks
bfa8ddd C24|a discarded self-loop left its weight in the stream, which was read as the next neighbour
3ad8647 C24|vertex weights and sizes in METIS files were read as edges
877f61b C25|readVector looped for ever on comments and dropped a last line without newline
3cafe55 C25|temporal updates with equal time were reordered
afbb50e C26|core extraction of weighted graphs used unweighted target degrees: wrong cores
2d11cf4 C27|second call of strong_components returned accumulated block sizes
33adcdf C11,C30|flow problems without id got equal ids after reseeding: the flow of the previous problem was reused
5d37b9b C30|karger-stein followed stale partition indices without save_cut: out of bounds and non-repeatable result
fb1bbe5 C12|bounds initialised with 2^32-1: multiterminal cuts heavier than that were reported as 2^32-1
cc7d5e3 C12|problems that cannot improve the best solution were still branched or asserted on
81c68c2 C12,C13|vertices of isolated or contracted terminals got no or a wrong block
4cd9dec C12|unbounded search for a flow source vertex that does not exist
8428a30 C12|single branching of degree-three vertices deleted edges that are in an optimal cut
64b6a86 C15,C12|two threads adding to one queue lost problems
e1faad3 C12,C13|best solution value and blocks updated without lock
84f6407 C13|written solutions of graphs with several components were overwritten by the last component
2b0c566 C15|priority edge of a received problem uninitialised
3738e1e C14,C12|heavy triangles with equal weights were contracted although no optimal cut is preserved
8a6a572 C14,C12|overlapping source sets of non-terminal flows were contracted into one vertex: optimum lost
14df303 C13|edge selection by distance selected no edge at vertices of degree one and read an undefined vertex
94c47f0 C13|inexact multiterminal cuts crashed when a terminal lost all its edges
6935c66 C16|random terminals could be equal vertices
5a96b24 C16|distant terminals could be equal vertices
aa2104e C31|mincut ignored the priority queue option
7875685 C31|parallel cactus never wrote the requested GraphML file
87255b2 C31|Karger-Stein did not work on mutable graphs, so programs that select it for one failed
3f78610 C31|mincut cactus -s -o wrote a partition that is no minimum cut
7678997 C31|mincut_contract required the graph file twice
f7ade89 C31|mincut_contract ignored the contraction factor
711095e C31|mincut_contract -s wrote the partition of the contracted graph
545f974 C31|mincut_contract and mincut_heavy printed the number of arcs as m
87f52d2 C31|mincut_contract reported cut 0 when everything was contracted
4a58a7d C32|make_graph_weighted read out of bounds at vertices without edges
7221703 C32|largest_cc wrote to the wrong file when a directory of the path contains a dot
0952a62 C32|decremental_gnp ignored its random seed
cca8c74 C32|decremental_gnp did not track vertices of the cactus: crash in the parallel program, wrong path in the sequential one
638e86b C09,C10|initialising a dynamic minimum cut object again kept cached cacti of the earlier run
3f41bf0 C11|default problem ids of push_relabel variants collided: wrong flow when variants were mixed on one graph
0e897ec C12,C30|multiterminal cut on a graph with earlier flow split it into wrong components
9126cdc C09,C06,C10|dynamic minimum cuts and cacti reused flow problem ids after reseeding: crashes and wrong cuts
c87aca0 C08,C31|most balanced cut search overflowed the stack on deep cacti
31cbc26 C06,C07,C10|computing the cactus of a graph with a minimum cut above about 10^9 ran out of memory (one bucket per possible weight)
7a9ee79 C02,C07|parallel exact minimum cut truncated connectivities to 32 bits and ran out of memory on large minimum cuts
b021795 C07,C30|parallel cactus used 2^32-1 as upper bound of the minimum cut, so larger minimum cuts were reported as 2^32-1
86e7488 C09,C10|dynamic minimum cut kept one cache slot per cut value: large weights ran out of memory
ae4316c C12,C13|edge selection of the multiterminal branching summed connections to terminals in 16 bits: weights that are a multiple of 65536 left no edge to branch on and accessed memory out of range"""
out=[]
for l in M.split("\n"):
    a,what=l.split("|"); h,ps=a.split()
    full=subprocess.check_output(["git","-C","/repo","rev-parse",h],text=True).strip()
    p=ps.split(",")[0]
    out.append({"status":"fixed","property":p,"also":ps.split(",")[1:],"commit":h,"what":what,"text":"fixed: property=%s %s %s"%(p,h,what)})
open("/verif/known_findings.jsonl","w").write("".join(json.dumps(o)+"\n" for o in out))
print(len(out))
