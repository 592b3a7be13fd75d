// Data structures: C20 mutable graph, C21 static graph and conversions,
// C22 priority queues, C23 union-find.
#include <thread>
#include "repo.h"
#ifdef PARALLEL
#include "parallel/data_structure/union_find.h"
#else
#include "algorithms/misc/strongly_connected_components.h"
#include "data_structure/adjlist_graph.h"
#include "data_structure/flow_graph.h"
#include "data_structure/priority_queues/bucket_pq.h"
#include "data_structure/priority_queues/fifo_node_bucket_pq.h"
#include "data_structure/priority_queues/maxNodeHeap.h"
#include "data_structure/priority_queues/node_bucket_pq.h"
#include "data_structure/priority_queues/vecMaxNodeHeap.h"
#include "data_structure/union_find.h"
#include "tools/graph_extractor.h"
#endif
using namespace rp;

#ifndef PARALLEL
// ------------------------------------------------------------------ C20
// Abstract model: vertices have a tag; a vertex owns a set of original vertices;
// edges are a multiset of (tag,tag,weight).
struct Model {
    struct V { std::multiset<u64> own; u64 part; bool cut; };
    std::map<u64, V> vs;                                        // tag -> vertex
    std::map<std::pair<u64, u64>, std::multiset<u64> > es;      // (a<b) -> weights
    u64 next = 0;
    static std::pair<u64, u64> key(u64 a, u64 b) { return { std::min(a, b), std::max(a, b) }; }
    void add(u64 a, u64 b, u64 w) { es[key(a, b)].insert(w); }
    void del(u64 a, u64 b, u64 w) { auto& s = es[key(a, b)]; s.erase(s.find(w)); if (s.empty()) es.erase(key(a, b)); }
    bool has(u64 a, u64 b) const { return es.count(key(a, b)); }
    // merge all of set into keep; sums up parallel edges
    void merge(const std::set<u64>& set, u64 keep) {
        for (auto t : set) if (t != keep) { auto& o = vs[t].own; vs[keep].own.insert(o.begin(), o.end()); vs.erase(t); }
        std::map<std::pair<u64, u64>, std::multiset<u64> > ne;
        for (auto& [k, s] : es) {
            u64 a = set.count(k.first) ? keep : k.first, b = set.count(k.second) ? keep : k.second;
            if (a == b) continue;
            if (a == k.first && b == k.second && a != keep && b != keep) { ne[k] = s; continue; }
            u64 sum = 0; for (auto w : s) sum += w;
            auto& d = ne[key(a, b)];
            if (d.empty()) d.insert(sum); else { u64 x = *d.begin() + sum; d.clear(); d.insert(x); }
        }
        es.swap(ne);
    }
    void drop(u64 t) {
        vs.erase(t);
        for (auto i = es.begin(); i != es.end(); ) { if (i->first.first == t || i->first.second == t) i = es.erase(i); else ++i; }
    }
};
static std::vector<u64> tags_of(mutableGraphPtr G) { std::vector<u64> r; for (NodeID v : G->nodes()) r.push_back(G->getPartitionIndex(v)); return r; }

// compares graph with model; tags are the partition indices of the vertices
static void compare(mutableGraphPtr G, const Model& M, Ctx& x, const std::string& w, bool contained = true) {
    x.eq(static_cast<u64>(G->n()), static_cast<u64>(M.vs.size()), w + ": number of vertices");
    x.eq(static_cast<u64>(G->number_of_nodes()), static_cast<u64>(M.vs.size()), w + ": number of vertices");
    u64 arcs = 0, mind = ~0ull, maxd = 0, sum = 0, maxu = 0;
    for (auto& [k, s] : M.es) arcs += 2 * s.size();
    x.eq(static_cast<u64>(G->m()), arcs, w + ": number of arcs");
    std::vector<u64> tag = tags_of(G);
    std::set<u64> seen;
    std::map<std::pair<u64, u64>, std::multiset<u64> > got;
    for (NodeID v : G->nodes()) {
        x.check(M.vs.count(tag[v]) && seen.insert(tag[v]).second, w + ": block number " + std::to_string(tag[v]) + " of a vertex lost or duplicated");
        auto& mv = M.vs.at(tag[v]);
        if (contained) x.eq(G->getNodeInCut(v), mv.cut, w + ": cut mark of vertex " + std::to_string(v));
        u64 d = 0, c = 0;
        for (EdgeID e : G->edges_of(v)) {
            NodeID t = G->getEdgeTarget(v, e);
            x.check(t < G->n() && t != v, w + ": bad edge target");
            u64 wt = G->getEdgeWeight(v, e);
            x.check(G->getEdge(v, e) == std::make_pair(t, static_cast<EdgeWeight>(wt)), w + ": getEdge");
            EdgeID r = G->getReverseEdge(v, e);
            x.check(r < G->get_first_invalid_edge(t) && G->getEdgeTarget(t, r) == v && G->getReverseEdge(t, r) == e, w + ": reverse edge of edge " + std::to_string(e) + " of vertex " + std::to_string(v) + " is wrong");
            x.check(G->getEdgeSource(v, e) == v, w + ": getEdgeSource");
            x.eq(static_cast<u64>(G->getEdgeWeight(t, r)), wt, w + ": weight differs between both directions");
            d += wt; ++c;
            if (v < t) got[Model::key(tag[v], tag[t])].insert(wt);
        }
        x.eq(static_cast<u64>(G->getWeightedNodeDegree(v)), d, w + ": weighted degree of vertex " + std::to_string(v));
        x.eq(static_cast<u64>(G->getUnweightedNodeDegree(v)), c, w + ": unweighted degree");
        mind = std::min(mind, d); maxd = std::max(maxd, d); sum += d; maxu = std::max(maxu, c);
        if (contained) {
            auto cv = G->containedVertices(v);
            std::multiset<u64> o(cv.begin(), cv.end());
            x.check(o == mv.own, w + ": contained vertices of vertex " + std::to_string(v) + " are wrong");
            x.eq(static_cast<u64>(G->numContainedVertices(v)), static_cast<u64>(mv.own.size()), w + ": numContainedVertices");
            x.eq(G->isEmpty(v), mv.own.empty(), w + ": isEmpty");
            for (auto q : cv) x.eq(static_cast<u64>(G->getCurrentPosition(q)), static_cast<u64>(v), w + ": current position of original vertex " + std::to_string(q));
        }
    }
    x.check(got == M.es, w + ": edges differ from the model");
    if (G->n()) {
        x.eq(static_cast<u64>(G->getMinDegree()), mind, w + ": min degree");
        x.eq(static_cast<u64>(G->getMaxDegree()), maxd, w + ": max degree");
        x.eq(static_cast<u64>(G->getMaxUnweightedDegree()), maxu, w + ": max unweighted degree");
        x.eq(static_cast<u64>(G->sumOfEdgeWeights()), sum, w + ": sum of edge weights");
    }
}
// ops: {code, a, b, c}
enum { INS, DEL, SETW, DELV, NEWV, CEDGE, CSPARSE, CNOEDGE, CSET, COPY, SIMP, SERIAL, TOCSR, RESET, NOPS };
static void gen_mut(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 2; o.nmax = r.chance(1, 4) ? 40 : 12; o.wmax_class = 7; o.disc_pct = 25;
    gen::graph(r, c, o);
    c.p["multi"] = r.chance(1, 4);
    int style = r.range(0, 4);     // 0 mixed 1 contraction-heavy 2 edge-heavy 3 deletion-heavy 4 set contraction
    ll len = r.range(1, c.n > 12 ? 60 : 25);
    for (ll i = 0; i < len; ++i) {
        int op;
        if (style == 1 && r.chance(2, 3)) op = r.pick({ CEDGE, CSPARSE, CNOEDGE });
        else if (style == 2 && r.chance(2, 3)) op = r.pick({ INS, DEL, SETW });
        else if (style == 3 && r.chance(1, 2)) op = r.pick({ DELV, DEL });
        else if (style == 4 && r.chance(1, 2)) op = CSET;
        else op = r.range(0, NOPS - 1);
        if (c.P("multi") && op >= CEDGE && op <= CSET) op = r.pick({ INS, INS, DEL, SETW, DELV });
        c.ops.push_back({ op, r.range(0, 1 << 20), r.range(0, 1 << 20), static_cast<ll>(gen::weight(r, r.range(0, 7))), r.range(2, 6) });
    }
}
static void run_mut(const Case& c, Ctx& x) {
    for (auto& e : c.e) if (e.u >= c.n || e.v >= c.n || e.u == e.v) x.discard();
    gen::describe(c, x);
    auto G = make_mut(c.n, c.e);
    Model M;
    bool multi = c.P("multi");
    for (uint32_t v = 0; v < c.n; ++v) { M.vs[v] = { { v }, v, false }; G->setPartitionIndex(v, v); }
    for (auto& e : c.e) M.add(e.u, e.v, e.w);
    M.next = c.n;
    compare(G, M, x, "construction");
    x.eq(static_cast<u64>(G->getOriginalNodes()), static_cast<u64>(c.n), "original vertices");
    struct Old { mutableGraphPtr G; Model M; };
    std::vector<Old> olds;
    std::set<int> used;
    int step = 0;
    u64 mx = 0; for (auto& e : c.e) mx = std::max<u64>(mx, e.w);
    bool moved = false, simple = !multi;   // simple: no original was added/removed since construction
    bool deleted = false;
    for (auto& o : c.ops) {
        if (o.size() < 5) x.discard();
        std::string w = "after operation " + std::to_string(step++) + " (code " + std::to_string(o[0]) + ")";
        uint32_t n = G->n();
        if (n == 0) break;
        NodeID v = o[1] % n;
        auto tag = tags_of(G);
        // survivor of a merge: the tag of the vertex now containing the originals
        auto merged = [&](const std::set<u64>& s) {
            // identify the surviving tag
            std::set<u64> now; for (auto t : tags_of(G)) now.insert(t);
            u64 keep = ~0ull; int k = 0;
            for (auto t : s) if (now.count(t)) { keep = t; ++k; }
            x.check(k == 1, w + ": contraction left " + std::to_string(k) + " of the merged vertices");
            M.merge(s, keep);
        };
        switch (o[0]) {
        case INS: {
            NodeID t = o[2] % n;
            if (t == v) continue;
            if (!multi && M.has(tag[v], tag[t])) continue;
            M.add(tag[v], tag[t], o[3]);
            if (v < t) {
                EdgeID id = G->new_edge(v, t, o[3]);
                x.check(G->getEdgeTarget(v, id) == t && G->getEdgeWeight(v, id) == static_cast<u64>(o[3]), w + ": new_edge returned another edge");
            } else { G->new_edge_order(v, t, o[3]); }
            break;
        }
        case DEL: case SETW: {
            if (!G->get_first_invalid_edge(v)) continue;
            EdgeID e = o[2] % G->get_first_invalid_edge(v);
            u64 t = tag[G->getEdgeTarget(v, e)];
            M.del(tag[v], t, G->getEdgeWeight(v, e));
            if (o[0] == DEL) G->deleteEdge(v, e);
            else { M.add(tag[v], t, o[3]); G->setEdgeWeight(v, e, o[3]); x.check(G->getEdgeWeight(v, e) == static_cast<u64>(o[3]), w + ": weight not set"); }
            break;
        }
        case DELV: {
            if (n < 2) continue;
            auto own = M.vs[tag[v]].own;
            M.drop(tag[v]);
            G->deleteVertex(v);
            for (auto q : own) x.check(G->getCurrentPosition(q) == UNDEFINED_NODE, w + ": deleted vertex still has a position");
            deleted = true; moved |= v + 1 < n;
            break;
        }
        case NEWV: {
            NodeID q = G->new_empty_node();
            x.eq(static_cast<u64>(q), static_cast<u64>(n), w + ": number of the new vertex");
            G->setPartitionIndex(q, M.next);
            bool cut = o[2] & 1; G->setNodeInCut(q, cut);
            M.vs[M.next] = { { }, M.next, cut }; ++M.next;
            break;
        }
        case CEDGE: case CSPARSE: {
            if (!G->get_first_invalid_edge(v)) continue;
            EdgeID e = o[2] % G->get_first_invalid_edge(v);
            std::set<u64> s { tag[v], tag[G->getEdgeTarget(v, e)] };
            if (o[0] == CEDGE) G->contractEdge(v, e); else G->contractEdgeSparseTarget(v, e);
            merged(s);
            moved = true;
            break;
        }
        case CNOEDGE: {
            NodeID t = o[2] % n;
            if (t == v || M.has(tag[v], tag[t])) continue;
            G->contractSparseTargetNoEdge(v, t);
            merged({ tag[v], tag[t] });
            moved = true;
            break;
        }
        case CSET: {
            std::unordered_set<NodeID> set { v };
            Rng q(o[2]);
            ll want = std::min<ll>(o[4], n);
            if (o[3] % 4 == 0) {    // neighbourhood
                for (EdgeID e : G->edges_of(v)) set.insert(G->getEdgeTarget(v, e));
            } else { for (int guard = 0; static_cast<ll>(set.size()) < want && guard < 50; ++guard) set.insert(q.range(0, n - 1)); }
            std::set<u64> s; for (auto a : set) s.insert(tag[a]);
            if (s.size() < 2) continue;
            if (o[3] % 8 == 1) set.insert(n + q.range(0, 3));     // vertices that do not exist (any more) are ignored
            G->contractVertexSet(set);
            merged(s);
            moved = true;
            break;
        }
        case COPY: {
            auto H = std::make_shared<mutable_graph>(*G);
            olds.push_back({ G, M });
            if (o[1] & 1) { G = H; } else { olds.back().G = H; }
            break;
        }
        case SIMP: {
            auto H = G->simplify();
            compare(H, M, x, w + " simplify", false);
            for (NodeID q : H->nodes()) x.check(H->getPartitionIndex(q) == tag[q], w + ": simplify reorders");
            break;
        }
        case SERIAL: {

            bool empty = false, anycut = false;
            for (auto& [t, q] : M.vs) { empty |= q.own.empty(); anycut |= q.cut; }
            auto s = G->serialize();
            auto H = mutable_graph::deserialize(s);
            x.eq(static_cast<u64>(H->getOriginalNodes()), static_cast<u64>(G->getOriginalNodes()), w + ": original vertices after transfer");
            x.eq(static_cast<u64>(H->get_partition_count()), static_cast<u64>(G->get_partition_count()), w + ": partition count after transfer");
            for (NodeID q : H->nodes()) H->setNodeInCut(q, G->getNodeInCut(q));
            compare(H, M, x, w + " serialisation");
            if (o[1] & 1) G = H;
            used.insert(SERIAL);
            break;
        }
        case TOCSR: {
            auto H = G->to_graph_access();
            if (arcs(H) != arcs(G)) x.fail(w + ": conversion to a static graph changes the arcs");
            break;
        }
        case RESET: {   // the current vertices become the original ones
            if (G->n() > G->getOriginalNodes() || o[1] % 3) continue;
            for (auto& q : olds) (void)q;
            G = std::make_shared<mutable_graph>(*G);
            G->resetContainedvertices();
            for (uint32_t q = 0; q < n; ++q) M.vs[tag[q]].own = { q };
            x.eq(static_cast<u64>(G->getOriginalNodes()), static_cast<u64>(n), w + ": original vertices");
            break;
        }
        default: x.discard();
        }
        used.insert(o[0]);
        compare(G, M, x, w);
        // the next vertex number is the number of vertices
        if (G->getLastNode() != G->n()) x.fail(w + ": last vertex number is wrong");
    }
    for (auto& q : olds) compare(q.G, q.M, x, "graph copied from / to");
    for (auto u : used) {
        static const char* nm[] = { "insert edge", "delete edge", "set weight", "delete vertex", "new vertex", "contract edge", "contract sparse", "contract non-adjacent", "contract set", "copy", "simplify", "serialise", "to static", "reset originals" };
        x.label(std::string("op:") + nm[u]);
    }
    if (multi) x.label("parallel edges");
    if (moved && used.size() >= 3) x.nt();
    (void)simple;
}
static pbt::Reg r1({ "C20", "mutable", gen_mut, run_mut, 10000, 120000 });

// flow of edges is tracked per problem
static void gen_mflow(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 2; o.nmax = 8; o.multi = true; gen::graph(r, c, o);
    for (ll i = r.range(1, 30); i > 0; --i) c.ops.push_back({ r.range(0, 2), r.range(0, 1000), r.range(0, 1000), r.range(1, 100), r.range(0, 4) });
}
static void run_mflow(const Case& c, Ctx& x) {
    for (auto& e : c.e) if (e.u >= c.n || e.v >= c.n || e.u == e.v) x.discard();
    auto G = make_mut(c.n, c.e);
    std::map<std::pair<u64, u64>, std::pair<ll, u64> > m;
    u64 prob = 1; bool sw = false;
    for (auto& o : c.ops) {
        if (o.size() < 5) x.discard();
        if (o[4] == 0) { ++prob; sw = true; }
        NodeID v = o[1] % c.n;
        if (!G->get_first_invalid_edge(v)) continue;
        EdgeID e = o[2] % G->get_first_invalid_edge(v);
        auto& f = m[{ v, e }];
        if (o[0] == 0) { G->setEdgeFlow(v, e, o[3], prob); f = { o[3], prob }; }
        else if (o[0] == 1) { G->addEdgeFlow(v, e, o[3], prob); if (f.second != prob) f = { 0, prob }; f.first += o[3]; }
        if (f.second != prob) f = { 0, prob };
        x.eq(static_cast<ll>(G->getEdgeFlow(v, e, prob)), f.first, "flow of an edge for the current problem");
        x.eq(static_cast<ll>(G->getEdgeFlow(v, e)), f.first, "flow of an edge");
    }
    if (sw && m.size() > 2) x.nt();
}
static pbt::Reg r2({ "C20", "edgeflow", gen_mflow, run_mflow, 2000, 20000 });

// ------------------------------------------------------------------ C21
static void gen_csr(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 1; o.nmax = r.chance(1, 5) ? 120 : 14; o.multi = r.chance(1, 3); o.wmax_class = 7; o.disc_pct = 40;
    gen::graph(r, c, o);
    if (r.chance(1, 3)) {   // isolated vertices, also first and last
        uint32_t k = r.range(1, 4);
        for (uint32_t i = 0; i < k; ++i) { uint32_t pos = r.chance(1, 3) ? c.n : r.range(0, c.n); for (auto& e : c.e) { if (e.u >= pos) ++e.u; if (e.v >= pos) ++e.v; } ++c.n; }
    }
    for (uint32_t i = 0; i < c.n; ++i) c.lab.push_back(r.range(0, 2));
    c.p["self"] = r.chance(1, 4);
    c.p["api"] = r.range(0, 2);
    c.p["seed"] = r.range(0, 1000);
}
static void run_csr(const Case& c, Ctx& x) {
    for (auto& e : c.e) if (e.u >= c.n || e.v >= c.n || e.u == e.v) x.discard();
    if (c.lab.size() != c.n || c.n < 1) x.discard();
    gen::describe(c, x);
    std::vector<std::vector<std::pair<uint32_t, u64> > > adj(c.n);
    for (auto& e : c.e) { adj[e.u].push_back({ e.v, e.w }); adj[e.v].push_back({ e.u, e.w }); }
    auto G = std::make_shared<graph_access>();
    if (c.P("api") == 2) {
        // two-pass construction used by sparsification: nodes carry the index of their first edge
        G->start_construction(c.n, 2 * c.e.size());
        G->resize_m(2 * c.e.size());
        std::vector<EdgeID> off(c.n + 1, 0);
        for (uint32_t v = 0; v < c.n; ++v) off[v + 1] = off[v] + adj[v].size();
        for (uint32_t v = 0; v < c.n; ++v) G->new_node_hacky(off[v + 1]);
        auto pos = off;
        for (auto& e : c.e) { EdgeID a = pos[e.u]++, b = pos[e.v]++; G->new_edge_and_reverse(e.u, e.v, a, b, e.w); }
    } else {
        G->start_construction(c.n, 2 * c.e.size());
        Rng q(c.P("seed"));
        for (uint32_t v = 0; v < c.n; ++v) {
            NodeID id = G->new_node();
            x.eq(static_cast<u64>(id), static_cast<u64>(v), "number of new vertex");
            for (auto& [t, w] : adj[v]) {
                if (c.P("self") && q.chance(1, 6)) G->new_edge(v, v, 7);   // self-loops are ignored
                if (c.P("api") == 0) { EdgeID e = G->new_edge(v, t); G->setEdgeWeight(e, w); }
                else { EdgeID e = G->new_edge(v, t, w); x.check(G->getEdgeTarget(e) == t && G->getEdgeWeight(e) == w, "new_edge returned another edge"); }
            }
        }
    }
    G->finish_construction();
    auto verify = [&](graphAccessPtr H, const std::vector<std::vector<std::pair<uint32_t, u64> > >& a, const std::string& w) {
        x.eq(static_cast<u64>(H->n()), static_cast<u64>(a.size()), w + ": vertices");
        u64 m = 0, mind = ~0ull, maxd = 0, sum = 0, maxu = 0;
        for (auto& v : a) m += v.size();
        x.eq(static_cast<u64>(H->m()), m, w + ": arcs");
        EdgeID expect = 0;
        std::vector<u64> degs;
        for (NodeID v : H->nodes()) {
            x.eq(static_cast<u64>(H->getUnweightedNodeDegree(v)), static_cast<u64>(a[v].size()), w + ": degree of vertex " + std::to_string(v));
            u64 d = 0; size_t i = 0;
            std::vector<std::pair<uint32_t, u64> > g;
            for (EdgeID e : H->edges_of(v)) {
                x.check(e == expect++, w + ": arcs are not consecutive");
                g.push_back({ H->getEdgeTarget(e), H->getEdgeWeight(e) });
                x.check(H->getEdgeTarget(v, e) == g.back().first && H->getEdgeWeight(v, e) == g.back().second, w + ": accessor overloads disagree");
                x.eq(static_cast<u64>(H->getEdgeSource(e)), static_cast<u64>(v), w + ": source of arc " + std::to_string(e));
                d += g.back().second; ++i;
            }
            auto s = a[v];
            std::sort(g.begin(), g.end()); std::sort(s.begin(), s.end());
            x.check(g == s, w + ": arcs of vertex " + std::to_string(v));
            x.eq(static_cast<u64>(H->getWeightedNodeDegree(v)), d, w + ": weighted degree of vertex " + std::to_string(v));
            mind = std::min(mind, d); maxd = std::max(maxd, d); sum += d; maxu = std::max<u64>(maxu, i);
            degs.push_back(d);
        }
        x.eq(static_cast<u64>(H->getMaxUnweightedDegree()), maxu, w + ": max unweighted degree");
        x.eq(static_cast<u64>(H->getMinDegree()), mind, w + ": min degree");
        x.eq(static_cast<u64>(H->getMaxDegree()), maxd, w + ": max degree");
        x.eq(static_cast<u64>(H->sumOfEdgeWeights()), sum, w + ": sum of weights");
        for (NodeID v : H->nodes()) x.eq(static_cast<u64>(H->getWeightedNodeDegree(v)), degs[v], w + ": cached weighted degree of vertex " + std::to_string(v));
        std::sort(degs.begin(), degs.end());
        for (double p : { 0.0, 0.3, 0.5, 0.99 }) x.eq(static_cast<u64>(H->getPercentile(p)), degs[static_cast<size_t>(degs.size() * p)], w + ": degree percentile");
        for (EdgeID e : H->edges()) {
            EdgeID r = H->find_reverse_edge(e);
            x.check(r < m && H->getEdgeTarget(r) == H->getEdgeSource(e) && H->getEdgeSource(r) == H->getEdgeTarget(e), w + ": reverse of arc " + std::to_string(e));
        }
    };
    verify(G, adj, "static graph");
    { auto H = G->copy(); x.check(H.n() == G->n() && H.m() == G->m(), "copy: size"); for (NodeID v : H.nodes()) for (EdgeID e : H.edges_of(v)) x.check(H.getEdgeTarget(e) == G->getEdgeTarget(e) && H.getEdgeWeight(e) == G->getEdgeWeight(e), "copy: arc"); }
    // METIS-style arrays
    {
        int* xa = G->UNSAFE_metis_style_xadj_array(); int* ad = G->UNSAFE_metis_style_adjncy_array(); int* aw = G->UNSAFE_metis_style_adjwgt_array();
        bool small = true;
        for (NodeID v : G->nodes()) {
            x.check(xa[v + 1] - xa[v] == static_cast<int>(adj[v].size()), "metis arrays: degree");
            for (EdgeID e : G->edges_of(v)) { x.check(ad[e] == static_cast<int>(G->getEdgeTarget(e)), "metis arrays: target"); if (G->getEdgeWeight(e) > (1u << 30)) small = false; else x.check(aw[e] == static_cast<int>(G->getEdgeWeight(e)), "metis arrays: weight"); }
        }
        if (small) {
            std::vector<int> vw(c.n, 1);
            auto H = std::make_shared<graph_access>(); H->build_from_metis_weighted(c.n, xa, ad, vw.data(), aw);
            verify(H, adj, "graph from metis arrays");
            auto U = std::make_shared<graph_access>(); U->build_from_metis(c.n, xa, ad);
            auto ua = adj; for (auto& v : ua) for (auto& q : v) q.second = 1;
            verify(U, ua, "unweighted graph from metis arrays");
        }
        delete[] xa; delete[] ad; delete[] aw;
    }
    // static -> mutable (double edges are summed up) -> static
    auto M = mutable_graph::from_graph_access(G);
    check_mutable(M, x, "mutable from static");
    x.check(same_edges(merged_edges(M), oracle::simplify(c.e)), "mutable from static: edges differ");
    x.eq(static_cast<u64>(M->n()), static_cast<u64>(c.n), "mutable from static: vertices");
    x.eq(static_cast<u64>(M->m()), static_cast<u64>(2 * oracle::simplify(c.e).size()), "mutable from static: double edges not merged");
    auto B = M->to_graph_access();
    if (arcs(B) != arcs_of(oracle::simplify(c.e))) x.fail("static from mutable: arcs differ");
    {
        auto a2 = std::vector<std::vector<std::pair<uint32_t, u64> > >(c.n);
        for (auto& e : oracle::simplify(c.e)) { a2[e.u].push_back({ e.v, e.w }); a2[e.v].push_back({ e.u, e.w }); }
        verify(B, a2, "static from mutable");
    }
    // extraction of a block
    graph_extractor ge;
    for (int blk = 0; blk < 3; ++blk) {
        for (NodeID v : G->nodes()) G->setPartitionIndex(v, c.lab[v]);
        auto [H, map] = ge.extract_block(G, blk);
        std::vector<uint32_t> want;
        for (uint32_t v = 0; v < c.n; ++v) if (c.lab[v] == blk) want.push_back(v);
        x.eq(static_cast<u64>(H->n()), static_cast<u64>(want.size()), "block: number of vertices");
        std::vector<uint32_t> id(c.n, ~0u);
        std::set<uint32_t> img;
        for (auto v : want) { x.check(map[v] < want.size() && img.insert(map[v]).second, "block: mapping is not a bijection"); id[v] = map[v]; }
        for (uint32_t v = 0; v < c.n; ++v) if (c.lab[v] != blk) x.check(map[v] >= c.n, "block: vertex outside the block is mapped");
        std::vector<E> ie;
        for (auto& e : c.e) if (id[e.u] != ~0u && id[e.v] != ~0u) ie.push_back({ id[e.u], id[e.v], e.w });
        if (want.size() && arcs(H) != arcs_of(ie)) x.fail("block: not the induced subgraph");
        // mutable variant
        std::vector<int> comp(c.lab.begin(), c.lab.end());
        auto MG = make_mut(c.n, c.e);
        auto [MH, mp, rev] = ge.extract_block(MG, blk, comp);
        x.eq(static_cast<u64>(MH->n()), static_cast<u64>(want.size()), "mutable block: number of vertices");
        x.check(mp.size() == want.size(), "mutable block: mapping size");
        std::vector<uint32_t> id2(c.n, ~0u);
        for (uint32_t i = 0; i < mp.size(); ++i) { x.check(mp[i] < c.n && rev[mp[i]] == i && c.lab[mp[i]] == blk, "mutable block: mappings are not inverse"); id2[mp[i]] = i; }
        ie.clear();
        for (auto& e : c.e) if (id2[e.u] != ~0u && id2[e.v] != ~0u) ie.push_back({ id2[e.u], id2[e.v], e.w });
        check_mutable(MH, x, "mutable block");
        if (arcs(MH) != arcs_of(ie)) x.fail("mutable block: not the induced subgraph");
    }
    if (c.e.size() > 2 && c.n > 3) x.nt();
}
static pbt::Reg r3({ "C21", "static", gen_csr, run_csr, 8000, 60000 });

// the two auxiliary graph classes
static void gen_aux(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 2; o.nmax = 12; o.disc_pct = 20; gen::graph(r, c, o);
    for (ll i = r.range(0, 10); i > 0; --i) c.ops.push_back({ r.range(0, 1000), r.range(0, 1000) });
}
static void run_adj(const Case& c, Ctx& x) {
    for (auto& e : c.e) if (e.u >= c.n || e.v >= c.n || e.u == e.v) x.discard();
    // flow graph: every arc has a reverse arc with capacity zero
    flow_graph F; F.start_construction(c.n);
    std::vector<ll> cap(c.n, 0);
    std::vector<std::multiset<std::tuple<uint32_t, ll> > > want(c.n);
    u64 m = 0;
    for (auto& e : c.e) { F.new_edge(e.u, e.v, e.w); cap[e.u] += e.w; want[e.u].insert({ e.v, static_cast<ll>(e.w) }); want[e.v].insert({ e.u, 0 }); m += 2; }
    F.finish_construction();
    x.eq(static_cast<u64>(F.number_of_nodes()), static_cast<u64>(c.n), "flow graph: vertices");
    x.eq(static_cast<u64>(F.number_of_edges()), m, "flow graph: arcs");
    Rng q(c.hash());
    for (NodeID v : F.nodes()) {
        std::multiset<std::tuple<uint32_t, ll> > got;
        x.eq(static_cast<ll>(F.getCapacity(v)), cap[v], "flow graph: capacity of a vertex");
        for (EdgeID e : F.edges_of(v)) {
            NodeID t = F.getEdgeTarget(v, e);
            got.insert({ t, static_cast<ll>(F.getEdgeCapacity(v, e)) });
            EdgeID r = F.getReverseEdge(v, e);
            x.check(t < c.n && r < F.get_first_invalid_edge(t) && F.getEdgeTarget(t, r) == v && F.getReverseEdge(t, r) == e, "flow graph: reverse arc");
            ll f = q.range(0, 100); F.setEdgeFlow(v, e, f); x.eq(static_cast<ll>(F.getEdgeFlow(v, e)), f, "flow graph: flow");
        }
        x.check(got == want[v], "flow graph: arcs of a vertex");
    }
    // adjacency list graph: merging vertices
    adjlist_graph A; A.start_construction(c.n, 2 * c.e.size());
    std::map<std::pair<uint32_t, uint32_t>, u64> M;
    for (uint32_t v = 0; v < c.n; ++v) A.new_node();
    auto se = oracle::simplify(c.e);
    for (auto& e : se) { A.new_edge(e.u, e.v, e.w); A.new_edge(e.v, e.u, e.w); M[{ e.u, e.v }] = e.w; M[{ e.v, e.u }] = e.w; }
    A.finish_construction();
    for (uint32_t v = 0; v < c.n; ++v) {
        u64 d = 0, k = 0;
        for (EdgeID e = A.get_first_edge(v); e < A.get_first_invalid_edge(v); ++e) {
            auto it = M.find({ v, A.getEdgeTarget(e) });
            x.check(it != M.end() && it->second == A.getEdgeWeight(e), "adjacency list graph: arc");
            d += A.getEdgeWeight(e); ++k;
        }
        x.eq(static_cast<u64>(A.getWeightedNodeDegree(v)), d, "adjacency list graph: weighted degree");
        x.eq(static_cast<u64>(A.getNodeDegree(v)), k, "adjacency list graph: degree");
        for (uint32_t t = 0; t < c.n; ++t) x.check(A.HasEdgeTo(v, t) == (M.count({ v, t }) > 0), "adjacency list graph: HasEdgeTo");
    }
    if (c.e.size() > 2) x.nt();
}
static pbt::Reg r4({ "C21", "auxgraphs", gen_aux, run_adj, 2000, 20000 });

// ------------------------------------------------------------------ C22
// ops: {code, element, key}
enum { PINS, PCHG, PINC, PDEC, PDEL, PMAX, PQOPS };
static void gen_pq(Rng& r, Case& c) {
    c.p["kind"] = r.range(0, 4);
    c.p["n"] = r.chance(1, 3) ? r.range(1, 6) : r.range(2, 40);
    c.p["span"] = r.chance(1, 4) ? r.range(0, 3) : r.chance(1, 6) ? r.range(1000, 100000) : r.range(1, 30);
    bool big = (c.P("kind") == 0 || c.P("kind") == 1) && r.chance(1, 4);
    if (big) c.p["span"] = (1ll << r.range(31, 40));
    c.p["ties"] = r.chance(1, 4);
    ll len = r.chance(1, 8) ? r.range(100, 400) : r.range(1, 60);
    int style = r.range(0, 3);
    for (ll i = 0; i < len; ++i) {
        int op = r.range(0, PQOPS - 1);
        if (style == 0 && i < len / 2) op = PINS;
        if (style == 1 && r.chance(1, 2)) op = r.pick({ PINC, PCHG });
        if (style == 2 && r.chance(1, 2)) op = r.pick({ PINS, PMAX });
        if (c.P("ties") && op != PINS) op = PMAX;
        if (c.P("ties") && r.chance(1, 3)) op = PINS;
        ll key = r.chance(1, 8) ? r.pick({ 0ll, c.P("span") }) : r.range(0, c.P("span"));
        c.ops.push_back({ op, r.range(0, c.P("n") - 1), key });
    }
}
static void run_pq(const Case& c, Ctx& x) {
    ll n = c.P("n"), span = c.P("span");
    if (n < 1) x.discard();
    int k = c.P("kind") % 5;
    if (k >= 2 && span > 1000000) x.discard();
    std::unique_ptr<priority_queue_interface> Q;
    switch (k) {
    case 0: Q.reset(new maxNodeHeap(n, span)); break;
    case 1: Q.reset(new vecMaxNodeHeap(n, span)); break;
    case 2: Q.reset(new bucket_pq(n, span)); break;
    case 3: Q.reset(new node_bucket_pq(n, span)); break;
    default: Q.reset(new fifo_node_bucket_pq(n, span)); break;
    }
    static const char* nm[] = { "maxNodeHeap", "vecMaxNodeHeap", "bucket_pq", "node_bucket_pq", "fifo_node_bucket_pq" };
    x.label(nm[k]);
    std::map<NodeID, u64> M;
    std::map<u64, std::vector<NodeID> > order;   // insertion order per key, exact while only inserting and extracting
    bool pure = true, tied = false;
    int step = 0; size_t peak = 0; std::set<int> used;
    auto inspect = [&](const std::string& w) {
        x.eq(static_cast<u64>(Q->size()), static_cast<u64>(M.size()), w + ": size");
        x.eq(Q->empty(), M.empty(), w + ": empty");
        for (NodeID v = 0; v < n; ++v) {
            x.eq(Q->contains(v), M.count(v) > 0, w + ": contains " + std::to_string(v));
            if (M.count(v)) x.eq(static_cast<u64>(Q->getKey(v)), M[v], w + ": key of " + std::to_string(v));
        }
        if (!M.empty()) {
            u64 mx = 0; for (auto& [v, q] : M) mx = std::max(mx, q);
            x.eq(static_cast<u64>(Q->maxValue()), mx, w + ": maximum key");
            NodeID m = Q->maxElement();
            x.check(M.count(m) && M[m] == mx, w + ": maximum element");
        }
    };
    for (auto& o : c.ops) {
        if (o.size() < 3 || o[1] >= n || o[1] < 0 || o[2] < 0 || o[2] > span) x.discard();
        NodeID v = o[1]; u64 key = o[2];
        std::string w = std::string(nm[k]) + " after operation " + std::to_string(step++) + " (code " + std::to_string(o[0]) + ")";
        bool in = M.count(v);
        switch (o[0]) {
        case PINS: if (in) continue; Q->insert(v, key); M[v] = key; order[key].push_back(v); break;
        case PCHG: if (!in) continue; Q->changeKey(v, key); M[v] = key; pure = false; break;
        case PINC: if (!in) continue; key = std::max(key, M[v]); Q->increaseKey(v, key); M[v] = key; pure = false; break;
        case PDEC: if (!in) continue; key = std::min(key, M[v]); Q->decreaseKey(v, key); M[v] = key; pure = false; break;
        case PDEL: if (!in) continue; Q->deleteNode(v); M.erase(v); pure = false; break;
        case PMAX: {
            if (M.empty()) continue;
            u64 mx = 0; for (auto& [q, kk] : M) mx = std::max(mx, kk);
            NodeID pre = Q->maxElement();
            NodeID m = Q->deleteMax();
            x.eq(static_cast<u64>(m), static_cast<u64>(pre), w + ": extracted element is not the announced maximum");
            x.check(M.count(m) && M[m] == mx, w + ": extracted element is not of maximum key");
            if (pure && k >= 2) {
                auto& L = order[mx];
                if (L.size() > 1) tied = true;
                NodeID want = k == 4 ? L.front() : L.back();
                x.eq(static_cast<u64>(m), static_cast<u64>(want), w + ": tie rule");
                if (k == 4) L.erase(L.begin()); else L.pop_back();
            }
            M.erase(m);
            break;
        }
        default: x.discard();
        }
        used.insert(o[0]);
        peak = std::max(peak, M.size());
        inspect(w);
    }
    // drain
    u64 last = ~0ull;
    while (!M.empty()) {
        x.check(!Q->empty(), "drain: queue is empty too early");
        u64 kv = Q->maxValue(); NodeID m = Q->deleteMax();
        x.check(M.count(m) && M[m] == kv && kv <= last, "drain: wrong order");
        last = kv; M.erase(m);
        x.eq(static_cast<u64>(Q->size()), static_cast<u64>(M.size()), "drain: size");
    }
    x.check(Q->empty(), "drain: queue is not empty");
    if (tied) x.label("ties resolved");
    if (peak >= 3 && (used.size() >= 4 || tied)) x.nt();
}
static pbt::Reg r5({ "C22", "pq", gen_pq, run_pq, 25000, 400000 });

// ------------------------------------------------------------------ C23
static void gen_uf(Rng& r, Case& c) {
    c.p["n"] = r.chance(1, 5) ? r.range(100, 2000) : r.range(1, 30);
    ll n = c.P("n");
    int style = r.range(0, 3);
    for (ll i = r.range(0, n * 3 / 2 + 3); i > 0; --i) {
        ll a = r.range(0, n - 1), b = r.range(0, n - 1);
        if (style == 1) { a = i % n; b = (i + 1) % n; }
        if (style == 2) { a = r.range(0, n - 1) / 2 * 2; b = std::min(n - 1, a + 1); }
        c.ops.push_back({ r.chance(3, 4), a, b });
    }
}
static void run_uf(const Case& c, Ctx& x) {
    ll n = c.P("n");
    if (n < 1) x.discard();
    union_find U(n);
    oracle::DSU D(n);
    u64 sets = n; int step = 0; bool fin = false;
    for (auto& o : c.ops) {
        if (o.size() < 3 || o[1] >= n || o[2] >= n) x.discard();
        std::string w = "operation " + std::to_string(step++);
        if (o[0]) {
            bool un = D.u(o[1], o[2]);
            sets -= un;
            x.eq(U.Union(o[1], o[2]), un, w + ": result of Union");
        } else { x.eq(U.Find(o[1]) == U.Find(o[2]), D.f(o[1]) == D.f(o[2]), w + ": same representative"); fin = true; }
        x.eq(static_cast<u64>(U.n()), sets, w + ": number of sets");
    }
    std::map<u64, u64> rep;
    std::set<u64> reps;
    for (ll v = 0; v < n; ++v) {
        u64 f = U.Find(v);
        x.check(f < static_cast<u64>(n) && U.Find(f) == f, "representative is not its own representative");
        auto it = rep.emplace(D.f(v), f);
        x.eq(f, it.first->second, "representative of element " + std::to_string(v));
        reps.insert(f);
    }
    x.eq(static_cast<u64>(reps.size()), sets, "number of different representatives");
    if (fin && sets > 1 && sets < static_cast<u64>(n)) x.nt();
}
static pbt::Reg r6({ "C23", "unionfind", gen_uf, run_uf, 10000, 100000 });
#else
// ------------------------------------------------------------------ C23 concurrent
static void gen_puf(Rng& r, Case& c) {
    ll n = c.p["n"] = r.chance(1, 3) ? r.range(2, 8) : r.chance(1, 3) ? r.range(500, 3000) : r.range(8, 100);
    ll t = c.p["threads"] = r.range(2, 8);
    c.p["rounds"] = n <= 8 ? 400 : n <= 100 ? 60 : 4;
    int style = r.range(0, 3);
    ll len = std::max<ll>(2, n * r.range(1, 3) / 2);
    for (ll i = 0; i < len; ++i) {
        ll a = r.range(0, n - 1), b = r.range(0, n - 1);
        if (style == 1) { a = i % n; b = (i + 1) % n; }
        if (style == 2) { a = r.range(0, n - 1); b = r.range(0, std::min<ll>(n - 1, 2)); }
        c.ops.push_back({ r.range(0, t - 1), a, b, r.chance(1, 3) });
    }
}
static void run_puf(const Case& c, Ctx& x) {
    ll n = c.P("n"), T = c.P("threads");
    if (n < 1 || T < 1 || T > 64) x.discard();
    std::vector<std::vector<std::array<unsigned, 3> > > per(T);
    oracle::DSU D(n);
    u64 sets = n;
    for (auto& o : c.ops) {
        if (o.size() < 4 || o[1] >= n || o[2] >= n || o[0] >= T) x.discard();
        per[o[0]].push_back({ static_cast<unsigned>(o[1]), static_cast<unsigned>(o[2]), static_cast<unsigned>(o[3]) });
        sets -= D.u(o[1], o[2]);
    }
    for (ll round = 0; round < std::max<ll>(1, c.P("rounds")); ++round) {
        union_find U(n);
        std::atomic<int> go { 0 };
        std::atomic<long> linked { 0 };
        std::atomic<int> bad { 0 };
        std::vector<std::thread> th;
        for (ll t = 0; t < T; ++t)
            th.emplace_back([&, t] {
                go.fetch_add(1);
                while (go.load() < T) { if (T > 4) sched_yield(); }
                long mine = 0;
                for (auto& o : per[t]) {
                    if (U.Union(o[0], o[1])) ++mine;
                    if (o[2] && !U.SameSet(o[0], o[1])) bad = 1;
                }
                linked += mine;
            });
        for (auto& t : th) t.join();
        x.check(!bad, "elements united before are reported as different");
        std::map<u64, u64> rep; std::set<u64> reps;
        for (ll v = 0; v < n; ++v) {
            u64 f = U.Find(v);
            auto it = rep.emplace(D.f(v), f);
            x.eq(f, it.first->second, "representative of element " + std::to_string(v));
            reps.insert(f);
        }
        x.eq(static_cast<u64>(reps.size()), sets, "number of different representatives");
        x.eq(static_cast<u64>(U.n()), sets, "number of sets");
        x.eq(static_cast<u64>(linked.load()), static_cast<u64>(n) - sets, "number of successful unions");
        for (ll v = 0; v + 1 < n; ++v) x.eq(U.SameSet(v, v + 1), D.f(v) == D.f(v + 1), "SameSet");
        union_find V(U);
        for (ll v = 0; v < n; ++v) x.check(V.SameSet(v, U.Find(v)), "copied structure differs");
    }
    if (sets < static_cast<u64>(n) && c.ops.size() > 3) x.nt();
    x.label("threads:" + std::to_string(T));
    x.label(n <= 8 ? "n<=8" : n <= 100 ? "n<=100" : "n>100");
}
static pbt::Reg r7({ "C23", "concurrent", gen_puf, run_puf, 250, 6000, true });
#endif
PBT_MAIN
