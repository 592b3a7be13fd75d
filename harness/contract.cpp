// C17 contraction, C18 contraction tests, C19 label propagation / trivial cuts / sparsification
#include "algorithms/global_mincut/algorithms.h"
#include "mincut_common.h"
#include "algorithms/global_mincut/cactus/all_cut_local_red.h"
#include "algorithms/global_mincut/cactus/heavy_edges.h"
#include "algorithms/global_mincut/minimum_cut_helpers.h"
#ifdef PARALLEL
#include "parallel/coarsening/contract_graph.h"
#include "parallel/coarsening/contraction_tests.h"
#include "parallel/coarsening/label_propagation.h"
#include "parallel/coarsening/sparsify.h"
#define PRE "p"
#define CONC true
#else
#include "coarsening/contract_graph.h"
#include "coarsening/contraction_tests.h"
#include "coarsening/label_propagation.h"
#include "coarsening/sparsify.h"
#define PRE ""
#define CONC false
#endif
using oracle::Mask;

static void threads(const Case& c, Ctx& x) {
#ifdef PARALLEL
    int t = std::max<ll>(1, c.P("t", 1));
    omp_set_num_threads(t); configuration::getConfig()->threads = t;
    x.label("threads:" + std::to_string(t));
#else
    (void)c; (void)x;
#endif
}
static u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

// ---------------------------------------------------------------- C17
enum Impl { UF, UFCOPY, CG, SPARSE, VTX, VTXIN, MESH, NOHASH, NIMPL };
static const char* IMPL[] = { "fromUnionFind", "fromUnionFind copy", "contractGraph", "contractGraphSparse", "vertex sets (copy)", "vertex sets (in place)", "full mesh", "no-hash" };

static std::vector<uint32_t> blocks(const Case& c, uint32_t n, int level, const std::vector<E>& e) {
    // a partition of the n current vertices, renumbered by first occurrence
    std::vector<uint32_t> b(n);
    int kind = c.P("kind") % 8;
    u64 sd = c.P("psd") + 1000 * level;
    oracle::DSU d(n);
    auto rnd = [&](u64 i) { return mix(sd * 1000003 + i); };
    switch (kind) {
    case 0: { u64 k = 1 + rnd(1) % std::max<u64>(1, n); for (uint32_t i = 0; i < n; ++i) b[i] = rnd(100 + i) % k; break; }          // k random blocks
    case 1: { u64 k = 1 + rnd(1) % 4; for (uint32_t i = 0; i < n; ++i) b[i] = rnd(100 + i) % k; break; }                           // few blocks
    case 2: { for (uint32_t i = 0; i < n; ++i) { u64 q = rnd(100 + i) % 10; b[i] = q < 4 ? 0 : q < 8 ? 1 : 2 + i; } break; }           // two huge blocks
    case 3: for (uint32_t i = 0; i < n; ++i) b[i] = rnd(100 + i) % 4 ? i : rnd(1) % n; break;                                       // one block, rest single
    case 4: { u64 k = rnd(1) % 101; for (size_t i = 0; i < e.size(); ++i) if (rnd(100 + i) % 100 < k) d.u(e[i].u, e[i].v); for (uint32_t i = 0; i < n; ++i) b[i] = d.f(i); break; } // along edges
    case 5: for (uint32_t i = 0; i < n; ++i) b[i] = i; break;                                                                    // nothing
    case 6: { for (uint32_t i = 0; i < n; ++i) b[i] = i; if (!e.empty()) { auto& q = e[rnd(1) % e.size()]; b[q.u] = b[q.v]; } break; }   // one edge
    default: for (uint32_t i = 0; i < n; ++i) b[i] = rnd(7) % 3 == 0 ? 0 : i / 2; break;                                             // pairs / all
    }
    std::map<uint32_t, uint32_t> re;
    for (auto& q : b) q = re.insert({ q, static_cast<uint32_t>(re.size()) }).first->second;
    return b;
}
template <class P> struct Tr { static constexpr bool mut = std::is_same<P, mutableGraphPtr>::value; };

template <class P> static P contract(P G, int impl, const std::vector<uint32_t>& b, uint32_t k, const Case& c, std::vector<uint32_t>* pos) {
    uint32_t n = b.size();
    std::vector<NodeID> mapping(b.begin(), b.end());
    std::vector<std::vector<NodeID> > rev(k);
    for (uint32_t i = 0; i < n; ++i) rev[b[i]].push_back(i);
    auto uf = [&]() {
        union_find u(n);
        std::vector<uint32_t> last(k, ~0u);
        std::vector<std::pair<uint32_t, uint32_t> > un;
        for (uint32_t i = 0; i < n; ++i) { if (last[b[i]] != ~0u) un.push_back({ last[b[i]], i }); last[b[i]] = i; }
        std::sort(un.begin(), un.end(), [&](auto& p, auto& q) { return mix(p.second + c.P("psd")) < mix(q.second + c.P("psd")); });
        for (auto& [p, q] : un) { if (mix(q) % 2) u.Union(p, q); else u.Union(q, p); }
        return u;
    };
    for (uint32_t i = 0; i < n; ++i) G->setPartitionIndex(i, b[i]);
    P H;
    bool inplace = false;
    switch (impl) {
    case UF: { auto u = uf(); H = contraction::fromUnionFind(G, &u, false); inplace = Tr<P>::mut; break; }
    case UFCOPY: { for (uint32_t i = 0; i < n; ++i) G->setPartitionIndex(i, 77); auto u = uf(); H = contraction::fromUnionFind(G, &u, true); break; }
    case CG: H = contraction::contractGraph(G, mapping, rev); break;
#ifdef PARALLEL
    case MESH: if constexpr (!Tr<P>::mut) H = contraction::contractGraphFullMesh(G, mapping, k); break;
    case NOHASH: if constexpr (!Tr<P>::mut) H = contraction::contractGraphSparseNoHash(G, mapping, k); break;
    case VTX: if constexpr (Tr<P>::mut) H = contraction::contractGraphVtxset(G, mapping, rev, true); break;
    case VTXIN: if constexpr (Tr<P>::mut) { H = contraction::contractGraphVtxset(G, mapping, rev, false); inplace = true; } break;
    default: H = contraction::contractGraphSparse(G, mapping, k); break;
#else
    case VTX: if constexpr (Tr<P>::mut) H = contraction::contractGraphVertexset(G, mapping, rev, true); break;
    case VTXIN: if constexpr (Tr<P>::mut) { H = contraction::contractGraphVertexset(G, mapping, rev, false); inplace = true; } break;
    default: H = contraction::contractGraphSparse(G, mapping, rev); break;
#endif
    }
    pos->resize(n);
    if (inplace) { if constexpr (Tr<P>::mut) for (uint32_t i = 0; i < n; ++i) (*pos)[i] = H->getCurrentPosition(i); }
    else for (uint32_t i = 0; i < n; ++i) (*pos)[i] = G->getPartitionIndex(i);
    return H;
}
template <class P> static void check_quotient(P H, const std::vector<E>& e, const std::vector<uint32_t>& b, uint32_t k, const std::vector<uint32_t>& pos, Ctx& x, const std::string& what) {
    uint32_t n = b.size();
    x.eq(static_cast<u64>(H->number_of_nodes()), static_cast<u64>(k), what + ": vertices of the contracted graph");
    // positions are a bijection blocks -> vertices
    std::vector<uint32_t> at(k, ~0u), from(k, ~0u);
    for (uint32_t i = 0; i < n; ++i) {
        x.check(pos[i] < k, what + ": vertex mapped to a missing vertex");
        x.check(at[b[i]] == ~0u || at[b[i]] == pos[i], what + ": one block is mapped to two vertices");
        x.check(from[pos[i]] == ~0u || from[pos[i]] == b[i], what + ": two blocks are mapped to one vertex");
        at[b[i]] = pos[i]; from[pos[i]] = b[i];
    }
    std::vector<E> q;
    for (auto& s : e) if (b[s.u] != b[s.v]) q.push_back({ pos[s.u], pos[s.v], s.w });
    q = oracle::simplify(q);
    x.check(arcs(H) == arcs_of(q), what + ": contracted graph has edges " + show(merged_edges(H)).substr(0, 300) + " expected " + show(q).substr(0, 300));
    H->computeDegrees();
    std::vector<u64> deg(k, 0);
    for (auto& s : q) { deg[s.u] += s.w; deg[s.v] += s.w; }
    for (uint32_t v = 0; v < k; ++v) x.eq(static_cast<u64>(H->getWeightedNodeDegree(v)), deg[v], what + ": degree in the contracted graph");
    if (k) x.eq(static_cast<u64>(H->getMinDegree()), *std::min_element(deg.begin(), deg.end()), what + ": minimum degree of the contracted graph");
    x.eq(static_cast<u64>(H->number_of_edges()), static_cast<u64>(2 * q.size()), what + ": number of edges");
    if constexpr (Tr<P>::mut) check_mutable(H, x, what, true);
}
template <class P> static void run17(const Case& c, Ctx& x) {
    auto G = make<P>(c.n, c.e);
    std::vector<E> e = c.e;
    uint32_t n = c.n;
    int levels = std::max<ll>(1, c.P("levels", 1));
    configuration::getConfig()->save_cut = c.P("save");
    bool simple = oracle::simplify(e).size() == e.size();
    for (int l = 0; l < levels && n > 0; ++l) {
        auto b = blocks(c, n, l, e);
        uint32_t k = 0; for (auto q : b) k = std::max(k, q + 1);
        int impl = (c.P("impl") + l * c.P("istep")) % NIMPL;
        if (Tr<P>::mut && (impl == MESH || impl == NOHASH)) impl = SPARSE;
        if (!Tr<P>::mut && (impl == VTX || impl == VTXIN)) impl = UF;
        if (impl == MESH && k > 60) impl = SPARSE;
        if (impl == NOHASH && n > 3000) impl = SPARSE;
#ifndef PARALLEL
        if (impl == MESH || impl == NOHASH) impl = CG;
#endif
        // contractions in place and into copies need simple graphs
        if (Tr<P>::mut && !simple && impl != SPARSE) impl = SPARSE;
        std::vector<uint32_t> pos;
        P H = contract(G, impl, b, k, c, &pos);
        std::string what = std::string(IMPL[impl]) + (Tr<P>::mut ? " (mutable)" : " (static)") + " level " + std::to_string(l);
        x.label(std::string(IMPL[impl]) + (Tr<P>::mut ? " mutable" : " static"));
        // a static or copying contraction leaves its input as it was
        if (!(Tr<P>::mut && (impl == UF || impl == VTXIN))) x.check(arcs(G) == arcs_of(e), what + ": input graph was changed");
        bool same = k == n;
        // a contraction in the sequential variant without merged vertices returns the graph itself
        if (Tr<P>::mut && same && impl == UF && H == G) { if constexpr (Tr<P>::mut) for (uint32_t i = 0; i < n; ++i) pos[i] = G->getCurrentPosition(i); }
        check_quotient(H, e, b, k, pos, x, what);
        if (k > 1 && k < n) x.nt();
        x.label(k == n ? "no block merged" : k == 1 ? "one block" : k * 5 < n ? "strong contraction" : "mild contraction");
        if (c.P("kind") % 8 == 2 && n > 100) x.label("two blocks above a fifth, n>100");
        std::vector<E> q;
        for (auto& s : e) if (b[s.u] != b[s.v]) q.push_back({ pos[s.u], pos[s.v], s.w });
        e = oracle::simplify(q); simple = true;
        if constexpr (Tr<P>::mut) if (H == G) H->resetContainedvertices();
        G = H; n = k;
    }
}
static void c17(const Case& c, Ctx& x) {
    GUARD;
    threads(c, x);
    if (c.n < 1000) gen::describe(c, x);
    if (c.P("mut")) run17<mutableGraphPtr>(c, x); else run17<graphAccessPtr>(c, x);
}
static void cfg17(Rng& r, Case& c) {
    gen_cfg(r, c);
    c.p["kind"] = r.range(0, 7); c.p["psd"] = r.range(0, 1000000); c.p["impl"] = r.range(0, NIMPL - 1); c.p["istep"] = r.range(0, 3); c.p["levels"] = r.range(1, 3);
    c.p["t"] = r.pick({ 1, 2, 2, 3, 4, 4, 6, 8 });
}
static void g17s(Rng& r, Case& c) { gen::GOpt o; o.nmin = 2; o.nmax = 20; o.multi = r.chance(1, 4); o.wmax_class = 7; o.disc_pct = 20; gen::graph(r, c, o); cfg17(r, c); }
static void g17m(Rng& r, Case& c) { gen::GOpt o; o.nmin = 21; o.nmax = 260; o.multi = r.chance(1, 4); o.wmax_class = 7; o.mmax = 4000; gen::graph(r, c, o); cfg17(r, c); if (r.chance(1, 2)) c.p["kind"] = r.range(1, 2); }
static void g17l(Rng& r, Case& c) { gen::GOpt o; o.nmin = 400; o.nmax = 2500; o.multi = r.chance(1, 4); o.wmax_class = 7; o.mmax = 20000; gen::graph(r, c, o); cfg17(r, c); c.p["levels"] = 2; c.p["noshrink_n"] = 0; if (r.chance(1, 2)) c.p["kind"] = r.range(1, 2); }
static pbt::Reg r17a({ "C17", PRE "contract_small", g17s, c17, 60000, 1500000, CONC });
static pbt::Reg r17b({ "C17", PRE "contract_medium", g17m, c17, 6000, 200000, CONC });
static pbt::Reg r17c({ "C17", PRE "contract_large", g17l, c17, 400, 15000, CONC });
#ifdef PARALLEL
// few workers and many vertices: the threads of one contraction really run at the same time
static std::vector<E> stress_edges(const Case& c) {
    std::vector<E> e; u64 sd = c.P("gs"), m = c.n * static_cast<u64>(c.P("deg")) / 2, w = c.P("w");
    for (u64 i = 0; i < m; ++i) { uint32_t a = mix(sd + 3 * i) % c.n, b = mix(sd + 3 * i + 1) % c.n; if (c.P("local")) b = (a + 1 + mix(sd + 3 * i + 1) % 8) % c.n; if (a != b) e.push_back({ a, b, 1 + mix(sd + 3 * i + 2) % w }); }
    return oracle::simplify(e);
}
template <class P> static void stress17(const Case& c, Ctx& x) {
    auto e = stress_edges(c);
    auto G = make<P>(c.n, e);
    uint32_t n = c.n, k = std::max<ll>(1, std::min<ll>(c.P("k"), n));
    std::vector<uint32_t> b(n);
    for (uint32_t i = 0; i < n; ++i) { u64 h = mix(c.P("psd") * 1000003 + i); b[i] = i < k ? i : c.P("huge") && h % 10 < 7 && k > 1 ? h / 16 % 2 : c.P("range") ? static_cast<u64>(i) * k / n : h / 16 % k; }
    std::vector<NodeID> mapping(b.begin(), b.end());
    std::vector<std::vector<NodeID> > rev(k);
    for (uint32_t i = 0; i < n; ++i) rev[b[i]].push_back(i);
    std::vector<uint32_t> pos(n);
    std::vector<E> q;
    for (auto& s : e) if (b[s.u] != b[s.v]) q.push_back({ b[s.u], b[s.v], s.w });
    q = oracle::simplify(q);
    auto want = arcs_of(q);
    int impl = c.P("impl") % 3;
    for (int rep = 0; rep < std::max<ll>(1, c.P("rep", 1)); ++rep) {
        P H;
        std::string what = "contracting " + std::to_string(n) + " vertices into " + std::to_string(k) + " with " + std::to_string(c.P("t")) + " threads";
        if constexpr (Tr<P>::mut) H = contraction::contractGraphSparse(G, mapping, k);
        else if (impl == 0 && k <= 140) { H = contraction::contractGraphFullMesh(G, mapping, k); what += " (full mesh)"; }
        else if (impl == 1) H = contraction::contractGraph(G, mapping, rev);
        else H = contraction::contractGraphSparse(G, mapping, k);
        x.eq(static_cast<u64>(H->number_of_nodes()), static_cast<u64>(k), what + ": vertices");
        x.check(arcs(H) == want, what + ": wrong edges or weights");
        if constexpr (Tr<P>::mut) check_mutable(H, x, what, true);
    }
    x.label(std::string("stress ") + (Tr<P>::mut ? "mutable" : impl == 0 && k <= 140 ? "full mesh" : impl == 1 ? "contractGraph" : "sparse"));
    if (k > 1 && k < n && c.P("t") > 1) x.nt();
}
static void c17x(const Case& c, Ctx& x) {
    GUARD;
    if (c.n < 1 || c.n > 200000 || c.P("w") < 1) x.discard();
    threads(c, x);
    if (c.P("mut")) stress17<mutableGraphPtr>(c, x); else stress17<graphAccessPtr>(c, x);
}
static void g17x(Rng& r, Case& c) {
    c.n = r.chance(1, 4) ? r.range(200, 2000) : r.range(2000, 16000);
    c.p["deg"] = r.range(2, 10); c.p["w"] = r.pick({ 1, 5, 100 }); c.p["gs"] = r.range(0, 1000000); c.p["psd"] = r.range(0, 1000000);
    c.p["local"] = r.chance(1, 3); c.p["range"] = r.chance(1, 3); c.p["huge"] = r.chance(1, 3);
    c.p["k"] = r.chance(1, 2) ? r.range(2, 130) : r.chance(1, 2) ? r.range(2, 8) : r.range(130, c.n);
    c.p["impl"] = r.range(0, 2); c.p["mut"] = r.chance(1, 4); c.p["t"] = r.pick({ 2, 3, 4, 4, 8 }); c.p["rep"] = r.range(3, 12); c.p["noshrink_n"] = 1;
}
static pbt::Reg r17x({ "C17", "pcontract_stress", g17x, c17x, 600, 20000, true, 60, 2 });
#endif

#ifndef PARALLEL
// single edges of a static graph with terminals, and edge deletion
static void c17e(const Case& c, Ctx& x) {
    GUARD;
    if (c.e.empty()) x.discard();
    configuration::getConfig()->save_cut = c.P("save");
    auto G = make_csr(c.n, c.e);
    EdgeID id = c.P("psd") % G->number_of_edges();
    uint32_t s = G->getEdgeSource(id), t = G->getEdgeTarget(id);
    gen::describe(c, x); x.nt();
    if (c.P("del")) {
        u64 w = G->getEdgeWeight(id);
        auto H = contraction::deleteEdge(G, id);
        std::vector<E> q; bool gone = false;
        for (auto& e : c.e) if (!gone && e.w == w && std::min(e.u, e.v) == std::min(s, t) && std::max(e.u, e.v) == std::max(s, t)) gone = true; else q.push_back(e);
        x.eq(static_cast<u64>(H->number_of_nodes()), static_cast<u64>(c.n), "vertices after deleting an edge");
        x.check(arcs(H) == arcs_of(q), "edges after deleting an edge");
        x.label("deleteEdge");
        return;
    }
    std::vector<NodeID> term;
    for (uint32_t i = 0; i < c.n && term.size() < 4; ++i) if (mix(c.P("psd") + i) % 3 == 0) term.push_back(i);
    for (uint32_t v = 0; v < c.n; ++v) G->setPartitionIndex(v, 0);
    auto [H, out] = contraction::contractEdge(G, term, id);
    x.eq(static_cast<u64>(H->number_of_nodes()), static_cast<u64>(c.n - 1), "vertices after contracting an edge");
    x.eq(out.size(), term.size(), "number of terminals after contracting an edge");
    std::vector<uint32_t> b(c.n); uint32_t k = 0; uint32_t lo = std::min(s, t), hi = std::max(s, t);
    for (uint32_t v = 0; v < c.n; ++v) b[v] = v == hi ? b[lo] : k++;
    // the numbering of the contracted graph is free: match it by degrees and terminals only up to isomorphism
    // fixed by the order of the input vertices, which every contraction in this file uses
    std::vector<E> q;
    for (auto& e : c.e) if (b[e.u] != b[e.v]) q.push_back({ b[e.u], b[e.v], e.w });
    q = oracle::simplify(q);
    x.check(arcs(H) == arcs_of(q), "edges after contracting an edge");
    for (size_t i = 0; i < term.size(); ++i) x.eq(static_cast<u64>(out[i]), static_cast<u64>(b[term[i]]), "terminal after contracting an edge");
    x.label("contractEdge");
}
static void g17e(Rng& r, Case& c) { gen::GOpt o; o.nmin = 2; o.nmax = 15; o.wmax_class = 7; gen::graph(r, c, o); cfg17(r, c); c.p["mut"] = 0; c.p["del"] = r.range(0, 1); }
static pbt::Reg r17e({ "C17", "contract_edge", g17e, c17e, 10000, 200000 });
#endif

// ---------------------------------------------------------------- C18
static const char* RULE[] = { "prTests12", "prTests34", "heavy edges", "heavy triangles", "all-cuts 12", "all-cuts 34" };
static uint32_t quotient(union_find* uf, const Case& c, std::vector<uint32_t>* b, std::vector<E>* q) {
    std::map<uint32_t, uint32_t> re;
    b->resize(c.n);
    for (uint32_t v = 0; v < c.n; ++v) (*b)[v] = re.insert({ uf->Find(v), static_cast<uint32_t>(re.size()) }).first->second;
    q->clear();
    for (auto& e : c.e) if ((*b)[e.u] != (*b)[e.v]) q->push_back({ (*b)[e.u], (*b)[e.v], e.w });
    *q = oracle::simplify(*q);
    return re.size();
}
// no cut of weight <= limit separates joined vertices
static void pairwise(const Case& c, const std::vector<uint32_t>& b, u64 limit, Ctx& x, const std::string& what) {
    std::map<uint32_t, uint32_t> last;
    for (uint32_t v = 0; v < c.n; ++v) {
        auto i = last.find(b[v]);
        if (i != last.end()) {
            u64 f = oracle::max_flow(c.n, c.e, i->second, { v });
            if (f <= limit) x.fail(what + " joined " + std::to_string(i->second) + " and " + std::to_string(v) + " although a cut of weight " + std::to_string(f) + " <= " + std::to_string(limit) + " separates them");
        }
        last[b[v]] = v;
    }
}
template <class P> static void run18(const Case& c, Ctx& x) {
    u64 lam = oracle::stoer_wagner(c.n, c.e), md = mindeg(c);
    int rule = c.P("rule") % 6;
    bool all = c.P("all");
    // bounds used by the algorithms lie between the minimum cut and the minimum degree
    u64 bound = c.P("bk") == 0 ? lam : c.P("bk") == 1 ? md : lam + c.P("bd") % (md - lam + 1);
    auto G = make<P>(c.n, c.e);
    union_find uf(c.n);
    if (rule == 0) uf = tests::prTests12(G, all ? lam + 1 : bound, all);
    else if (rule == 1) uf = tests::prTests34(G, all ? lam + 1 : bound, all);
    else if (rule == 2 || rule == 3) {
        if constexpr (!Tr<P>::mut) { all = false; if (c.P("bk") == 2) bound = c.P("bd") % (2 * md + 2); if (rule == 2) tests::findHeavyEdges(G, &uf, bound); else tests::findHeavyTriangles(G, &uf, bound); }
        else x.discard();
    } else if (rule == 4 || rule == 5) {
        if constexpr (Tr<P>::mut) { all = true; uf = rule == 4 ? all_cut_local_red::allCutsPrTests12(G, lam) : all_cut_local_red::allCutsPrTests34(G, lam); }
        else x.discard();
    }
    x.check(arcs(G) == arcs_of(c.e), "a contraction test changed the graph");
    std::vector<uint32_t> b; std::vector<E> q;
    uint32_t k = quotient(&uf, c, &b, &q);
    x.eq(static_cast<u64>(uf.n()), static_cast<u64>(k), "number of sets reported after a test");
    std::string name = std::string(RULE[rule]) + (all ? " (all cuts)" : "");
    x.label(name + (Tr<P>::mut ? " mutable" : " static"));
    x.label(k == c.n ? "nothing contracted" : k == 1 ? "everything contracted" : "partly contracted");
    if (k < c.n && lam < md) x.nt();
    if (all) {
        if (!lam) x.discard();
        std::set<Mask> want;
        if (c.n <= 60) {
            oracle::all_min_cuts(c.n, c.e, &want);
            for (auto& m : want) for (uint32_t v = 0; v < c.n; ++v) for (uint32_t w = v + 1; w < c.n; ++w)
                if (b[v] == b[w] && m.has(v) != m.has(w)) x.fail(name + " joined " + std::to_string(v) + " and " + std::to_string(w) + " across the minimum cut " + show(m));
        } else pairwise(c, b, lam, x, name);
        if (want.size() > 1 && k < c.n) { x.label("several minimum cuts"); x.nt(); }
    } else if (rule >= 2) {
        pairwise(c, b, bound, x, name);
    } else {
        u64 after = k > 1 ? oracle::stoer_wagner(k, q) : ~u64(0);
        x.eq(std::min(bound, after), std::min(bound, lam), name + ": minimum of bound and minimum cut after contracting, bound " + std::to_string(bound));
        x.label(bound == lam ? "bound = minimum cut" : bound == md ? "bound = minimum degree" : "bound between");
    }
}
static void c18(const Case& c, Ctx& x) {
    GUARD;
    if (oracle::simplify(c.e).size() != c.e.size()) x.discard();
    threads(c, x);
    gen::describe(c, x);
    if (c.P("mut")) run18<mutableGraphPtr>(c, x); else run18<graphAccessPtr>(c, x);
}
// weights around the borders of the tests: cliques of light edges, edges weighing about half a degree
static void tune(Rng& r, Case& c) {
    if (r.chance(1, 2)) return;
    std::vector<u64> deg(c.n, 0);
    for (auto& e : c.e) { deg[e.u] += e.w; deg[e.v] += e.w; }
    for (int q = r.range(1, 1 + static_cast<int>(c.n) / 3); q > 0 && !c.e.empty(); --q) {
        auto& e = c.e[r.next() % c.e.size()];
        u64 rest = (r.chance(1, 2) ? deg[e.u] : deg[e.v]) - e.w;       // 2w = degree iff w = rest
        u64 w = std::max<ll>(1, static_cast<ll>(rest) + static_cast<ll>(r.range(0, 2)) - 1);
        if (w > 30000) continue;
        deg[e.u] += w - e.w; deg[e.v] += w - e.w; e.w = w;
    }
}
static void cfg18(Rng& r, Case& c) {
    gen_cfg(r, c); tune(r, c);
    c.p["rule"] = r.range(0, 5); c.p["all"] = r.range(0, 1); c.p["bk"] = r.range(0, 2); c.p["bd"] = r.range(0, 1000000);
    if (c.p["rule"] >= 4) c.p["mut"] = 1; else if (c.p["rule"] >= 2) c.p["mut"] = 0;
    c.p["t"] = r.pick({ 1, 2, 2, 3, 4, 4, 6, 8 });
}
static void g18s(Rng& r, Case& c) { gen::GOpt o; o.nmin = 2; o.nmax = r.chance(1, 3) ? 6 : 12; o.wmax_class = 5; gen::graph(r, c, o); gen::scale(r, c, 6); cfg18(r, c); }
static void g18m(Rng& r, Case& c) { gen::GOpt o; o.nmin = 13; o.nmax = 60; o.wmax_class = 5; gen::graph(r, c, o); gen::scale(r, c, 6); cfg18(r, c); }
static void g18l(Rng& r, Case& c) { gen::GOpt o; o.nmin = 150; o.nmax = 380; o.wmax_class = 5; o.mmax = 5000; gen::graph(r, c, o); gen::scale(r, c, 6); cfg18(r, c); }
static pbt::Reg r18a({ "C18", PRE "tests_small", g18s, c18, 120000, 3000000, CONC });
static pbt::Reg r18b({ "C18", PRE "tests_medium", g18m, c18, 8000, 300000, CONC });
static pbt::Reg r18c({ "C18", PRE "tests_large", g18l, c18, 400, 20000, CONC });

// large graphs; with few workers the threads of one parallel test really run at the same time
template <class P> static void big18(const Case& c0, Ctx& x) {
    Case c = c0; c.e = gen::big_edges(c0);
    u64 lam = oracle::sparse_min_cut(c.n, c.e), md = mindeg(c);
    if (!lam) x.discard();
    u64 bound = c.P("bk") == 0 ? lam : c.P("bk") == 1 ? md : lam + c.P("bd") % (md - lam + 1);
    bool all = c.P("all");
    auto G = make<P>(c.n, c.e);
    auto before = arcs_of(c.e);
    for (int rep = 0; rep < std::max<ll>(1, c.P("rep", 1)); ++rep) {
        int rule = (c.P("rule") + rep) % 2;
        auto uf = rule == 0 ? tests::prTests12(G, all ? lam + 1 : bound, all) : tests::prTests34(G, all ? lam + 1 : bound, all);
        std::vector<uint32_t> b; std::vector<E> q;
        uint32_t k = quotient(&uf, c, &b, &q);
        std::string name = std::string(RULE[rule]) + (all ? " (all cuts)" : "");
        x.eq(static_cast<u64>(uf.n()), static_cast<u64>(k), "number of sets reported after " + name + " on a large graph");
        u64 after = k > 1 ? oracle::sparse_min_cut(k, q) : ~u64(0);
        if (all) x.eq(after, lam, name + ": minimum cut after contracting");
        else x.eq(std::min(bound, after), std::min(bound, lam), name + ": minimum of bound and minimum cut after contracting, bound " + std::to_string(bound));
        if (k < c.n && lam < md) x.nt();
        x.label(name + (k == c.n ? ": nothing contracted" : k == 1 ? ": everything contracted" : ": partly contracted"));
    }
    x.check(arcs(G) == before, "a contraction test changed the graph");
    x.label(std::string("family:") + gen::big_name(c0));
}
static void c18b(const Case& c, Ctx& x) {
    GUARD;
    if (c.n < 8 || c.n > 20000 || c.P("gd") < 3 || c.P("gd") > 12) x.discard();
    threads(c, x);
    if (c.P("mut")) big18<mutableGraphPtr>(c, x); else big18<graphAccessPtr>(c, x);
}
static void cfgbig(Rng& r, Case& c) {
    gen::big(r, c, r.chance(1, 3) ? 300 : 2000, r.chance(1, 4) ? 13000 : 6000); gen_cfg(r, c);
    c.p["t"] = r.pick({ 2, 3, 4, 4, 8 });
}
static void g18b(Rng& r, Case& c) {
    cfgbig(r, c); c.p["rule"] = r.range(0, 1); c.p["all"] = r.chance(1, 3); c.p["bk"] = r.range(0, 2); c.p["bd"] = r.range(0, 1000000);
    c.p["rep"] = CONC ? r.range(2, 6) : 2;
}
static pbt::Reg r18g({ "C18", PRE "tests_huge", g18b, c18b, 160, 12000, CONC, 60, CONC ? 2 : 0 });

#ifndef PARALLEL
// heavy edges and cycle edges of the cactus algorithms
static void c18h(const Case& c, Ctx& x) {
    GUARD;
    if (oracle::simplify(c.e).size() != c.e.size() || c.n > Mask::MAX || c.n < 3) x.discard();
    std::set<Mask> want;
    u64 lam = oracle::all_min_cuts(c.n, c.e, &want);
    if (!lam) x.discard();
    gen::describe(c, x);
    auto G = make_mut(c.n, c.e);
    heavy_edges he(lam);
    auto removed = he.removeHeavyEdges(G);
    std::vector<uint32_t> pos(c.n, ~0u);
    auto joined = [&](const std::string& what) {
        for (auto& m : want) for (uint32_t v = 0; v < c.n; ++v) for (uint32_t w = v + 1; w < c.n; ++w)
            if (pos[v] != ~0u && pos[v] == pos[w] && m.has(v) != m.has(w)) x.fail(what + " joined " + std::to_string(v) + " and " + std::to_string(w) + " across the minimum cut " + show(m));
    };
    auto positions = [&]() { std::fill(pos.begin(), pos.end(), ~0u); for (NodeID v : G->nodes()) for (auto o : G->containedVertices(v)) { x.check(o < c.n && pos[o] == ~0u, "vertex contained twice"); pos[o] = v; } };
    positions();
    joined("removeHeavyEdges");
    std::vector<char> out(c.n, 0);
    size_t nrem = 0;
    for (auto& [t, cont] : removed) {
        Mask m;
        x.check(!cont.empty(), "removed vertex without contained vertices");
        for (auto o : cont) { x.check(o < c.n && !out[o] && pos[o] == ~0u, "removed vertex is still in the graph"); out[o] = 1; m.set(o); }
        if (m.has(0)) m = m.complement(c.n);
        x.check(want.count(m), "removed pendant vertex " + show(m) + " is not a minimum cut");
        ++nrem;
    }
    for (uint32_t v = 0; v < c.n; ++v) x.check(out[v] || pos[v] != ~0u, "vertex lost by removeHeavyEdges");
    // remaining minimum cuts
    std::set<Mask> left;
    auto e = merged_edges(G);
    if (G->n() >= 2) { u64 l2 = oracle::all_min_cuts(G->n(), e, &left); x.check(l2 >= lam, "removeHeavyEdges created a lighter cut"); if (l2 > lam) left.clear(); }
    x.eq(left.size() + nrem, want.size(), "minimum cuts kept by removeHeavyEdges plus removed pendant vertices");
    if (nrem || G->n() < c.n) x.nt();
    if (nrem) x.label("pendant vertices removed");
    auto cyc = he.contractCycleEdges(G);
    positions();
    joined("contractCycleEdges");
    for (auto& [p, cont] : cyc) {
        (void)p;
        Mask m;
        for (auto o : cont) { x.check(o < c.n && !out[o] && pos[o] == ~0u, "contracted cycle vertex is still in the graph"); out[o] = 1; m.set(o); }
        // the vertices left over plus everything hanging below them are one side
    }
    for (uint32_t v = 0; v < c.n; ++v) x.check(out[v] || pos[v] != ~0u, "vertex lost by contractCycleEdges");
    if (!cyc.empty()) { x.label("cycle vertices contracted"); x.nt(); }
}
static void g18h(Rng& r, Case& c) { gen::GOpt o; o.nmin = 3; o.nmax = r.chance(1, 2) ? 8 : 20; o.wmax_class = 2; o.connected = true; o.disc_pct = 0; gen::graph(r, c, o); if (r.chance(1, 3)) for (auto& e : c.e) e.w *= 2; cfg18(r, c); c.p["rule"] = 0; }
static pbt::Reg r18h({ "C18", "heavy_edges", g18h, c18h, 20000, 500000 });
#endif

// ---------------------------------------------------------------- C19
template <class P> static void run19(const Case& c, Ctx& x) {
    auto cfg = configuration::getConfig();
    cfg->save_cut = c.P("save"); cfg->seed = c.P("seed"); random_functions::setSeed(c.P("seed"));
    auto G = make<P>(c.n, c.e);
    label_propagation<P> lp;
    auto lab = lp.propagate_labels(G);
    x.eq(lab.size(), static_cast<size_t>(c.n), "number of labels");
    for (auto l : lab) x.check(l < c.n, "label out of range");
    auto check_map = [&](const std::vector<NodeID>& m, const std::vector<std::vector<NodeID> >& rev, const std::string& what) {
        x.eq(m.size(), static_cast<size_t>(c.n), what + ": size of the mapping");
        std::vector<int> seen(c.n, 0);
        for (size_t b = 0; b < rev.size(); ++b) {
            x.check(!rev[b].empty(), what + ": empty cluster");
            for (auto v : rev[b]) { x.check(v < c.n && !seen[v]++, what + ": vertex in two clusters"); x.eq(static_cast<u64>(m[v]), static_cast<u64>(b), what + ": mapping and clusters disagree"); }
        }
        for (uint32_t v = 0; v < c.n; ++v) x.check(seen[v], what + ": vertex in no cluster");
    };
    auto [mapping, rev] = minimum_cut_helpers<P>::remap_cluster(G, lab);
    check_map(mapping, rev, "remapped clusters");
    std::vector<NodeID> first(c.n, UNDEFINED_NODE);
    for (uint32_t v = 0; v < c.n; ++v) {   // same label <=> same cluster
        NodeID l = lab[v];
        if (first[l] == UNDEFINED_NODE) first[l] = mapping[v];
        x.check(first[l] == mapping[v], "remapping splits a label");
    }
    if (cfg->save_cut) for (uint32_t v = 0; v < c.n; ++v) x.eq(static_cast<u64>(G->getPartitionIndex(v)), static_cast<u64>(mapping[v]), "remapped partition index");
#ifdef PARALLEL
    if constexpr (!Tr<P>::mut) {
        auto [part, rev2] = lp.remap_cluster(G, lab, true);
        std::vector<NodeID> m2(c.n);
        for (uint32_t v = 0; v < c.n; ++v) m2[v] = part[lab[v]];
        check_map(m2, rev2, "remap_cluster");
        for (uint32_t v = 0; v < c.n; ++v) x.eq(static_cast<u64>(G->getPartitionIndex(v)), static_cast<u64>(m2[v]), "partition index of remap_cluster");
    }
#endif
    u64 md = mindeg(c);
    size_t before = rev.size();
    contraction::findTrivialCuts(G, &mapping, &rev, md);
    check_map(mapping, rev, "clusters after findTrivialCuts");
    x.check(rev.size() >= before, "findTrivialCuts merged clusters");
    if (rev.size() > before) x.label("trivial cut split off");
    x.check(arcs(G) == arcs_of(c.e), "clustering changed the graph");
    for (uint32_t v = 0; v < c.n; ++v) G->setPartitionIndex(v, mapping[v]);
    auto H = contraction::contractGraph(G, mapping, rev);
    std::vector<uint32_t> b(c.n), pos(c.n);
    for (uint32_t v = 0; v < c.n; ++v) { b[v] = mapping[v]; pos[v] = G->getPartitionIndex(v); }
    check_quotient(H, c.e, b, rev.size(), pos, x, "clustered graph");
    u64 lam = opt(c);
    std::vector<P> gs { G, H };
    u64 upd = minimum_cut_helpers<P>::updateCut(gs, md);
    x.check(upd >= lam && upd <= md, "bound " + std::to_string(upd) + " after clustering, minimum cut " + std::to_string(lam) + ", minimum degree " + std::to_string(md));
    if (rev.size() > 1 && rev.size() < c.n) x.nt();
    x.label(rev.size() == 1 ? "one cluster" : rev.size() == c.n ? "no cluster" : "clusters");
    x.label(Tr<P>::mut ? "mutable" : "static");
}
static void c19(const Case& c, Ctx& x) {
    GUARD;
    threads(c, x);
    gen::describe(c, x);
    if (c.P("mut")) run19<mutableGraphPtr>(c, x); else run19<graphAccessPtr>(c, x);
}
static void c19b(const Case& c, Ctx& x) {
    GUARD;
    if (c.n < 8 || c.n > 20000 || c.P("gd") < 3 || c.P("gd") > 12) x.discard();
    threads(c, x);
    Case b = c; b.e = gen::big_edges(c);
    x.label(std::string("family:") + gen::big_name(c));
    if (c.P("mut")) run19<mutableGraphPtr>(b, x); else run19<graphAccessPtr>(b, x);
}
static void cfg19(Rng& r, Case& c) {
    gen_cfg(r, c);
    c.p["t"] = r.pick({ 1, 2, 2, 3, 4, 4, 6, 8 }); c.p["what"] = r.range(0, 2); c.p["cf"] = r.range(0, 90); c.p["samp"] = r.range(0, 3);
}
static void g19s(Rng& r, Case& c) { gen::GOpt o; o.nmin = 2; o.nmax = 25; o.wmax_class = 6; gen::graph(r, c, o); gen::scale(r, c, 6); cfg19(r, c); }
static void g19m(Rng& r, Case& c) { gen::GOpt o; o.nmin = 26; o.nmax = 350; o.wmax_class = 6; o.mmax = 5000; gen::graph(r, c, o); gen::scale(r, c, 6); cfg19(r, c); }
static pbt::Reg r19a({ "C19", PRE "cluster_small", g19s, c19, 30000, 600000, CONC });
static pbt::Reg r19g({ "C19", PRE "cluster_huge", [](Rng& r, Case& c) { cfgbig(r, c); }, c19b, 160, 12000, CONC, 60, CONC ? 2 : 0 });
static pbt::Reg r19b({ "C19", PRE "cluster_medium", g19m, c19, 1500, 50000, CONC });

static const char* SAMP[] = { "geometric", "random", "separate", "weighted" };
static void c19s(const Case& c, Ctx& x) {
    GUARD;
    threads(c, x);
    auto cfg = configuration::getConfig();
    std::vector<u64> deg(c.n, 0); u64 tot = 0;
    for (auto& e : c.e) { deg[e.u] += e.w; deg[e.v] += e.w; tot += e.w; }
    gen::describe(c, x);
    auto G = make_csr(c.n, c.e);
    cfg->seed = c.P("seed"); random_functions::setSeed(c.P("seed"));
    u64 lam = opt(c);
    auto total = [&](graphAccessPtr H) { u64 s = 0; for (auto& [a, b, w] : arcs(H)) { (void)a; (void)b; s += w; } return s; };
    auto symmetric = [&](graphAccessPtr H, const std::string& what) {
        auto a = arcs(H); std::vector<std::tuple<uint32_t, uint32_t, u64> > t;
        for (auto& [p, q, w] : a) { x.check(p != q && p < H->number_of_nodes() && q < H->number_of_nodes(), what + ": bad edge"); t.emplace_back(q, p, w); }
        std::sort(t.begin(), t.end());
        x.check(a == t, what + ": graph is not symmetric");
    };
    int what = c.P("what") % 3;
    sparsify sf;
    if (what == 0) {
        // a cut of the sampled graph is a cut of the graph: one_ks is a contraction
        if (!oracle::connected(c.n, c.e)) x.discard();
        cfg->contraction_factor = c.P("cf") / 100.0;
        cfg->sampling_type = SAMP[c.P("samp") % 4];
        auto H = sf.one_ks(G);
        uint32_t k = H->number_of_nodes();
        x.label(std::string("one_ks ") + cfg->sampling_type);
        x.check(k >= 1 && k <= c.n, "sampling changes the number of vertices from " + std::to_string(c.n) + " to " + std::to_string(k));
        symmetric(H, "one_ks");
        x.check(total(H) <= 2 * tot, "sampling increases the total weight");
        if (k > 1) x.check(oracle::stoer_wagner(k, merged_edges(H)) >= lam, "sampled graph has a cut lighter than the minimum cut");
        if (k > 1 && k < c.n) x.nt();
#ifndef PARALLEL
        uint32_t want = c.n - std::min<ll>(static_cast<ll>(static_cast<double>(c.n) * cfg->contraction_factor), static_cast<ll>(c.n) - 2);
        x.eq(k, want, "vertices after sampling with the given contraction factor");
#endif
    } else if (what == 1) {
        auto H = sf.random_matching(G);
        uint32_t k = H->number_of_nodes();
        x.label("random_matching");
        x.check(2 * k >= c.n && k <= c.n, "matching contracts " + std::to_string(c.n) + " vertices to " + std::to_string(k));
        symmetric(H, "random_matching");
        // total weight lost = weight inside matched pairs: one edge per merged pair at most
        u64 lost = 2 * tot - total(H);
        std::vector<u64> ws; for (auto& e : oracle::simplify(c.e)) ws.push_back(2 * e.w);
        std::sort(ws.rbegin(), ws.rend());
        u64 most = 0; for (uint32_t i = 0; i < c.n - k && i < ws.size(); ++i) most += ws[i];
        x.check(total(H) <= 2 * tot && lost <= most && (k < c.n) == (lost > 0), "weight after matching");
        if (k > 1) x.check(oracle::stoer_wagner(k, merged_edges(H)) >= lam, "matched graph has a cut lighter than the minimum cut");
        if (k < c.n) x.nt();
    } else {
        std::vector<NodeID> idx;
        double perc = c.P("cf") / 100.0;
        auto H = sf.remove_heavy_vertices(G, perc, &idx);
        x.label("remove_heavy_vertices");
        x.eq(idx.size(), static_cast<size_t>(c.n), "size of the vertex mapping");
        auto d = deg; std::sort(d.begin(), d.end());
        u64 lim = d[static_cast<size_t>(static_cast<double>(c.n) * perc)];
        std::vector<uint32_t> at(c.n, ~0u); uint32_t k = 0;
        for (uint32_t v = 0; v < c.n; ++v) {
            if (deg[v] < lim) { x.eq(static_cast<uint32_t>(idx[v]), k, "new id of a kept vertex"); at[v] = k++; }
            else x.check(idx[v] >= c.n, "a removed vertex has a new id");
        }
        x.eq(static_cast<uint32_t>(H->number_of_nodes()), k, "vertices kept");
        std::vector<E> q;
        for (auto& e : c.e) if (at[e.u] != ~0u && at[e.v] != ~0u) q.push_back({ at[e.u], at[e.v], e.w });
        x.check(arcs(H) == arcs_of(q), "graph without heavy vertices is not the induced subgraph");
        if (k > 1 && k < c.n && !q.empty()) x.nt();
    }
    x.check(arcs(G) == arcs_of(c.e), "sparsification changed its input");
}
static void g19sp(Rng& r, Case& c) { gen::GOpt o; o.nmin = 2; o.nmax = 40; o.wmax_class = 6; gen::graph(r, c, o); gen::scale(r, c, 6); cfg19(r, c); }
static pbt::Reg r19s({ "C19", PRE "sparsify", g19sp, c19s, 20000, 400000, CONC });
PBT_MAIN
