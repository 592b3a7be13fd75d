// misc.cpp - C26 core decomposition, C27 connected components, C28 structure
// detectors, C29 helpers
#include "repo.h"
#include "algorithms/misc/core_decomposition.h"
#include "algorithms/misc/equal_neighborhood.h"
#include "algorithms/misc/find_articulation_points.h"
#include "algorithms/misc/graph_algorithms.h"
#include "algorithms/misc/maximal_clique.h"
#include "algorithms/misc/strongly_connected_components.h"
#include "tools/graph_extractor.h"
#include "tools/quality_metrics.h"
#include "tools/random_functions.h"
#include "tools/string.h"
#include "tools/vector.h"
using namespace rp;

static void valid(const Case& c, Ctx& x, bool simple = true) {
    if (!c.n) x.discard();
    for (auto& e : c.e) if (e.u >= c.n || e.v >= c.n || e.u == e.v || !e.w) x.discard();
    if (simple && oracle::simplify(c.e).size() != c.e.size()) x.discard();
}
// induced subgraph on the vertices of V (in the order given)
static std::vector<E> induced(const std::vector<E>& e, const std::vector<uint32_t>& V, uint32_t n) {
    std::vector<uint32_t> id(n, ~0u);
    for (uint32_t i = 0; i < V.size(); ++i) id[V[i]] = i;
    std::vector<E> r;
    for (auto& x : e) if (id[x.u] != ~0u && id[x.v] != ~0u) r.push_back({ id[x.u], id[x.v], x.w });
    return r;
}
// G is the induced subgraph (vertices in order) on a component of maximum size
// of the subgraph induced by V
static bool is_largest_cc(graphAccessPtr G, const std::vector<E>& e, const std::vector<uint32_t>& V, uint32_t n) {
    auto ie = induced(e, V, n);
    uint32_t k = 0;
    auto comp = oracle::components(V.size(), ie, &k);
    std::vector<std::vector<uint32_t> > cc(k);
    for (uint32_t i = 0; i < V.size(); ++i) cc[comp[i]].push_back(V[i]);
    size_t mx = 0;
    for (auto& q : cc) mx = std::max(mx, q.size());
    if (G->number_of_nodes() != mx) return false;
    auto a = arcs(G);
    for (auto& q : cc) if (q.size() == mx && a == arcs_of(induced(e, q, n))) return true;
    return false;
}

// ------------------------------------------------------------------ C26
static void gen_core(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 1; o.nmax = r.chance(1, 12) ? 200 : r.chance(1, 4) ? 40 : 10; o.disc_pct = 30; o.wmax_class = 7; o.mmax = 3000;
    o.multi = r.chance(1, 8);
    gen::graph(r, c, o);
    if (r.chance(1, 2)) for (auto& e : c.e) e.w = 1;
    if (r.chance(1, 4)) { uint32_t k = r.range(1, 3); c.n += k; }
}
static void run_core(const Case& c, Ctx& x) {
    valid(c, x, false);
    gen::describe(c, x);
    // reference: repeated peeling
    std::vector<uint32_t> deg(c.n, 0), core(c.n, 0);
    std::vector<std::vector<uint32_t> > adj(c.n);
    for (auto& e : c.e) { ++deg[e.u]; ++deg[e.v]; adj[e.u].push_back(e.v); adj[e.v].push_back(e.u); }
    uint32_t maxdeg = *std::max_element(deg.begin(), deg.end());
    std::vector<char> gone(c.n, 0);
    uint32_t k = 0, left = c.n;
    while (left) {
        bool any = true;
        while (any) {
            any = false;
            for (uint32_t v = 0; v < c.n; ++v) if (!gone[v] && deg[v] <= k) { gone[v] = 1; core[v] = k; --left; any = true; for (auto t : adj[v]) if (!gone[t]) --deg[t]; }
        }
        ++k;
    }
    uint32_t maxcore = *std::max_element(core.begin(), core.end());
    auto G = make_csr(c.n, c.e);
    auto kc = core_decomposition::batagelj_zaversnik(G);
    x.check(kc.degrees.size() == c.n && kc.vertices.size() == c.n && kc.position.size() == c.n, "sizes");
    for (uint32_t v = 0; v < c.n; ++v) x.eq(static_cast<u64>(kc.degrees[v]), static_cast<u64>(core[v]), "core number of vertex " + std::to_string(v));
    for (uint32_t v = 0; v < c.n; ++v) x.check(kc.position[v] < c.n && kc.vertices[kc.position[v]] == v, "positions and vertices are not inverse");
    for (uint32_t i = 1; i < c.n; ++i) x.check(core[kc.vertices[i - 1]] <= core[kc.vertices[i]], "vertices are not sorted by core number");
    x.eq(kc.buckets.size(), static_cast<size_t>(maxdeg + 1), "number of buckets");
    for (uint32_t q = 0; q <= maxdeg; ++q) {
        u64 less = 0;
        for (auto y : core) less += y < q;
        x.eq(static_cast<u64>(kc.buckets[q]), less, "bucket of core " + std::to_string(q));
    }
    for (uint32_t q = 0; q <= maxcore; ++q) {
        auto H = core_decomposition::createCoreGraph(kc, q, G);
        std::vector<uint32_t> V;
        for (uint32_t v = 0; v < c.n; ++v) if (core[v] >= q) V.push_back(v);
        x.check(is_largest_cc(H, c.e, V, c.n), "graph of core " + std::to_string(q) + " is not the largest component of the induced subgraph");
    }
    if (arcs(G) != arcs_of(c.e)) x.fail("core decomposition changed the graph");
    std::set<uint32_t> vals(core.begin(), core.end());
    x.label(std::to_string(std::min<size_t>(vals.size(), 5)) + " core numbers");
    if (vals.size() >= 2 && maxcore >= 2) x.nt();
}
static pbt::Reg a1({ "C26", "cores", gen_core, run_core, 8000, 120000 });

// ------------------------------------------------------------------ C27
static void gen_cc(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 1; o.nmax = r.chance(1, 12) ? 300 : r.chance(1, 4) ? 40 : 12; o.disc_pct = 85; o.wmax_class = 3; o.mmax = 2000;
    o.multi = r.chance(1, 8);
    gen::graph(r, c, o);
    // thin out to get many components
    if (r.chance(2, 3)) { int keep = r.range(20, 95); std::vector<E> e; for (auto& q : c.e) if (r.chance(keep, 100)) e.push_back(q); c.e = e; }
    if (r.chance(1, 4)) c.n += r.range(1, 3);
    if (r.chance(1, 6)) { uint32_t k = r.range(1, 80); c.n += k; for (auto& e : c.e) { e.u += k; e.v += k; } }   // isolated vertices first
    c.p["seed"] = r.range(0, 1 << 30);
    c.p["full"] = r.range(0, 60);     // percentage of saturated arcs
}
template <class A, class B> static void same_partition(const A& a, const B& b, size_t n, Ctx& x, const std::string& what) {
    std::map<long, long> f, g;
    for (size_t i = 0; i < n; ++i) {
        auto p = f.emplace(a[i], b[i]); x.check(p.first->second == static_cast<long>(b[i]), what + ": partition differs");
        auto q = g.emplace(b[i], a[i]); x.check(q.first->second == static_cast<long>(a[i]), what + ": partition differs");
    }
}
static void run_cc(const Case& c, Ctx& x) {
    valid(c, x, false);
    gen::describe(c, x);
    uint32_t k = 0;
    auto want = oracle::components(c.n, c.e, &k);
    auto G = make_csr(c.n, c.e);
    strongly_connected_components scc;
    for (int rep = 0; rep < 3; ++rep) {
        std::vector<int> got(c.n, -7);
        size_t cnt = rep == 2 ? strongly_connected_components().strong_components(G, &got) : scc.strong_components(G, &got);
        x.eq(cnt, static_cast<size_t>(k), "number of components");
        for (auto v : got) x.check(v >= 0 && v < static_cast<int>(k), "component id out of range");
        same_partition(got, want, c.n, x, "components");
    }
    std::vector<uint32_t> all(c.n);
    for (uint32_t i = 0; i < c.n; ++i) all[i] = i;
    auto L = scc.largest_scc(G);
    x.check(is_largest_cc(L, c.e, all, c.n), "largest component");
    x.check(is_largest_cc(scc.largest_scc(G), c.e, all, c.n), "largest component (second call)");
    if (arcs(G) != arcs_of(c.e)) x.fail("input graph changed");

    // mutable graph: strongly connected components of the residual graph
    auto M = make_mut(c.n, c.e);
    for (int round = 0; round < 3; ++round) {
        Rng q(c.P("seed") + round);
        bool fp = round == 1;                        // with a problem id
        size_t pid = fp ? 77 : UNDEFINED_NODE;
        std::vector<std::vector<uint32_t> > out(c.n), in(c.n);
        for (NodeID v : M->nodes()) for (EdgeID e : M->edges_of(v)) {
            NodeID t = M->getEdgeTarget(v, e);
            if (v > t) continue;
            EdgeID r = M->getReverseEdge(v, e);
            ll w = M->getEdgeWeight(v, e), f = 0;
            if (q.range(0, 99) < c.P("full")) f = q.chance(1, 2) ? w : -w; else f = q.range(-w + 1, w - 1);
            bool other = fp && q.chance(1, 4);       // flow of another problem: counts as 0
            M->setEdgeFlow(v, e, f, other ? 5 : pid); M->setEdgeFlow(t, r, -f, other ? 5 : pid);
            if (other) f = 0;
            if (f < w) { out[v].push_back(t); in[t].push_back(v); }
            if (-f < w) { out[t].push_back(v); in[v].push_back(t); }
        }
        // reference: forward and backward reachability
        std::vector<int> ref(c.n, -1); int rc = 0;
        std::vector<size_t> sizes;
        for (uint32_t s = 0; s < c.n; ++s) {
            if (ref[s] != -1) continue;
            auto reach = [&](const std::vector<std::vector<uint32_t> >& a) { std::vector<char> m(c.n, 0); std::vector<uint32_t> st { s }; m[s] = 1; while (!st.empty()) { auto v = st.back(); st.pop_back(); for (auto t : a[v]) if (!m[t]) { m[t] = 1; st.push_back(t); } } return m; };
            auto f = reach(out), b = reach(in);
            size_t z = 0;
            for (uint32_t v = 0; v < c.n; ++v) if (f[v] && b[v]) { ref[v] = rc; ++z; }
            sizes.push_back(z); ++rc;
        }
        auto [got, cnt, bs] = round == 2 ? strongly_connected_components().strong_components(M, pid) : scc.strong_components(M, pid);
        x.eq(cnt, static_cast<size_t>(rc), "residual graph: number of components");
        x.check(got.size() >= c.n, "residual graph: size");
        for (uint32_t v = 0; v < c.n; ++v) x.check(got[v] >= 0 && got[v] < rc, "residual graph: component id out of range");
        same_partition(got, ref, c.n, x, "residual graph");
        x.eq(bs.size(), static_cast<size_t>(rc), "residual graph: number of block sizes");
        for (uint32_t v = 0; v < c.n; ++v) x.eq(bs[got[v]], sizes[ref[v]], "residual graph: block size");
        if (rc > static_cast<int>(k)) x.label("directed components");
    }
    x.label(k == 1 ? "connected" : k <= 3 ? "2-3 components" : "more components");
    if (k >= 2 && k < c.n) x.nt();
}
static pbt::Reg b1({ "C27", "components", gen_cc, run_cc, 8000, 120000 });

// ------------------------------------------------------------------ C28
static std::vector<uint32_t> comp_without(uint32_t n, const std::vector<E>& e, uint32_t v) {
    std::vector<E> f;
    for (auto& q : e) if (q.u != v && q.v != v) f.push_back(q);
    return oracle::components(n, f, nullptr);
}
static void gen_art(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 3; o.nmax = r.chance(1, 6) ? 40 : 12; o.disc_pct = 15; o.wmax_class = 2; o.mmax = 400;
    gen::graph(r, c, o);
    if (r.chance(2, 3)) {       // glue blocks together at single vertices
        ll k = r.range(1, 4);
        for (ll i = 0; i < k; ++i) {
            uint32_t a = r.range(0, c.n - 1), s = r.range(1, 4), b = c.n;
            c.n += s;
            c.e.push_back({ a, b, 1 });
            for (uint32_t j = 1; j < s; ++j) c.e.push_back({ b + j - 1, b + j, 1 });
            if (s > 1) c.e.push_back({ a, b + s - 1, 1 });
            if (s > 2 && r.chance(1, 2)) c.e.push_back({ b, b + s - 1, 1 });
        }
        std::vector<uint32_t> perm(c.n); for (uint32_t i = 0; i < c.n; ++i) perm[i] = i;
        r.shuffle(perm);
        for (auto& e : c.e) { e.u = perm[e.u]; e.v = perm[e.v]; }
    }
    std::vector<uint32_t> v(c.n); for (uint32_t i = 0; i < c.n; ++i) v[i] = i;
    r.shuffle(v);
    ll t = std::min<ll>(c.n, r.range(1, 5));
    for (ll i = 0; i < t; ++i) c.lab.push_back(v[i]);
}
static std::vector<terminal> terms_of(const Case& c, Ctx& x) {
    std::vector<terminal> t;
    std::set<ll> seen;
    for (ll v : c.lab) { if (v < 0 || v >= c.n || !seen.insert(v).second) x.discard(); t.emplace_back(v, t.size()); }
    if (t.empty()) x.discard();
    return t;
}
static void run_art(const Case& c, Ctx& x) {
    valid(c, x);
    gen::describe(c, x);
    auto T = terms_of(c, x);
    std::set<uint32_t> ts; for (auto& t : T) ts.insert(t.position);
    auto M = make_mut(c.n, c.e);
    find_articulation_points fap(M);
    bool any = fap.findAllArticulationPoints();
    uint32_t k = 0;
    auto comp = oracle::components(c.n, c.e, &k);
    std::vector<uint32_t> first(k, ~0u);
    for (uint32_t v = 0; v < c.n; ++v) if (first[comp[v]] == ~0u) first[comp[v]] = v;
    bool real = false;
    for (uint32_t v = 0; v < c.n; ++v) {
        auto cw = comp_without(c.n, c.e, v);
        std::set<uint32_t> s;
        for (uint32_t u = 0; u < c.n; ++u) if (u != v && comp[u] == comp[v]) s.insert(cw[u]);
        if (s.size() > 1) { real = true; x.label("articulation point"); break; }
    }
    x.check(!any || real, "articulation point found in a graph without one");
    auto uf = fap.terminalsOnBothSides(T);
    bool merged = false;
    if (uf.has_value()) {
        std::map<uint32_t, std::vector<uint32_t> > grp;
        for (uint32_t v = 0; v < c.n; ++v) grp[uf->Find(v)].push_back(v);
        for (auto& [rep, g] : grp) {
            (void)rep;
            if (g.size() < 2) continue;
            merged = true;
            bool ok = false;
            for (auto v : g) {
                auto cw = comp_without(c.n, c.e, v);
                std::set<uint32_t> tc;
                for (auto t : ts) if (t != v) tc.insert(cw[t]);
                bool good = true;
                for (auto u : g) if (u != v && tc.count(cw[u])) good = false;
                if (good) { ok = true; break; }
            }
            if (!ok) { std::ostringstream o; for (auto v : g) o << " " << v; x.fail("group is not cut off from the terminals by one of its vertices:" + o.str()); }
        }
    }
    // completeness: a vertex (not the first of its component) that splits its
    // component in exactly two parts, one without terminals
    for (uint32_t v = 0; v < c.n; ++v) {
        if (first[comp[v]] == v) continue;
        auto cw = comp_without(c.n, c.e, v);
        std::map<uint32_t, std::vector<uint32_t> > parts;
        for (uint32_t u = 0; u < c.n; ++u) if (u != v && comp[u] == comp[v]) parts[cw[u]].push_back(u);
        if (parts.size() != 2) continue;
        x.check(any, "articulation point not found");
        bool allhere = true;
        for (auto t : ts) if (comp[t] != comp[v]) allhere = false;
        if (!allhere) continue;
        for (auto& [id, p] : parts) {
            (void)id;
            bool has = false, root = false;
            for (auto u : p) { has |= ts.count(u) > 0; root |= u == first[comp[v]]; }
            if (has) continue;
            if (ts.count(v) && !root) {
                // the terminal itself counts for the side away from the root
                if (ts.size() > 1) continue;
            }
            bool other_has = false;
            for (auto& [id2, p2] : parts) if (id2 != id) for (auto u : p2) other_has |= ts.count(u) > 0;
            if (!other_has && !ts.count(v)) continue;
            if (!other_has) continue;
            x.check(uf.has_value(), "side without terminals is not reported");
            for (auto u : p) x.check(uf->Find(u) == uf->Find(v), "side without terminals is not merged");
        }
    }
    x.label(merged ? "merged" : "nothing merged");
    if (merged && c.lab.size() >= 2) x.nt();
}
static pbt::Reg c1({ "C28", "articulation", gen_art, run_art, 15000, 200000 });

static void gen_eq(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 2; o.nmax = r.chance(1, 6) ? 100 : 10; o.disc_pct = 15; o.wmax_class = r.chance(1, 2) ? 0 : 2; o.mmax = 1000;
    gen::graph(r, c, o);
    // add twins (true, false, almost)
    for (ll i = r.range(0, 4); i > 0 && c.n; --i) {
        uint32_t v = r.range(0, c.n - 1), t = c.n++;
        auto e = c.e; int kind = r.range(0, 3);
        for (auto& q : e) if (q.u == v || q.v == v) { uint32_t o2 = q.u == v ? q.v : q.u; u64 w = q.w; if (kind == 2 && r.chance(1, 6)) w += 1; if (kind == 3 && r.chance(1, 6)) continue; c.e.push_back({ t, o2, w }); }
        if (kind == 1 || (kind >= 2 && r.chance(1, 2))) c.e.push_back({ v, t, static_cast<u64>(r.range(1, 3)) });
    }
    std::vector<uint32_t> perm(c.n); for (uint32_t i = 0; i < c.n; ++i) perm[i] = i;
    r.shuffle(perm);
    for (auto& e : c.e) { e.u = perm[e.u]; e.v = perm[e.v]; }
    r.shuffle(c.e);
    ll t = std::min<ll>(c.n, r.range(1, 3));
    r.shuffle(perm);
    for (ll i = 0; i < t; ++i) c.lab.push_back(perm[i]);
    c.p["inactive"] = r.chance(1, 3) ? r.range(1, 90) : 0;
    c.p["maxdeg"] = r.chance(1, 4) ? r.range(1, 6) : 50;
    c.p["seed"] = r.range(0, 1 << 30);
}
static void run_eq(const Case& c, Ctx& x) {
    valid(c, x);
    gen::describe(c, x);
    auto T = terms_of(c, x);
    std::set<uint32_t> ts; for (auto& t : T) ts.insert(t.position);
    configuration::getConfig()->neighborhood_degrees = c.P("maxdeg");
    auto M = make_mut(c.n, c.e);
    auto P = std::make_shared<multicut_problem>(M, T);
    Rng q(c.P("seed"));
    std::vector<bool> active(c.n);
    for (uint32_t v = 0; v < c.n; ++v) active[v] = q.range(0, 99) >= c.P("inactive");
    std::vector<std::map<uint32_t, u64> > nb(c.n);
    for (auto& e : c.e) { nb[e.u][e.v] = e.w; nb[e.v][e.u] = e.w; }
    auto twins = [&](uint32_t a, uint32_t b) {
        auto A = nb[a], B = nb[b];
        bool adj = A.count(b);
        if (adj) { A.erase(b); B.erase(a); }
        return A == B;
    };
    equal_neighborhood en;
    auto uf = en.findEqualNeighborhoods(P, active);
    bool merged = false;
    for (uint32_t a = 0; a < c.n; ++a) for (uint32_t b = a + 1; b < c.n; ++b) {
        bool m = uf.Find(a) == uf.Find(b);
        merged |= m;
        if (m) {
            x.check(!ts.count(a) && !ts.count(b), "terminal merged");
            x.check(twins(a, b), "vertices " + std::to_string(a) + " and " + std::to_string(b) + " do not have equal neighbourhoods");
        } else if (!ts.count(a) && !ts.count(b) && active[a] && active[b] && !nb[a].empty() && nb[a].size() <= static_cast<size_t>(c.P("maxdeg")) && nb[a].size() == nb[b].size() && twins(a, b)) {
            if (nb[a].count(b)) x.fail("adjacent vertices with equal neighbourhoods are not reported");
            // non-adjacent: guaranteed only if all vertices with the same targets have the same weights
            bool uniq = true;
            for (uint32_t z = 0; z < c.n; ++z) {
                if (z == a || z == b || nb[z].size() != nb[a].size()) continue;
                bool st = true; for (auto& [t, w] : nb[z]) { (void)w; st &= nb[a].count(t) > 0; }
                if (st && nb[z] != nb[a]) uniq = false;
            }
            if (uniq && c.n < 30) x.fail("vertices with equal neighbourhoods are not reported");
        }
    }
    x.label(merged ? "merged" : "nothing merged");
    if (merged) x.nt();
}
static pbt::Reg c2({ "C28", "neighborhood", gen_eq, run_eq, 15000, 200000 });

static void gen_clique(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 2; o.nmax = r.chance(1, 6) ? 20 : 9; o.disc_pct = 15; o.wmax_class = r.chance(1, 2) ? 0 : 2;
    gen::graph(r, c, o);
    std::vector<uint32_t> perm(c.n); for (uint32_t i = 0; i < c.n; ++i) perm[i] = i;
    r.shuffle(perm);
    ll t = std::min<ll>(c.n, r.range(1, 3));
    for (ll i = 0; i < t; ++i) c.lab.push_back(perm[i]);
}
static void run_clique(const Case& c, Ctx& x) {
    valid(c, x);
    gen::describe(c, x);
    auto M = make_mut(c.n, c.e);
    std::vector<std::vector<char> > A(c.n, std::vector<char>(c.n, 0));
    for (auto& e : c.e) A[e.u][e.v] = A[e.v][e.u] = 1;
    maximal_clique mc;
    auto cl = mc.findCliques(M);
    std::set<std::set<NodeID> > seen;
    for (auto& q : cl) {
        std::set<NodeID> s(q.begin(), q.end());
        x.check(s.size() == q.size(), "vertex twice in a clique");
        x.check(seen.insert(s).second, "clique reported twice");
        for (auto a : s) { x.check(a < c.n, "vertex out of range"); for (auto b : s) x.check(a == b || A[a][b], "reported vertices are not a clique"); }
        for (uint32_t v = 0; v < c.n; ++v) {
            if (s.count(v)) continue;
            bool all = true; for (auto a : s) all &= A[a][v];
            x.check(!all, "reported clique can be extended");
        }
        if (q.size() >= 3) x.nt();
    }
    x.label(cl.empty() ? "no clique" : "cliques");
}
static pbt::Reg c3({ "C28", "cliques", gen_clique, run_clique, 6000, 80000 });

// ------------------------------------------------------------------ C29
static void gen_help(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 1; o.nmax = r.chance(1, 8) ? 120 : 12; o.disc_pct = 25; o.wmax_class = 7; o.mmax = 1500;
    gen::graph(r, c, o);
    c.p["k"] = r.range(0, c.n); c.p["start"] = r.range(0, c.n - 1); c.p["parts"] = r.range(1, 4); c.p["seed"] = r.range(0, 1 << 30);
}
static void run_help(const Case& c, Ctx& x) {
    valid(c, x);
    gen::describe(c, x);
    size_t k = c.P("k"); uint32_t s = c.P("start");
    if (k > c.n || s >= c.n) x.discard();
    auto G = make_csr(c.n, c.e);
    auto M = make_mut(c.n, c.e);
    std::vector<u64> d(c.n, 0), wd(c.n, 0);
    for (auto& e : c.e) { ++d[e.u]; ++d[e.v]; wd[e.u] += e.w; wd[e.v] += e.w; }
    auto top = [&](const std::vector<NodeID>& t, const std::vector<u64>& deg, const std::string& what) {
        x.eq(t.size(), k, what + ": number of vertices");
        std::set<NodeID> u(t.begin(), t.end());
        x.eq(u.size(), k, what + ": distinct vertices");
        u64 lo = ~0ull;
        for (auto v : t) { x.check(v < c.n, what + ": range"); lo = std::min(lo, deg[v]); }
        for (uint32_t v = 0; v < c.n; ++v) if (!u.count(v)) x.check(deg[v] <= lo, what + ": a vertex of higher degree is missing");
    };
    top(graph_algorithms::top_k_degrees(G, k), d, "top_k_degrees");
    top(graph_algorithms::top_k_degrees(M, k), wd, "top_k_degrees (mutable)");
    top(graph_algorithms::weighted_top_k_degrees(G, k), wd, "weighted_top_k_degrees");
    // degrees of the static graph
    if (c.n) {
        x.eq(static_cast<u64>(G->getMaxDegree()), *std::max_element(wd.begin(), wd.end()), "getMaxDegree");
        x.eq(static_cast<u64>(G->getMinDegree()), *std::min_element(wd.begin(), wd.end()), "getMinDegree");
        x.eq(static_cast<u64>(G->getMaxUnweightedDegree()), *std::max_element(d.begin(), d.end()), "getMaxUnweightedDegree");
        auto srt = wd; std::sort(srt.begin(), srt.end());
        for (double p : { 0.0, 0.1, 0.5, 0.9, 0.99 }) x.eq(static_cast<u64>(G->getPercentile(p)), srt[static_cast<size_t>(c.n * p)], "getPercentile");
    }
    // breadth-first search
    auto [par, dist, far] = graph_algorithms::bfsDistances(M, s);
    std::vector<uint32_t> rd(c.n, ~0u);
    std::vector<uint32_t> q { s }; rd[s] = 0;
    std::vector<std::vector<uint32_t> > adj(c.n);
    for (auto& e : c.e) { adj[e.u].push_back(e.v); adj[e.v].push_back(e.u); }
    for (size_t i = 0; i < q.size(); ++i) for (auto t : adj[q[i]]) if (rd[t] == ~0u) { rd[t] = rd[q[i]] + 1; q.push_back(t); }
    uint32_t mx = 0;
    for (uint32_t v = 0; v < c.n; ++v) {
        if (rd[v] == ~0u) { x.check(par[v] == UNDEFINED_NODE && dist[v] == 0, "BFS: vertex that is not reachable"); continue; }
        mx = std::max(mx, rd[v]);
        x.eq(dist[v], rd[v], "BFS: distance of vertex " + std::to_string(v));
        if (v != s) { x.check(par[v] < c.n && std::count(adj[v].begin(), adj[v].end(), par[v]) && rd[par[v]] + 1 == rd[v], "BFS: parent"); }
        else x.check(par[v] == UNDEFINED_NODE, "BFS: parent of the start");
    }
    x.check(far < c.n && rd[far] == mx, "BFS: returned vertex is not a farthest one");
    // edge cut of a partition
    Rng rr(c.P("seed"));
    std::vector<uint32_t> part(c.n);
    u64 cut = 0;
    for (uint32_t v = 0; v < c.n; ++v) { part[v] = rr.range(0, c.P("parts") - 1); G->setPartitionIndex(v, part[v]); }
    for (auto& e : c.e) if (part[e.u] != part[e.v]) cut += e.w;
    quality_metrics qm;
    x.eq(static_cast<u64>(qm.edge_cut(*G)), cut, "edge_cut");
    // validity check accepts every valid graph and rejects broken ones
    graph_algorithms::checkGraphValidity(G);
    graph_algorithms::checkGraphValidity(M);
    // text
    std::ostringstream ws;
    for (NodeID v : G->nodes()) { ws << v << ": ["; bool f = true; for (EdgeID e : G->edges_of(v)) { if (!f) ws << ","; f = false; ws << G->getEdgeTarget(e) << "(" << G->getEdgeWeight(e) << ")"; } ws << "]\n"; }
    x.check(string::weightedGraphToString(G) == ws.str(), "weightedGraphToString");
    x.check(string::weightedGraphToString(M).size() == ws.str().size(), "weightedGraphToString (mutable)");
    std::ostringstream us;
    for (NodeID v : M->nodes()) { us << v << ": ["; bool f = true; for (EdgeID e : M->edges_of(v)) { if (!f) us << ","; f = false; us << M->getEdgeTarget(v, e); } us << "]\n"; }
    x.check(string::graphToString(M) == us.str(), "graphToString (mutable)");
    x.label(mx >= 3 ? "BFS depth >= 3" : "BFS depth < 3");
    if (c.n >= 4 && c.e.size() >= 3) x.nt();
}
static pbt::Reg d1({ "C29", "graph_helpers", gen_help, run_help, 8000, 120000 });

static void gen_rand(Rng& r, Case& c) {
    c.p["seed"] = r.range(0, 2147483647); c.p["n"] = r.chance(1, 6) ? r.range(0, 2000) : r.range(0, 40);
    c.p["lb"] = r.chance(1, 4) ? 0 : r.range(0, 1 << 20); c.p["span"] = r.chance(1, 3) ? r.range(0, 3) : r.chance(1, 4) ? 4294967295ll : r.range(0, 1 << 20);
    c.p["dups"] = r.chance(1, 2);
    for (ll i = r.range(0, 8); i > 0; --i) c.lab.push_back(r.range(0, 3));
}
static void run_rand(const Case& c, Ctx& x) {
    unsigned lb = c.P("lb"), rb = static_cast<unsigned>(std::min<ll>(4294967295ll, c.P("lb") + c.P("span")));
    size_t n = c.P("n");
    auto trace = [&]() {
        std::vector<double> t;
        random_functions::setSeed(c.P("seed"));
        x.eq(random_functions::getSeed(), static_cast<int>(c.P("seed")), "getSeed");
        auto perm = [&](const std::vector<uint32_t>& v, const std::string& what) {
            x.eq(v.size(), n, what + ": size");
            auto s = v; std::sort(s.begin(), s.end());
            for (size_t i = 0; i < n; ++i) { if (s[i] != i) x.fail(what + ": not a permutation"); t.push_back(v[i]); }
        };
        std::vector<uint32_t> v(n, 0);
        random_functions::permutate_vector_good(&v, true); perm(v, "permutate_vector_good(init)");
        v.assign(n, 9); random_functions::permutate_vector_fast(&v, true); perm(v, "permutate_vector_fast(init)");
        v.assign(n, 9); random_functions::permutate_vector_local(&v, true); perm(v, "permutate_vector_local(init)");
        // without initialisation: the same multiset
        std::vector<uint32_t> a(n), b;
        for (size_t i = 0; i < n; ++i) a[i] = c.P("dups") ? i / 3 : i * 7;
        auto multiset = [&](const std::string& what) { auto p = a, q = b; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); x.check(p == q, what + ": elements lost"); for (auto y : b) t.push_back(y); };
        b = a; random_functions::permutate_vector_good(&b, false); multiset("permutate_vector_good");
        b = a; random_functions::permutate_vector_good(&b); multiset("permutate_vector_good(1)");
        b = a; random_functions::permutate_vector_fast(&b, false); multiset("permutate_vector_fast");
        b = a; random_functions::permutate_vector_local(&b, false); multiset("permutate_vector_local");
        b = a; random_functions::permutate_vector_good_small(&b); multiset("permutate_vector_good_small");
        if (n >= 2) { v.assign(n, 0); random_functions::circular_permutation(&v); perm(v, "circular_permutation"); }
        for (int i = 0; i < 20; ++i) {
            unsigned q = random_functions::nextInt(lb, rb);
            x.check(q >= lb && q <= rb, "nextInt out of range");
            t.push_back(q);
            double dd = random_functions::nextDouble(lb, static_cast<double>(rb) + 1);
            x.check(dd >= lb && dd < static_cast<double>(rb) + 1, "nextDouble out of range");
            t.push_back(dd); t.push_back(random_functions::nextBool()); t.push_back(random_functions::next());
        }
        return t;
    };
    auto a = trace(), b = trace();
    x.check(a == b, "random numbers are not reproducible from the seed");
    // both ends of a small range are reached
    if (c.P("span") >= 1 && c.P("span") <= 3) {
        std::set<unsigned> s;
        for (int i = 0; i < 400; ++i) s.insert(random_functions::nextInt(lb, rb));
        x.eq(s.size(), static_cast<size_t>(rb - lb + 1), "values of a small range reached in 400 draws");
    }
    // text and search helpers
    std::vector<int> v(c.lab.begin(), c.lab.end());
    std::ostringstream o, z; o << "["; z << "["; bool f = true;
    for (size_t i = 0; i < v.size(); ++i) { if (i) o << ","; o << v[i]; if (v[i]) { if (!f) z << ","; f = false; z << i << ":" << v[i]; } }
    o << "]"; z << "]";
    x.check(string::VecToStr(v) == o.str(), "VecToStr");
    x.check(string::NonZeroVecToStr(v) == z.str(), "NonZeroVecToStr");
    for (int q = 0; q < 5; ++q) x.check(vector::contains(v, q) == (std::count(v.begin(), v.end(), q) > 0), "vector::contains");
    if (n >= 4) x.nt();
}
static pbt::Reg d2({ "C29", "random_helpers", gen_rand, run_rand, 4000, 60000 });

// checkGraphValidity ends the process on a broken graph
static void gen_bad(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 3; o.nmax = 10; o.connected = true; o.wmax_class = 3; gen::graph(r, c, o);
    c.p["kind"] = r.range(0, 3); c.p["at"] = r.range(0, 1000);
}
static void run_bad(const Case& c, Ctx& x) {
    valid(c, x);
    if (c.e.empty()) x.discard();
    static const char* name[] = { "unequal weights", "missing reverse arc", "parallel arcs", "mutable weight" };
    ll kind = c.P("kind");
    x.label(name[kind]);
    pid_t p = fork();
    if (p == 0) {
        alarm(20);
        auto q = c.e[c.P("at") % c.e.size()];
        if (kind < 3) {
            std::vector<std::vector<std::pair<uint32_t, u64> > > adj(c.n);
            for (auto& e : c.e) { adj[e.u].push_back({ e.v, e.w }); adj[e.v].push_back({ e.u, e.w }); }
            if (kind == 0) for (auto& a : adj[q.u]) if (a.first == q.v) a.second += 1;
            if (kind == 1) { auto& a = adj[q.u]; for (size_t i = 0; i < a.size(); ++i) if (a[i].first == q.v) { a.erase(a.begin() + i); break; } }
            if (kind == 2) { adj[q.u].push_back({ q.v, q.w }); adj[q.v].push_back({ q.u, q.w }); }
            auto G = std::make_shared<graph_access>();
            u64 m = 0; for (auto& a : adj) m += a.size();
            G->start_construction(c.n, m);
            for (uint32_t v = 0; v < c.n; ++v) { G->new_node(); for (auto& [t, w] : adj[v]) G->new_edge(v, t, w); }
            G->finish_construction();
            graph_algorithms::checkGraphValidity(G);
        } else {
            auto M = make_mut(c.n, c.e);
            EdgeID e = c.P("at") % std::max<u64>(1, M->get_first_invalid_edge(q.u));
            M->setEdgeWeight(q.u, e, M->getEdgeWeight(q.u, e) + 1);
            // setEdgeWeight keeps both directions; break one degree instead by a second parallel edge
            M->new_edge_order(q.u, M->getEdgeTarget(q.u, e), 1);
            graph_algorithms::checkGraphValidity(M);
        }
        _exit(42);
    }
    int st = 0;
    waitpid(p, &st, 0);
    x.check(WIFEXITED(st) && WEXITSTATUS(st) == 1, "broken graph accepted by checkGraphValidity");
    x.nt();
}
static pbt::Reg d3({ "C29", "validity_check", gen_bad, run_bad, 600, 6000 });

PBT_MAIN
