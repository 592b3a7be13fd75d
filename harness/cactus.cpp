// C06/C07 all minimum cuts, C08 balanced / low conductance, C25 GraphML output
#include "algorithms/global_mincut/algorithms.h"
#include "mincut_common.h"
#include "algorithms/global_mincut/cactus/cactus_mincut.h"
#ifdef PARALLEL
#include "parallel/algorithm/parallel_cactus.h"
#endif
using oracle::Mask;

static const char* ES[] = { "heavy", "heavy_weighted", "heavy_vertex", "central", "random", "" };
static void cactus_cfg(Rng& r, Case& c) {
    gen_cfg(r, c);
    c.p["es"] = r.range(0, 5);
    c.p["known"] = r.chance(1, 4);
    c.p["t"] = r.pick({ 1, 2, 2, 3, 4, 4, 6, 8 });
    c.p["save"] = 1;
}
static void cgen(Rng& r, Case& c, uint32_t lo, uint32_t hi) {
    gen::GOpt o; o.nmin = lo; o.nmax = hi; o.connected = true; o.multi = r.chance(1, 5); o.disc_pct = 0; o.wmax_class = r.chance(1, 3) ? 5 : 1; o.planted_pct = 20;
    gen::graph(r, c, o);
    // even weights make cycles in the cactus likely
    if (r.chance(1, 3)) for (auto& e : c.e) e.w *= 2;
    gen::scale(r, c, 8);
    cactus_cfg(r, c);
}
static bool cok(const Case& c, Ctx& x) {
    if (!ok(c) || c.n > Mask::MAX) return false;
    set_cfg(c);
    auto cfg = configuration::getConfig();
    cfg->edge_selection = ES[c.P("es") % 6];
    cfg->save_cut = true;
    if (mindeg(c) > 50000) x.label(mindeg(c) >> 32 ? "minimum degree above 2^32" : "minimum degree above 50000");
#ifdef PARALLEL
    int t = std::max<ll>(1, c.P("t", 1));
    omp_set_num_threads(t); cfg->threads = t;
    x.label("threads:" + std::to_string(t));
#endif
    if (c.n < 10000 && oracle::simplify(c.e).size() != c.e.size()) x.label("parallel edges");
    x.label(std::string("edge_selection:") + ES[c.P("es") % 6]);
    return true;
}
template <class P> using Result = std::tuple<EdgeWeight, mutableGraphPtr, std::vector<std::pair<NodeID, EdgeID> > >;
template <class P> static Result<P> all_cuts(P G, const Case& c, u64 lam) {
#ifdef PARALLEL
    if (c.P("alg") % 2 == 0) { parallel_cactus<P> a; return c.P("known") ? a.findAllMincuts(G, lam) : a.findAllMincuts(G); }
#endif
    cactus_mincut<P> a;
    return c.P("known") ? a.findAllMincuts(G, lam) : a.findAllMincuts(G);
}
static void clabels(const Case& c, Ctx& x, u64 lam, const std::set<Mask>& want) {
    gen::describe(c, x);
    x.label(c.P("mut") ? "mutable" : "static");
    x.label(lam % 2 ? "mincut odd" : "mincut even");
    x.label(want.size() == 1 ? "1 minimum cut" : want.size() < 10 ? "2-9 minimum cuts" : "10+ minimum cuts");
    bool crossing = false;   // crossing cuts <=> the cactus has a cycle of length >= 4
    std::vector<Mask> w(want.begin(), want.end());
    for (size_t i = 0; i < w.size() && i < 40; ++i) for (size_t j = 0; j < i && !crossing; ++j) {
        bool in = false, a = false, b = false;
        for (int k = 0; k < 3; ++k) { in |= (w[i].w[k] & w[j].w[k]) != 0; a |= (w[i].w[k] & ~w[j].w[k]) != 0; b |= (w[j].w[k] & ~w[i].w[k]) != 0; }
        crossing = in && a && b;
    }
    if (crossing) x.label("crossing minimum cuts");
    if (want.size() >= 2) x.nt();
}
template <class P> static void run_cactus(const Case& c, Ctx& x) {
    std::set<Mask> want;
    u64 lam = oracle::all_min_cuts(c.n, c.e, &want);
    if (!lam) x.discard();
    clabels(c, x, lam, want);
    auto G = make<P>(c.n, c.e);
    auto [v, H, mb] = all_cuts<P>(G, c, lam);
    x.eq(static_cast<u64>(v), lam, "minimum cut value of the cactus algorithm");
    compare_cuts(cactus_cuts(H, c.n, lam, x, "cactus"), want, x, "cactus");
    // the value alone, without recording cuts
    configuration::getConfig()->save_cut = false;
    auto G2 = make<P>(c.n, c.e);
    x.eq(static_cast<u64>(std::get<0>(all_cuts<P>(G2, c, lam))), lam, "minimum cut value of the cactus algorithm without save_cut");
}
static void c06(const Case& c, Ctx& x) { if (!cok(c, x)) x.discard(); if (c.P("mut")) run_cactus<mutableGraphPtr>(c, x); else run_cactus<graphAccessPtr>(c, x); }
static void run_disc(const Case& c, Ctx& x) {
    if (!cok(c, x)) x.discard();
    if (oracle::connected(c.n, c.e)) x.discard();
    gen::describe(c, x); x.nt();
    configuration::getConfig()->save_cut = c.P("save");
    if (c.P("mut")) x.eq(static_cast<u64>(std::get<0>(all_cuts<mutableGraphPtr>(make_mut(c.n, c.e), c, 0))), 0ull, "value on a disconnected graph");
    else x.eq(static_cast<u64>(std::get<0>(all_cuts<graphAccessPtr>(make_csr(c.n, c.e), c, 0))), 0ull, "value on a disconnected graph");
}
static void dgen(Rng& r, Case& c) { gen::GOpt o; o.nmin = 2; o.nmax = 30; o.multi = r.chance(1, 5); o.disc_pct = 100; o.wmax_class = 4; gen::graph(r, c, o); cactus_cfg(r, c); c.p["known"] = 0; c.p["save"] = r.chance(1, 2); }

template <class P> static void run_bal(const Case& c, Ctx& x) {
    std::set<Mask> want;
    u64 lam = oracle::all_min_cuts(c.n, c.e, &want);
    if (!lam) x.discard();
    clabels(c, x, lam, want);
    auto cfg = configuration::getConfig();
    cfg->find_most_balanced_cut = true; cfg->set_node_in_cut = true;
    cfg->find_lowest_conductance = c.P("cond");
    std::vector<u64> deg(c.n, 0);
    u64 tot = 0;
    for (auto& e : c.e) { deg[e.u] += e.w; deg[e.v] += e.w; tot += 2 * e.w; }
    auto measure = [&](const Mask& m) {
        u64 a = 0, all = 0;
        for (uint32_t v = 0; v < c.n; ++v) { u64 w = c.P("cond") ? deg[v] : 1; all += w; if (m.has(v)) a += w; }
        return std::min(a, all - a);
    };
    u64 best = 0;
    for (auto& m : want) best = std::max(best, measure(m));
    auto G = make<P>(c.n, c.e);
    auto [v, H, mb] = all_cuts<P>(G, c, lam);
    x.eq(static_cast<u64>(v), lam, "minimum cut value");
    Mask m;
    for (uint32_t i = 0; i < c.n; ++i) if (G->getNodeInCut(i)) m.set(i);
    if (m.has(0)) m = m.complement(c.n);
    x.check(want.count(m), "the marked side " + show(m) + " is not a minimum cut");
    x.eq(measure(m), best, c.P("cond") ? "smaller volume of the selected cut" : "smaller side of the selected cut");
    // the returned edges are the edges of the original graph between the sides
    u64 w = 0;
    std::set<std::pair<NodeID, EdgeID> > seen;
    for (auto& [n, e] : mb) {
        x.check(seen.insert({ n, e }).second, "cut edge reported twice");
        x.check(n < c.n && m.has(n) != m.has(G->getEdgeTarget(n, e)), "reported edge is not a cut edge");
        w += G->getEdgeWeight(n, e);
    }
    x.eq(w, 2 * lam, "doubled weight of the reported cut edges");
    x.label(c.P("cond") ? "conductance" : "balanced");
    bool differ = false;
    for (auto& q : want) differ |= measure(q) != best;
    if (differ) x.label("choice matters"); else x.nontrivial = false;
}
static void c08(const Case& c, Ctx& x) { if (!cok(c, x)) x.discard(); if (c.P("mut")) run_bal<mutableGraphPtr>(c, x); else run_bal<graphAccessPtr>(c, x); }

// the selection alone, on a given cactus: deep paths, long cycles and trees of blocks with a
// closed form for the best minimum cut
static void given_gen(Rng& r, Case& c) {
    c.n = 2; c.e.clear();
    c.p["shape"] = r.range(0, 4);
    c.p["k"] = r.chance(1, 8) ? r.range(60000, 250000) : r.chance(1, 2) ? r.range(2, 12) : r.range(12, 400);
    c.p["lam"] = r.range(1, 12);
    c.p["cond"] = r.chance(1, 3); c.p["empty"] = r.chance(1, 4); c.p["maxcnt"] = r.pick({ 1, 1, 2, 5 });
    c.p["gs"] = r.range(0, 1000000000); c.p["mut"] = r.chance(1, 2); c.p["mark"] = 1;
    c.p["seed"] = r.range(0, 1000000000);
}
template <class P> static void run_given(const Case& c, Ctx& x) {
    uint32_t k = c.P("k"), shape = c.P("shape");
    u64 lam = c.P("lam");
    bool cycles = lam % 2 == 0 && shape != 0;
    Rng r(c.P("gs"));
    struct Block { uint32_t a, from, to; };   // anchor and the new vertices [from, to)
    std::vector<Block> B;
    std::vector<uint32_t> blocks(k, 0);
    for (uint32_t v = 1; v < k; ) {
        uint32_t a = shape == 3 ? r.range(0, v - 1) : shape == 4 ? r.range(v > 4 ? v - 4 : 0, v - 1) : v - 1, len = 1;
        if (cycles && shape == 1) len = k - v;
        else if (cycles && r.chance(1, 2)) len = std::min<uint32_t>(k - v, r.chance(1, 3) ? r.range(1, 40) : r.range(1, 4));
        B.push_back({ a, v, v + len });
        ++blocks[a]; for (uint32_t i = v; i < v + len; ++i) ++blocks[i];
        v += len;
    }
    std::vector<uint32_t> perm(k);
    for (uint32_t i = 0; i < k; ++i) perm[i] = i;
    r.shuffle(perm);
    std::vector<E> ce;
    for (auto& b : B) {
        if (b.to - b.from == 1) { ce.push_back({ perm[b.a], perm[b.from], lam }); continue; }
        ce.push_back({ perm[b.a], perm[b.from], lam / 2 });
        for (uint32_t v = b.from; v + 1 < b.to; ++v) ce.push_back({ perm[v], perm[v + 1], lam / 2 });
        ce.push_back({ perm[b.to - 1], perm[b.a], lam / 2 });
    }
    r.shuffle(ce);
    // original vertices
    std::vector<std::vector<NodeID> > cont(k);
    std::vector<uint32_t> at;
    bool empties = false;
    for (uint32_t v = 0; v < k; ++v) {
        uint32_t cnt = r.range(1, std::max<ll>(1, c.P("maxcnt")));
        for (uint32_t j = 0; j < cnt; ++j) { cont[perm[v]].push_back(at.size()); at.push_back(perm[v]); }
    }
    if (c.P("empty")) for (uint32_t v = 0; v < k; ++v) if (blocks[v] >= 3 && r.chance(1, 2)) {
        uint32_t w = perm[v == 0 ? 1 : v - 1];
        if (cont[w].empty()) continue;
        for (NodeID o : cont[perm[v]]) { cont[w].push_back(o); at[o] = w; }
        cont[perm[v]].clear(); empties = true;
    }
    uint32_t n = at.size();
    std::vector<E> oe;
    for (auto& l : cont) for (size_t i = 1; i < l.size(); ++i) oe.push_back({ l[i - 1], l[i], lam + r.range(0, 3) });
    for (auto& e : ce) if (!cont[e.u].empty() && !cont[e.v].empty()) oe.push_back({ r.pick(cont[e.u]), r.pick(cont[e.v]), e.w });
    auto O = make<P>(n, oe);
    auto H = make_mut(k, ce);
    H->setOriginalNodes(n);
    for (uint32_t v = 0; v < k; ++v) H->setContainedVertices(v, cont[v]);
    std::vector<u64> deg(n, 0), wt(k, 0), sub(k);
    for (auto& e : oe) { deg[e.u] += e.w; deg[e.v] += e.w; }
    u64 T = 0;
    for (uint32_t v = 0; v < n; ++v) { u64 w = c.P("cond") ? deg[v] : 1; wt[at[v]] += w; T += w; }
    for (uint32_t v = 0; v < k; ++v) sub[v] = wt[perm[v]];
    for (size_t i = B.size(); i-- > 0; ) for (uint32_t v = B[i].from; v < B[i].to; ++v) sub[B[i].a] += sub[v];
    u64 best = 0; uint32_t longest = 0;
    for (auto& b : B) {
        std::vector<u64> pre(1, 0);
        for (uint32_t v = b.from; v < b.to; ++v) pre.push_back(pre.back() + sub[v]);
        longest = std::max<uint32_t>(longest, pre.size());
        for (size_t i = 0; i + 1 < pre.size(); ++i) {
            size_t j = std::lower_bound(pre.begin() + i + 1, pre.end(), pre[i] + T / 2) - pre.begin();
            for (size_t q = j > i + 1 ? j - 1 : i + 1; q <= j && q < pre.size(); ++q) { u64 w = pre[q] - pre[i]; best = std::max(best, std::min(w, T - w)); }
        }
    }
    auto cfg = configuration::getConfig();
    cfg->save_cut = true; cfg->set_node_in_cut = true; cfg->output_path = ""; cfg->find_most_balanced_cut = true; cfg->find_lowest_conductance = c.P("cond");
    random_functions::setSeed(c.P("seed"));
    x.label(shape == 0 ? "path" : shape == 1 ? "single cycle or path" : shape == 2 ? "chain of blocks" : shape == 3 ? "random tree of blocks" : "deep tree of blocks");
    x.label(k >= 60000 ? "60000+ cactus vertices" : k >= 12 ? "12-400 cactus vertices" : "2-11 cactus vertices");
    x.label(c.P("cond") ? "conductance" : "balanced");
    if (longest >= 4) x.label("cycle of 4+");
    if (empties) x.label("empty cactus vertices");
    if (B.size() > 1 || longest > 3) x.nt();
    most_balanced_minimum_cut<P> mb;
    auto edges = mb.findCutFromCactus(H, lam, O);
    u64 a = 0;
    for (uint32_t v = 0; v < n; ++v) if (O->getNodeInCut(v)) a += c.P("cond") ? deg[v] : 1;
    x.eq(std::min(a, T - a), best, "smaller side of the cut selected from a given cactus");
    for (uint32_t v = 0; v < k; ++v) for (NodeID o : cont[v]) x.check(O->getNodeInCut(o) == O->getNodeInCut(cont[v][0]), "vertices of one cactus vertex are on different sides");
    if (empties) return;
    u64 w = 0;
    for (auto& e : ce) if (O->getNodeInCut(cont[e.u][0]) != O->getNodeInCut(cont[e.v][0])) w += e.w;
    x.eq(w, lam, "weight of the selected cut in the cactus");
    u64 w2 = 0;
    for (auto& [v, e] : edges) { x.check(v < n && O->getNodeInCut(v) != O->getNodeInCut(O->getEdgeTarget(v, e)), "reported edge is not a cut edge"); w2 += O->getEdgeWeight(v, e); }
    x.eq(w2, 2 * lam, "doubled weight of the reported cut edges");
}
static void c08g(const Case& c, Ctx& x) {
    if (c.P("k") < 2 || c.P("k") > 400000 || c.P("lam") < 1) x.discard();
    if (c.P("mut")) run_given<mutableGraphPtr>(c, x); else run_given<graphAccessPtr>(c, x);
}

// more than 10000 vertices: the label propagation stage runs. Clusters are circulant graphs
// of edge connectivity 8, so all cuts below 8 are cuts of the quotient graph
static void hgen(Rng& r, Case& c) {
    Case q;
    gen::GOpt o; o.nmin = 3; o.nmax = 40; o.connected = true; o.disc_pct = 0; o.wmax_class = r.range(0, 2); o.planted_pct = 40;
    gen::graph(r, q, o);
    uint32_t k = q.n, n = r.range(10050, 11500);
    c.n = n; c.lab.assign(n, 0);
    std::vector<uint32_t> perm(n), lo(k + 1);
    for (uint32_t i = 0; i < n; ++i) perm[i] = i;
    r.shuffle(perm);
    // some clusters are short cycles of edges of weight 4, each attached by edges at one
    // vertex: label propagation pulls that vertex out of its cluster, so that the bound
    // VieCut hands on may be above the minimum cut
    std::vector<bool> thin(k, false);
    if (r.chance(1, 2)) for (uint32_t b = 1; b < k; ++b) thin[b] = r.chance(1, 2);
    uint32_t rest = 0; std::vector<uint32_t> len(k);
    for (uint32_t b = 0; b < k; ++b) if (thin[b]) rest += len[b] = r.range(3, 12);
    uint32_t wide = std::count(thin.begin(), thin.end(), false);
    for (uint32_t b = 0, i = 0; b < k; ++b) if (!thin[b]) { len[b] = static_cast<uint64_t>(i + 1) * (n - rest) / wide - static_cast<uint64_t>(i) * (n - rest) / wide; ++i; }
    for (uint32_t b = 0; b < k; ++b) lo[b + 1] = lo[b] + len[b];
    std::vector<E> e;
    // leaves that hang in their cluster by one edge of weight 8
    uint32_t leaves = r.chance(1, 2) ? r.range(1, 40) : 0;
    for (uint32_t b = 0; b < k; ++b) {
        uint32_t len = lo[b + 1] - lo[b];
        bool cycle = thin[b];
        for (; leaves && len >= 100 && r.chance(9, 10); --leaves, --len) {
            c.lab[perm[lo[b] + len - 1]] = b;
            e.push_back({ perm[lo[b] + len - 1], perm[r.range(lo[b], lo[b] + 50)], 8 });
        }
        for (uint32_t i = 0; i < len; ++i) {
            c.lab[perm[lo[b] + i]] = b;
            if (cycle) e.push_back({ perm[lo[b] + i], perm[lo[b] + (i + 1) % len], 4 });
            else for (uint32_t d = 1; d <= 4; ++d) e.push_back({ perm[lo[b] + i], perm[lo[b] + (i + d) % len], 1 });
        }
    }
    auto end = [&](uint32_t b) { return perm[thin[b] ? lo[b] : r.range(lo[b], lo[b + 1] - 1)]; };
    for (auto& x : q.e) for (u64 w = std::min<u64>(x.w, 40); w > 0; ) { u64 p = thin[x.u] || thin[x.v] ? w : r.range(1, w); w -= p; e.push_back({ end(x.u), end(x.v), p }); }
    c.e = oracle::simplify(e);
    c.s = q.s; c.p["noshrink_n"] = 1; c.p["k"] = k;
    cactus_cfg(r, c);
    c.p["alg"] = r.chance(1, 4);
}
template <class P> static void run_hcactus(const Case& c, Ctx& x) {
    uint32_t k = c.P("k");
    std::vector<E> q, q1;
    for (auto& e : c.e) if (c.lab[e.u] != c.lab[e.v]) q.push_back({ static_cast<uint32_t>(c.lab[e.u]), static_cast<uint32_t>(c.lab[e.v]), e.w }); else q1.push_back(e);
    uint32_t comps; oracle::components(c.n, q1, &comps);
    std::set<Mask> want;
    if (k < 2 || !oracle::connected(k, q) || comps != k) x.discard();
    u64 lam = oracle::all_min_cuts(k, q, &want);
    if (lam >= 8) x.discard();
    std::vector<uint32_t> deg(c.n, 0);
    for (auto& e : q1) { deg[e.u] += e.w; deg[e.v] += e.w; }
    for (auto d : deg) if (d == 0 || d % 8) x.discard();
    if (*std::max_element(deg.begin(), deg.end()) > 8) x.label("leaves in clusters");
    clabels(c, x, lam, want);
    auto G = make<P>(c.n, c.e);
    auto [v, H, mb] = all_cuts<P>(G, c, lam);
    x.eq(static_cast<u64>(v), lam, "minimum cut value of the cactus algorithm on a large graph");
    compare_cuts(cactus_cuts(H, k, lam, x, "cactus", &c.lab), want, x, "cactus");
}
static void c06h(const Case& c, Ctx& x) {
    if (c.n < 10001 || c.lab.size() != c.n) x.discard();
    Case s = c; s.n = std::min(s.n, 100u); s.e.clear(); s.e.push_back({ 0, 1, 1 });
    if (!cok(s, x)) x.discard();
    if (c.P("mut")) run_hcactus<mutableGraphPtr>(c, x); else run_hcactus<graphAccessPtr>(c, x);
}
static void small(Rng& r, Case& c) { cgen(r, c, 2, r.chance(1, 3) ? 7 : 12); c.p["alg"] = r.chance(1, 4); }
static void medium(Rng& r, Case& c) { cgen(r, c, 14, 60); c.p["alg"] = r.chance(1, 4); }
static void large(Rng& r, Case& c) { cgen(r, c, 60, 190); c.p["alg"] = r.chance(1, 4); }
static void bsmall(Rng& r, Case& c) { small(r, c); c.p["cond"] = r.range(0, 1); }
static void bmedium(Rng& r, Case& c) { medium(r, c); c.p["cond"] = r.range(0, 1); }

#ifndef PARALLEL
static pbt::Reg r1({ "C06", "cactus_small", small, c06, 60000, 1500000 });
static pbt::Reg r2({ "C06", "cactus_medium", medium, c06, 6000, 200000 });
static pbt::Reg r3({ "C06", "cactus_large", large, c06, 500, 20000 });
static pbt::Reg r3h({ "C06", "cactus_huge", hgen, c06h, 300, 6000 });
static pbt::Reg r4({ "C06", "cactus_disconnected", dgen, run_disc, 3000, 60000 });
static pbt::Reg r5({ "C08", "select_small", bsmall, c08, 40000, 1000000 });
static pbt::Reg r6g({ "C08", "select_given_cactus", given_gen, c08g, 8000, 200000 });
static pbt::Reg r6({ "C08", "select_medium", bmedium, c08, 6000, 200000 });
// GraphML output describes exactly the returned cactus
static void c25(const Case& c, Ctx& x) {
    if (!cok(c, x)) x.discard();
    if (!oracle::connected(c.n, c.e)) x.discard();
    gen::describe(c, x);
    std::string f = x.scratch + "/c.graphml";
    configuration::getConfig()->cactus_filename = f;
    auto G = make_csr(c.n, c.e);
    auto [v, H, mb] = all_cuts<graphAccessPtr>(G, c, 0);
    std::ifstream in(f);
    x.check(in.good(), "GraphML file was not written");
    std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    auto attr = [&](size_t p, const std::string& k) { size_t a = all.find(" " + k + "=\"", p); a += k.size() + 3; return all.substr(a, all.find('"', a) - a); };
    std::map<std::string, std::set<uint32_t> > nodes;
    std::vector<std::tuple<std::string, std::string, u64> > edges;
    for (size_t p = all.find("<node "); p != std::string::npos; p = all.find("<node ", p + 1)) {
        std::string id = attr(p, "id");
        x.check(!nodes.count(id), "node id twice in GraphML");
        auto& s = nodes[id];
        size_t a = all.find("containedVertices\">", p) + 19;
        std::istringstream ls(all.substr(a, all.find('<', a) - a));
        std::string tok;
        while (std::getline(ls, tok, ',')) x.check(s.insert(std::stoul(tok)).second, "vertex listed twice in GraphML");
    }
    std::set<std::string> eids;
    for (size_t p = all.find("<edge "); p != std::string::npos; p = all.find("<edge ", p + 1)) {
        x.check(eids.insert(attr(p, "id")).second, "edge id twice in GraphML");
        size_t a = all.find("\"weight\">", p) + 9;
        edges.emplace_back(attr(p, "source"), attr(p, "target"), std::stoull(all.substr(a, all.find('<', a) - a)));
    }
    x.check(all.find("</graphml>") != std::string::npos, "GraphML not terminated");
    x.eq(nodes.size(), static_cast<size_t>(H->n()), "number of GraphML nodes");
    for (NodeID n : H->nodes()) {
        auto cv = H->containedVertices(n);
        x.check(nodes.count(std::to_string(n)) && nodes[std::to_string(n)] == std::set<uint32_t>(cv.begin(), cv.end()), "contained vertices in GraphML differ from the cactus");
    }
    std::vector<std::tuple<uint32_t, uint32_t, u64> > a, b;
    for (auto& [s, t, w] : edges) { uint32_t p = std::stoul(s), q = std::stoul(t); a.emplace_back(std::min(p, q), std::max(p, q), w); }
    for (NodeID n : H->nodes()) for (EdgeID e : H->edges_of(n)) { NodeID t = H->getEdgeTarget(n, e); if (n < t) b.emplace_back(n, t, H->getEdgeWeight(n, e)); }
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    x.check(a == b, "edges in GraphML differ from the cactus");
    x.label(b.empty() ? "empty" : "cactus edges");
    if (H->n() >= 3) x.nt();
    unlink(f.c_str());
}
static pbt::Reg r7({ "C25", "graphml", small, c25, 4000, 100000 });
#else
static pbt::Reg r1({ "C07", "pcactus_small", small, c06, 60000, 1200000, true });
static pbt::Reg r2({ "C07", "pcactus_medium", medium, c06, 6000, 200000, true });
static pbt::Reg r3({ "C07", "pcactus_large", large, c06, 500, 20000, true });
static pbt::Reg r3h({ "C07", "pcactus_huge", hgen, c06h, 200, 4000, true });
static pbt::Reg r4({ "C07", "pcactus_disconnected", dgen, run_disc, 3000, 60000, true });
static pbt::Reg r5({ "C08", "pselect_small", bsmall, c08, 20000, 500000, true });
static pbt::Reg r6({ "C08", "pselect_medium", bmedium, c08, 4000, 120000, true });
#endif
PBT_MAIN
