// helpers shared by the minimum cut harnesses
#pragma once
#include "algorithms/global_mincut/algorithms.h"
#include "repo.h"
using namespace rp;

static const char* PQ[] = { "default", "bqueue", "heap", "bstack" };

static void gen_cfg(Rng& r, Case& c) {
    c.p["mut"] = r.range(0, 1);
    c.p["pq"] = r.range(0, 3);
    c.p["nolimit"] = r.chance(1, 4);
    c.p["seed"] = r.range(0, 50);
    c.p["save"] = r.chance(1, 3);
}
static u64 maxdeg(const Case& c) {
    std::vector<u64> d(c.n, 0);
    for (auto& e : c.e) { d[e.u] += e.w; d[e.v] += e.w; }
    return c.n ? *std::max_element(d.begin(), d.end()) : 0;
}
// bucket queues allocate one bucket per key: keep keys within what memory allows
static void set_cfg(const Case& c) {
    auto cfg = configuration::getConfig();
    cfg->pq = PQ[c.P("pq") % 4];
    if (maxdeg(c) > 200000 && (cfg->pq == "bqueue" || cfg->pq == "bstack")) cfg->pq = "default";
    cfg->disable_limiting = c.P("nolimit");
    if (cfg->pq == "default" && cfg->disable_limiting && maxdeg(c) > 200000) cfg->pq = "heap";
    cfg->save_cut = c.P("save");
    cfg->seed = c.P("seed");
    random_functions::setSeed(c.P("seed"));
}
// true optimum
static u64 opt(const Case& c) { return c.n <= 400 ? oracle::stoer_wagner(c.n, c.e) : c.n > 1500 ? oracle::sparse_min_cut(c.n, c.e) : oracle::min_cut_flow(c.n, c.e); }
static u64 mindeg(const Case& c) {
    std::vector<u64> d(c.n, 0);
    for (auto& e : c.e) { d[e.u] += e.w; d[e.v] += e.w; }
    return *std::min_element(d.begin(), d.end());
}
static void labels(const Case& c, Ctx& x, u64 lam) {
    gen::describe(c, x);
    if (lam == 0) x.label("disconnected");
    bool nt = lam > 0 && lam < mindeg(c);
    if (nt) { x.label("mincut<mindegree"); x.nt(); }
    x.label(std::string("pq:") + configuration::getConfig()->pq + (c.P("nolimit") ? "/unlimited" : "/limited"));
    x.label(c.P("mut") ? "mutable" : "static");
}
template <class A, class P> static u64 solve(P G) { A a; return a.perform_minimum_cut(G); }

template <class P> static void check_side(const Case& c, P G, u64 val, Ctx& x, const std::string& what) {
    std::vector<char> side(c.n);
    size_t in = 0;
    for (uint32_t v = 0; v < c.n; ++v) { side[v] = G->getNodeInCut(v); in += side[v]; }
    x.check(in > 0 && in < c.n, what + ": saved cut has an empty side");
    x.eq(oracle::cut_weight(c.e, side), val, what + ": weight of the saved cut");
    std::set<u64> blocks;
    for (uint32_t v = 0; v < c.n; ++v) blocks.insert(G->getPartitionIndex(v));
    for (uint32_t v = 0; v < c.n; ++v) for (uint32_t w = v + 1; w < c.n && w < v + 3; ++w)
        x.check((G->getPartitionIndex(v) == G->getPartitionIndex(w)) == (side[v] == side[w]), what + ": saved block numbers disagree with the cut sides");
}

static bool ok(const Case& c) {
    if (c.n < 2) return false;
    for (auto& e : c.e) if (e.u >= c.n || e.v >= c.n || e.u == e.v || e.w < 1) return false;
    return true;
}
#define GUARD if (!ok(c)) x.discard(); set_cfg(c)

static void gen_small(Rng& r, Case& c) { gen::GOpt o; o.nmin = 2; o.nmax = r.chance(1, 4) ? 7 : 14; o.multi = r.chance(1, 6); o.wmax_class = 7; gen::graph(r, c, o); gen::scale(r, c, 4); gen_cfg(r, c); }
static void gen_medium(Rng& r, Case& c) { gen::GOpt o; o.nmin = 15; o.nmax = 90; o.wmax_class = 7; gen::graph(r, c, o); gen::scale(r, c, 4); gen_cfg(r, c); }
static void gen_large(Rng& r, Case& c) { gen::GOpt o; o.nmin = 120; o.nmax = 400; o.mmax = 6000; o.wmax_class = 7; gen::graph(r, c, o); gen::scale(r, c, 4); gen_cfg(r, c); }

// large graphs reach the label propagation stage of VieCut (n > 10000)
static void gen_huge(Rng& r, Case& c) {
    c.p["noshrink_n"] = 0;
    uint32_t n = r.range(10050, 13000);
    c.n = n;
    uint32_t k = r.range(2, 40);
    std::vector<uint32_t> perm(n);
    for (uint32_t i = 0; i < n; ++i) perm[i] = i;
    r.shuffle(perm);
    int cls = r.range(0, 3);
    auto add = [&](uint32_t a, uint32_t b, u64 w) { if (a != b) c.e.push_back({ perm[a], perm[b], w }); };
    for (uint32_t b = 0; b < k; ++b) {
        uint32_t lo = static_cast<uint64_t>(b) * n / k, hi = static_cast<uint64_t>(b + 1) * n / k;
        for (uint32_t i = lo; i < hi; ++i) { for (int q = 0; q < 3; ++q) add(i, lo + (i - lo + 1 + q) % (hi - lo), gen::weight(r, cls)); if (r.chance(1, 2)) add(i, r.range(lo, hi - 1), gen::weight(r, cls)); }
        if (b) { uint32_t pb = r.range(0, b - 1); uint32_t plo = static_cast<uint64_t>(pb) * n / k, phi = static_cast<uint64_t>(pb + 1) * n / k;
            if (!r.chance(1, 60)) for (ll q = r.range(1, 4); q > 0; --q) add(r.range(lo, hi - 1), r.range(plo, phi - 1), gen::weight(r, cls)); }
    }
    c.e = oracle::simplify(c.e);
    c.s["fam"] = "clusters-huge"; c.s["wcls"] = gen::weight_class_name(cls);
    gen_cfg(r, c);
}

// A light cycle hangs on the rest by an edge heavier than its own: label propagation
// merges the port into the rest and loses the minimum cut, so that the
// value VieCut hands to the exact and the all-cuts algorithms is above the minimum.
static void gen_hidden(Rng& r, Case& c) {
    c.p["noshrink_n"] = 0;
    uint32_t n = r.range(10050, 12500), gadgets = r.range(1, 6);
    c.n = n;
    std::vector<uint32_t> perm(n);
    for (uint32_t i = 0; i < n; ++i) perm[i] = i;
    r.shuffle(perm);
    auto add = [&](uint32_t a, uint32_t b, u64 w) { if (a != b) c.e.push_back({ perm[a], perm[b], w }); };
    uint32_t used = 0;
    std::vector<std::pair<uint32_t, uint32_t> > g;
    std::vector<u64> width;
    for (uint32_t i = 0; i < gadgets; ++i) {
        uint32_t k = r.range(4, 12);
        u64 w = r.range(3, 6);
        for (uint32_t a = 0; a < k; ++a) add(used + a, used + (a + 1) % k, w);
        width.push_back(w);
        g.push_back({ used, k });
        used += k;
    }
    u64 ring = r.range(4, 8);
    for (uint32_t i = used; i < n; ++i) {
        add(i, i + 1 < n ? i + 1 : used, ring);
        add(i, r.range(used, n - 1), ring);
        if (r.chance(1, 6)) add(i, r.range(used, n - 1), ring);
    }
    for (uint32_t i = 0; i < gadgets; ++i) {
        u64 w = width[i], big = r.range(w + 1, 2 * w - 1);
        add(g[i].first, r.range(used, n - 1), big);
        if (big + 1 < 2 * w && r.chance(1, 2)) add(g[i].first + r.range(1, g[i].second - 1), r.range(used, n - 1), 1);
    }
    c.e = oracle::simplify(c.e);
    c.s["fam"] = "hidden-cut"; c.s["wcls"] = "light cycles";
    gen_cfg(r, c);
}

// more than 10000 tight clusters: a second round of label propagation runs on the
// clustered graph. A few vertices hang loosely in their cluster.
static void gen_twolevel(Rng& r, Case& c) {
    c.p["noshrink_n"] = 0;
    uint32_t K = r.range(10300, 12500), groups = r.range(2, 30);
    bool all3 = r.chance(1, 2);
    std::vector<uint32_t> first(K + 1, 0);
    for (uint32_t i = 0; i < K; ++i) first[i + 1] = first[i] + (all3 ? 3 : r.range(2, 4));
    uint32_t n = first[K];
    c.n = n;
    std::vector<uint32_t> perm(n);
    for (uint32_t i = 0; i < n; ++i) perm[i] = i;
    r.shuffle(perm);
    u64 heavy = r.range(20, 60), cross = r.pick({ 1, 1, 2, 5 });
    auto add = [&](uint32_t a, uint32_t b, u64 w) { if (a != b) c.e.push_back({ perm[a], perm[b], w }); };
    auto any = [&](uint32_t k) { return static_cast<uint32_t>(r.range(first[k], first[k + 1] - 1)); };
    for (uint32_t i = 0; i < K; ++i)
        for (uint32_t a = first[i]; a < first[i + 1]; ++a) for (uint32_t b = a + 1; b < first[i + 1]; ++b) add(a, b, heavy);
    for (uint32_t b = 0; b < groups; ++b) {
        uint32_t lo = static_cast<uint64_t>(b) * K / groups, hi = static_cast<uint64_t>(b + 1) * K / groups;
        for (uint32_t i = lo; i < hi; ++i) for (int q = r.range(2, 4); q > 0; --q) add(any(i), any(r.range(lo, hi - 1)), cross);
        for (uint32_t i = lo; i + 1 < hi; ++i) add(any(i), any(i + 1), cross);
        if (b) { uint32_t pb = r.range(0, b - 1), plo = static_cast<uint64_t>(pb) * K / groups, phi = static_cast<uint64_t>(pb + 1) * K / groups;
            for (ll q = r.range(1, 5); q > 0; --q) add(any(r.range(lo, hi - 1)), any(r.range(plo, phi - 1)), 1); }
    }
    c.e = oracle::simplify(c.e);
    c.s["fam"] = "two-level"; c.s["wcls"] = "heavy clusters";
    gen_cfg(r, c);
}
