// small helpers for demonstrations: random graphs and an independent minimum cut
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <vector>
#include "common/configuration.h"
#include "common/definitions.h"
#include "data_structure/graph_access.h"
#include "data_structure/mutable_graph.h"
#include "tools/random_functions.h"
struct DE { uint32_t u, v; uint64_t w; };
struct DRng { uint64_t s; explicit DRng(uint64_t x) : s(x * 2654435761u + 88172645463325252ull) {} uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } uint64_t in(uint64_t a, uint64_t b) { return a + next() % (b - a + 1); } };
// connected random graph
inline std::vector<DE> rgraph(DRng& r, uint32_t n, uint32_t extra, uint64_t maxw) {
    std::map<std::pair<uint32_t, uint32_t>, uint64_t> m;
    for (uint32_t i = 1; i < n; ++i) m[{ static_cast<uint32_t>(r.in(0, i - 1)), i }] = r.in(1, maxw);
    for (uint32_t k = 0; k < extra; ++k) { uint32_t a = r.in(0, n - 1), b = r.in(0, n - 1); if (a != b) m[{ std::min(a, b), std::max(a, b) }] = r.in(1, maxw); }
    std::vector<DE> e; for (auto& [k, w] : m) e.push_back({ k.first, k.second, w });
    return e;
}
inline graphAccessPtr stat(uint32_t n, const std::vector<DE>& e) {
    std::vector<std::vector<std::pair<uint32_t, uint64_t> > > a(n);
    for (auto& x : e) { a[x.u].push_back({ x.v, x.w }); a[x.v].push_back({ x.u, x.w }); }
    auto G = std::make_shared<graph_access>();
    G->start_construction(n, 2 * e.size());
    for (uint32_t i = 0; i < n; ++i) { NodeID v = G->new_node(); for (auto& [t, w] : a[i]) { EdgeID id = G->new_edge(v, t); G->setEdgeWeight(id, w); } }
    G->finish_construction(); G->computeDegrees();
    return G;
}
inline mutableGraphPtr mut(uint32_t n, const std::vector<DE>& e) {
    auto G = std::make_shared<mutable_graph>();
    G->start_construction(n);
    for (auto& x : e) G->new_edge_order(x.u, x.v, x.w);
    G->finish_construction();
    return G;
}
// Stoer-Wagner
inline uint64_t mincut(uint32_t n, const std::vector<DE>& e) {
    std::vector<std::vector<uint64_t> > w(n, std::vector<uint64_t>(n, 0));
    for (auto& x : e) { w[x.u][x.v] += x.w; w[x.v][x.u] += x.w; }
    std::vector<int> v(n); for (uint32_t i = 0; i < n; ++i) v[i] = i;
    uint64_t best = ~0ull;
    while (v.size() > 1) {
        std::vector<uint64_t> d(v.size(), 0); std::vector<char> in(v.size(), 0); int p = -1, q = -1;
        for (size_t k = 0; k < v.size(); ++k) { int s = -1; for (size_t i = 0; i < v.size(); ++i) if (!in[i] && (s < 0 || d[i] > d[s])) s = i; in[s] = 1; p = q; q = s; if (k + 1 < v.size()) for (size_t i = 0; i < v.size(); ++i) if (!in[i]) d[i] += w[v[s]][v[i]]; }
        best = std::min(best, d[q]);
        for (size_t i = 0; i < v.size(); ++i) { w[v[p]][v[i]] += w[v[q]][v[i]]; w[v[i]][v[p]] = w[v[p]][v[i]]; }
        w[v[p]][v[p]] = 0;
        v.erase(v.begin() + q);
    }
    return best;
}
inline void bad(const char* what, uint64_t got, uint64_t want) { printf("%s: got %llu, expected %llu\n", what, (unsigned long long)got, (unsigned long long)want); exit(1); }
