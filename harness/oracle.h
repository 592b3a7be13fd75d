// oracle.h - slow, obviously-correct reference computations (independent of
// the code under test).
#pragma once
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <numeric>
#include <queue>
#include <set>
#include <vector>
#include "pbt.h"

namespace oracle {
using pbt::E;
typedef unsigned long long u64;
static const u64 INF = ~0ull >> 2;

struct DSU {
    std::vector<uint32_t> p;
    explicit DSU(uint32_t n) : p(n) { std::iota(p.begin(), p.end(), 0); }
    uint32_t f(uint32_t x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }
    bool u(uint32_t a, uint32_t b) { a = f(a); b = f(b); if (a == b) return false; p[a] = b; return true; }
};

inline std::vector<uint32_t> components(uint32_t n, const std::vector<E>& e, uint32_t* cnt = nullptr) {
    DSU d(n);
    for (auto& x : e) d.u(x.u, x.v);
    std::vector<uint32_t> id(n, ~0u), r(n);
    uint32_t k = 0;
    for (uint32_t i = 0; i < n; ++i) { uint32_t q = d.f(i); if (id[q] == ~0u) id[q] = k++; r[i] = id[q]; }
    if (cnt) *cnt = k;
    return r;
}
inline bool connected(uint32_t n, const std::vector<E>& e) { uint32_t c; components(n, e, &c); return c <= 1; }

// merge parallel edges, drop self loops, normalise u<v, sorted
inline std::vector<E> simplify(const std::vector<E>& e) {
    std::vector<E> r;
    r.reserve(e.size());
    for (auto& x : e) if (x.u != x.v) r.push_back({ std::min(x.u, x.v), std::max(x.u, x.v), x.w });
    std::sort(r.begin(), r.end(), [](const E& a, const E& b) { return a.u != b.u ? a.u < b.u : a.v < b.v; });
    size_t k = 0;
    for (size_t i = 0; i < r.size(); ++i) {
        if (k && r[k - 1].u == r[i].u && r[k - 1].v == r[i].v) r[k - 1].w += r[i].w;
        else r[k++] = r[i];
    }
    r.erase(r.begin() + k, r.end());
    return r;
}

// Stoer-Wagner on a dense matrix; n >= 2. side (optional) receives a min cut
inline u64 stoer_wagner(uint32_t n, const std::vector<E>& e, std::vector<char>* side = nullptr) {
    if (n < 2) return 0;
    std::vector<std::vector<u64> > a(n, std::vector<u64>(n, 0));
    for (auto& x : e) if (x.u != x.v) { a[x.u][x.v] += x.w; a[x.v][x.u] += x.w; }
    std::vector<std::vector<uint32_t> > co(n);
    for (uint32_t i = 0; i < n; ++i) co[i] = { i };
    std::vector<uint32_t> act(n);
    std::iota(act.begin(), act.end(), 0);
    u64 best = ~0ull;
    while (act.size() > 1) {
        std::vector<u64> w(n, 0);
        std::vector<char> in(n, 0);
        uint32_t prev = ~0u, last = ~0u;
        for (size_t it = 0; it < act.size(); ++it) {
            uint32_t sel = ~0u;
            for (auto v : act) if (!in[v] && (sel == ~0u || w[v] > w[sel])) sel = v;
            in[sel] = 1; prev = last; last = sel;
            if (it + 1 < act.size()) for (auto v : act) if (!in[v]) w[v] += a[sel][v];
        }
        if (w[last] < best) {
            best = w[last];
            if (side) { side->assign(n, 0); for (auto v : co[last]) (*side)[v] = 1; }
        }
        for (auto v : act) if (v != last && v != prev) { a[prev][v] += a[last][v]; a[v][prev] = a[prev][v]; }
        co[prev].insert(co[prev].end(), co[last].begin(), co[last].end());
        act.erase(std::find(act.begin(), act.end(), last));
    }
    return best;
}

// sparse reference for large graphs: repeated maximum adjacency orders, all edges whose
// connectivity certificate reaches the best known cut are contracted, and the last two vertices
inline u64 sparse_min_cut(uint32_t n, std::vector<E> e) {
    if (n < 2) return 0;
    e = simplify(e);
    if (!connected(n, e)) return 0;
    u64 best = ~0ull;
    while (n > 1) {
        std::vector<std::vector<std::pair<uint32_t, u64> > > adj(n);
        std::vector<u64> deg(n, 0);
        for (auto& x : e) { adj[x.u].push_back({ x.v, x.w }); adj[x.v].push_back({ x.u, x.w }); deg[x.u] += x.w; deg[x.v] += x.w; }
        for (auto d : deg) best = std::min(best, d);
        if (n == 2) break;
        DSU d(n);
        std::vector<u64> r(n, 0);
        std::vector<char> done(n, 0);
        std::priority_queue<std::pair<u64, uint32_t> > q;
        q.push({ 0, 0 });
        uint32_t last = 0, prev = 0;
        std::vector<std::pair<uint32_t, uint32_t> > heavy;
        while (!q.empty()) {
            auto [k, v] = q.top(); q.pop();
            if (done[v] || k != r[v]) continue;
            done[v] = 1; prev = last; last = v;
            for (auto& [t, w] : adj[v]) if (!done[t]) { r[t] += w; if (r[t] >= best) d.u(v, t); q.push({ r[t], t }); }
        }
        {   // edges of half the degree of an end vertex, every vertex at most once
            std::vector<char> used(n, 0);
            for (uint32_t v = 0; v < n; ++v) if (!used[v]) for (auto& [t, w] : adj[v]) if (!used[t] && 2 * w >= deg[v]) { if (d.f(v) != d.f(t)) { heavy.push_back({ v, t }); used[v] = used[t] = 1; } break; }
        }
        // only if the scan did little, as both kinds of contractions are not combined
        size_t sets = 0; for (uint32_t v = 0; v < n; ++v) sets += d.f(v) == v;
        if (n - sets < heavy.size()) { d = DSU(n); for (auto& [v, t] : heavy) d.u(v, t); }
        else d.u(last, prev);    // the cut around the last vertex is the lightest that separates the two
        std::vector<uint32_t> id(n, ~0u); uint32_t k = 0;
        for (uint32_t i = 0; i < n; ++i) { auto f = d.f(i); if (id[f] == ~0u) id[f] = k++; }
        std::vector<E> c;
        for (auto& x : e) { uint32_t a = id[d.f(x.u)], b = id[d.f(x.v)]; if (a != b) c.push_back({ a, b, x.w }); }
        e = simplify(c); n = k;
    }
    return best;
}

template <class V> inline u64 cut_weight(const std::vector<E>& e, const V& side) {
    u64 c = 0;
    for (auto& x : e) if (side[x.u] != side[x.v]) c += x.w;
    return c;
}

// vertex set over at most 192 vertices
struct Mask {
    static const uint32_t MAX = 192;
    uint64_t w[3] = { 0, 0, 0 };
    void set(uint32_t i) { w[i >> 6] |= 1ull << (i & 63); }
    void clr(uint32_t i) { w[i >> 6] &= ~(1ull << (i & 63)); }
    bool has(uint32_t i) const { return (w[i >> 6] >> (i & 63)) & 1; }
    bool empty() const { return !(w[0] | w[1] | w[2]); }
    uint32_t count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]); }
    Mask& operator|=(const Mask& o) { for (int i = 0; i < 3; ++i) w[i] |= o.w[i]; return *this; }
    bool operator==(const Mask& o) const { return w[0] == o.w[0] && w[1] == o.w[1] && w[2] == o.w[2]; }
    bool operator<(const Mask& o) const { for (int i = 2; i > 0; --i) if (w[i] != o.w[i]) return w[i] < o.w[i]; return w[0] < o.w[0]; }
    static Mask full(uint32_t n) { Mask m; for (uint32_t i = 0; i < n; ++i) m.set(i); return m; }
    Mask complement(uint32_t n) const { Mask f = full(n); for (int i = 0; i < 3; ++i) f.w[i] &= ~w[i]; return f; }
};

// all minimum cuts of a connected graph with n <= 20 as sets not containing vertex 0
inline u64 enum_min_cuts(uint32_t n, const std::vector<E>& e0, std::set<Mask>* out) {
    auto e = simplify(e0);
    // Gray-code enumeration over vertices 1..n-1
    std::vector<std::vector<std::pair<uint32_t, u64> > > adj(n);
    for (auto& x : e) { adj[x.u].push_back({ x.v, x.w }); adj[x.v].push_back({ x.u, x.w }); }
    u64 best = ~0ull, cur = 0;
    uint32_t mask = 0;
    std::vector<uint32_t> cuts;
    out->clear();
    for (uint64_t g = 1; g < (1ull << (n - 1)); ++g) {
        uint32_t v = __builtin_ctzll(g) + 1;
        bool was = (mask >> v) & 1;
        for (auto& [t, w] : adj[v]) {
            bool same = (((mask >> t) & 1) != 0) == was;
            if (same) cur += w; else cur -= w;
        }
        mask ^= 1u << v;
        if (cur < best) { best = cur; cuts.clear(); }
        if (cur == best) cuts.push_back(mask);
    }
    for (auto m : cuts) { Mask k; k.w[0] = m; out->insert(k); }
    return best;
}

// Dinic max flow on undirected graph with u64 capacities
struct Dinic {
    struct A { uint32_t to; u64 c; };
    std::vector<A> a;
    std::vector<std::vector<uint32_t> > g;
    std::vector<int> lvl;
    std::vector<size_t> it;
    explicit Dinic(uint32_t n) : g(n), lvl(n), it(n) { }
    void add(uint32_t u, uint32_t v, u64 c, u64 rc) {
        g[u].push_back(a.size()); a.push_back({ v, c });
        g[v].push_back(a.size()); a.push_back({ u, rc });
    }
    bool bfs(uint32_t s, uint32_t t) {
        std::fill(lvl.begin(), lvl.end(), -1);
        std::queue<uint32_t> q; q.push(s); lvl[s] = 0;
        while (!q.empty()) { auto x = q.front(); q.pop(); for (auto i : g[x]) if (a[i].c && lvl[a[i].to] < 0) { lvl[a[i].to] = lvl[x] + 1; q.push(a[i].to); } }
        return lvl[t] >= 0;
    }
    u64 dfs(uint32_t x, uint32_t t, u64 f) {
        if (x == t) return f;
        u64 used = 0;
        for (; it[x] < g[x].size(); ++it[x]) {
            auto i = g[x][it[x]];
            if (a[i].c && lvl[a[i].to] == lvl[x] + 1) {
                u64 d = dfs(a[i].to, t, std::min(f - used, a[i].c));
                if (d) { a[i].c -= d; a[i ^ 1].c += d; used += d; if (used == f) return used; }
            }
        }
        return used;
    }
    u64 run(uint32_t s, uint32_t t) {
        u64 f = 0;
        while (bfs(s, t)) { std::fill(it.begin(), it.end(), 0); f += dfs(s, t, INF); }
        return f;
    }
    std::vector<char> source_side(uint32_t s) {
        std::vector<char> r(g.size(), 0);
        std::queue<uint32_t> q; q.push(s); r[s] = 1;
        while (!q.empty()) { auto x = q.front(); q.pop(); for (auto i : g[x]) if (a[i].c && !r[a[i].to]) { r[a[i].to] = 1; q.push(a[i].to); } }
        return r;
    }
};
// max flow from src to the set snk
inline u64 max_flow(uint32_t n, const std::vector<E>& e, uint32_t src, const std::vector<uint32_t>& snk) {
    Dinic d(n + 1);
    for (auto& x : e) if (x.u != x.v) d.add(x.u, x.v, x.w, x.w);
    for (auto t : snk) d.add(t, n, INF, 0);
    return d.run(src, n);
}
// minimum cut by n-1 max flows (fast enough for sparse graphs up to a few hundred)
inline u64 min_cut_flow(uint32_t n, const std::vector<E>& e) {
    u64 best = ~0ull;
    for (uint32_t v = 1; v < n; ++v) best = std::min(best, max_flow(n, e, 0, { v }));
    return n < 2 ? 0 : best;
}

// all minimum cuts of a connected graph with n <= 192, sets not containing vertex 0:
// every cut is found once, at the first vertex (in index order) on the other side
// than vertex 0, as a closed set of the residual graph of a maximum flow
inline u64 all_min_cuts(uint32_t n, const std::vector<E>& e0, std::set<Mask>* out) {
    if (n <= 13) return enum_min_cuts(n, e0, out);
    auto e = simplify(e0);
    u64 lam = stoer_wagner(n, e);
    out->clear();
    for (uint32_t t = 1; t < n; ++t) {
        // vertices 0..t-1 are the source, t the sink
        Dinic d(n);
        auto id = [&](uint32_t v) { return v < t ? 0u : v; };
        for (auto& x : e) if (id(x.u) != id(x.v)) d.add(id(x.u), id(x.v), x.w, x.w);
        if (d.run(0, t) != lam) continue;
        // source side S is closed under residual arcs: x in S and residual(x,y) => y in S.
        std::vector<std::vector<uint32_t> > res(n), rev(n);
        for (uint32_t v = 0; v < n; ++v) for (auto i : d.g[v]) if (d.a[i].c) { res[v].push_back(d.a[i].to); rev[d.a[i].to].push_back(v); }
        std::vector<int> st(n, 0);   // 0 open, 1 source side, 2 sink side
        for (uint32_t v = 1; v < t; ++v) st[v] = 1;
        auto force = [&](uint32_t v, int s, std::vector<uint32_t>* ch) {
            // returns false on contradiction
            std::vector<uint32_t> q { v };
            if (st[v] && st[v] != s) return false;
            if (!st[v]) { st[v] = s; ch->push_back(v); }
            while (!q.empty()) {
                auto x = q.back(); q.pop_back();
                for (auto y : (s == 1 ? res : rev)[x]) {
                    if (st[y] == s) continue;
                    if (st[y]) return false;
                    st[y] = s; ch->push_back(y); q.push_back(y);
                }
            }
            return true;
        };
        std::vector<uint32_t> base;
        st[0] = 1;
        { std::vector<uint32_t> ch; bool a = true; for (auto y : std::vector<uint32_t>(res[0])) a = a && force(y, 1, &ch); a = a && force(t, 2, &ch); if (!a) continue; }
        std::function<void(uint32_t)> rec = [&](uint32_t v) {
            while (v < n && st[v]) ++v;
            if (v == n) { Mask m; for (uint32_t i = t; i < n; ++i) if (st[i] == 2) m.set(i); out->insert(m); return; }
            for (int s = 1; s <= 2; ++s) {
                std::vector<uint32_t> ch;
                if (force(v, s, &ch)) rec(v + 1);
                for (auto y : ch) st[y] = 0;
            }
        };
        rec(1);
    }
    return lam;
}

// optimum multiterminal cut; term[v] = block or -1. Small instances: branch over
// non-terminal vertices with incremental weight bound.
inline u64 multiterminal(uint32_t n, const std::vector<E>& e0, const std::vector<int>& term, int k, std::vector<int>* sol = nullptr) {
    auto e = simplify(e0);
    std::vector<std::vector<std::pair<uint32_t, u64> > > adj(n);
    for (auto& x : e) { adj[x.u].push_back({ x.v, x.w }); adj[x.v].push_back({ x.u, x.w }); }
    std::vector<int> blk(term);
    std::vector<uint32_t> free_;
    u64 base = 0;
    for (auto& x : e) if (term[x.u] >= 0 && term[x.v] >= 0 && term[x.u] != term[x.v]) base += x.w;
    // order free vertices: BFS from terminals for stronger pruning
    std::vector<char> seen(n, 0);
    std::queue<uint32_t> q;
    for (uint32_t i = 0; i < n; ++i) if (term[i] >= 0) { seen[i] = 1; q.push(i); }
    while (!q.empty()) { auto x = q.front(); q.pop(); if (term[x] < 0) free_.push_back(x); for (auto& [t, w] : adj[x]) { (void)w; if (!seen[t]) { seen[t] = 1; q.push(t); } } }
    // unreachable vertices get block 0 at no cost w.r.t. terminals
    for (uint32_t i = 0; i < n; ++i) if (!seen[i]) blk[i] = 0;
    u64 best = ~0ull;
    std::vector<int> bestblk;
    std::function<void(size_t, u64)> rec = [&](size_t i, u64 cur) {
        if (cur >= best) return;
        if (i == free_.size()) { best = cur; bestblk = blk; return; }
        uint32_t v = free_[i];
        std::vector<u64> to(k, 0);
        u64 tot = 0;
        for (auto& [t, w] : adj[v]) if (blk[t] >= 0) { to[blk[t]] += w; tot += w; }
        std::vector<int> ord(k);
        std::iota(ord.begin(), ord.end(), 0);
        std::sort(ord.begin(), ord.end(), [&](int a, int b) { return to[a] > to[b]; });
        for (int b : ord) {
            if (to[b] == 0 && b != ord[0]) {
                // blocks without adjacent assigned vertex are only useful through later vertices
            }
            blk[v] = b;
            rec(i + 1, cur + tot - to[b]);
        }
        blk[v] = -1;
    };
    rec(0, base);
    if (sol) *sol = bestblk;
    return best;
}

// core numbers by naive peeling; weighted uses sum of incident weights
inline std::vector<u64> core_numbers(uint32_t n, const std::vector<E>& e, bool weighted) {
    std::vector<u64> deg(n, 0), core(n, 0);
    std::vector<std::vector<std::pair<uint32_t, u64> > > adj(n);
    for (auto& x : e) { u64 w = weighted ? x.w : 1; adj[x.u].push_back({ x.v, w }); adj[x.v].push_back({ x.u, w }); deg[x.u] += w; deg[x.v] += w; }
    std::vector<char> gone(n, 0);
    u64 cur = 0;
    for (uint32_t i = 0; i < n; ++i) {
        uint32_t b = ~0u;
        for (uint32_t v = 0; v < n; ++v) if (!gone[v] && (b == ~0u || deg[v] < deg[b])) b = v;
        cur = std::max(cur, deg[b]);
        core[b] = cur; gone[b] = 1;
        for (auto& [t, w] : adj[b]) if (!gone[t]) deg[t] -= w;
    }
    return core;
}
}  // namespace oracle
