// oracle_mtc.h - independent reference for multiterminal cuts: isolating cuts
// (Dahlhaus et al.) for bounds and reduction, then branching on one vertex.
#pragma once
#include "oracle.h"
namespace oracle {
struct Mtc {
    uint32_t n = 0; int k = 0;
    std::vector<E> e;
    std::vector<std::vector<std::pair<uint32_t, u64> > > adj;
    u64 best = ~0ull; std::vector<int> bestblk;
    long nodes = 0, limit = 20000; bool gave_up = false;
    u64 weight(const std::vector<int>& b) const { u64 r = 0; for (auto& x : e) if (b[x.u] != b[x.v]) r += x.w; return r; }
    // plain Edmonds-Karp/Dinic on the contracted view: label >= 0 vertices of one
    // block are one node. Returns the value and the maximum-volume source side.
    u64 iso(const std::vector<int>& blk, int t, std::vector<char>* in) const {
        uint32_t S = n, T = n + 1, N = n + 2;
        auto node = [&](uint32_t v) { return blk[v] < 0 ? v : blk[v] == t ? S : T; };
        struct A { uint32_t to; u64 c; uint32_t rev; };
        std::vector<std::vector<A> > g(N);
        auto add = [&](uint32_t a, uint32_t b, u64 w) { g[a].push_back({ b, w, static_cast<uint32_t>(g[b].size()) }); g[b].push_back({ a, w, static_cast<uint32_t>(g[a].size() - 1) }); };
        for (auto& x : e) { auto a = node(x.u), b = node(x.v); if (a != b) add(a, b, x.w); }
        u64 flow = 0;
        std::vector<int> lvl; std::vector<size_t> it;
        std::function<u64(uint32_t, u64)> dfs = [&](uint32_t v, u64 f) -> u64 {
            if (v == T) return f;
            for (; it[v] < g[v].size(); ++it[v]) { auto& a = g[v][it[v]]; if (a.c && lvl[a.to] == lvl[v] + 1) { u64 d = dfs(a.to, std::min(f, a.c)); if (d) { a.c -= d; g[a.to][a.rev].c += d; return d; } } }
            return 0;
        };
        for (;;) {
            lvl.assign(N, -1); lvl[S] = 0; std::queue<uint32_t> q; q.push(S);
            while (!q.empty()) { auto v = q.front(); q.pop(); for (auto& a : g[v]) if (a.c && lvl[a.to] < 0) { lvl[a.to] = lvl[v] + 1; q.push(a.to); } }
            if (lvl[T] < 0) break;
            it.assign(N, 0); u64 d; while ((d = dfs(S, ~0ull))) flow += d;
        }
        if (in) {
            std::vector<char> r(N, 0); r[T] = 1; std::queue<uint32_t> q; q.push(T);
            while (!q.empty()) { auto v = q.front(); q.pop(); for (auto& a : g[v]) if (!r[a.to] && g[a.to][a.rev].c) { r[a.to] = 1; q.push(a.to); } }
            in->assign(n, 0); for (uint32_t v = 0; v < n; ++v) (*in)[v] = !r[node(v)];
        }
        return flow;
    }
    void rec(std::vector<int> blk) {
        if (gave_up) return;
        if (++nodes > limit) { gave_up = true; return; }
        std::vector<u64> val(k, 0); u64 sum = 0; int arg = 0;
        for (int t = 0; t < k; ++t) {
            std::vector<char> in; val[t] = iso(blk, t, &in);
            for (uint32_t v = 0; v < n; ++v) if (blk[v] < 0 && in[v]) blk[v] = t;
            sum += val[t]; if (val[t] > val[arg]) arg = t;
        }
        if ((sum + 1) / 2 >= best) return;
        auto c = blk; for (auto& x : c) if (x < 0) x = arg;
        u64 w = weight(c); if (w < best) { best = w; bestblk = c; }
        if ((sum + 1) / 2 >= best) return;
        uint32_t v = ~0u; u64 bw = 0;
        for (uint32_t i = 0; i < n; ++i) if (blk[i] < 0) { u64 s = 0; for (auto& [t, x] : adj[i]) if (blk[t] >= 0) s += x; if (v == ~0u || s > bw) { v = i; bw = s; } }
        if (v == ~0u) return;
        std::vector<u64> to(k, 0); for (auto& [t, x] : adj[v]) if (blk[t] >= 0) to[blk[t]] += x;
        std::vector<int> ord(k); std::iota(ord.begin(), ord.end(), 0); std::sort(ord.begin(), ord.end(), [&](int a, int b) { return to[a] > to[b]; });
        for (int b : ord) { blk[v] = b; rec(blk); }
    }
    // lab[v] in [0,k) or -1; blocks without any vertex are dropped by the caller
    bool solve(uint32_t n_, const std::vector<E>& e_, const std::vector<int>& lab, int k_) {
        n = n_; k = k_; e = simplify(e_); adj.assign(n, {});
        for (auto& x : e) { adj[x.u].push_back({ x.v, x.w }); adj[x.v].push_back({ x.u, x.w }); }
        best = ~0ull; nodes = 0; gave_up = false;
        if (k < 2) { best = 0; bestblk.assign(n, 0); return true; }
        rec(lab);
        return !gave_up;
    }
};
}  // namespace oracle
