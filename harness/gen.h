// gen.h - structured graph generators.
#pragma once
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "oracle.h"
#include "pbt.h"

namespace gen {
using pbt::Case;
using pbt::E;
using pbt::Rng;
using pbt::ll;

struct GOpt {
    uint32_t nmin = 2, nmax = 12;
    bool multi = false;          // allow parallel edges
    bool connected = false;      // force connectivity
    int disc_pct = 8;            // percentage of deliberately disconnected graphs
    int wmax_class = 6;          // largest weight class used
    int planted_pct = 30;        // percentage of graphs with a planted light cut
    uint64_t mmax = 1ull << 40;  // soft cap on edges for dense families
};

inline const char* weight_class_name(int c) {
    static const char* n[] = { "unit", "1-2", "1-4", "1-10", "1-100", "mixed-heavy", "mid(2^14..2^20)", "huge(2^31..2^34)" };
    return n[c];
}
inline uint64_t weight(Rng& r, int cls) {
    switch (cls) {
    case 0: return 1;
    case 1: return r.range(1, 2);
    case 2: return r.range(1, 4);
    case 3: return r.range(1, 10);
    case 4: return r.range(1, 100);
    case 5: return r.chance(1, 4) ? r.range(50, 20000) : r.range(1, 5);
    case 6: return r.range(1 << 14, 1 << 20);
    default: return r.chance(1, 5) ? r.range(1, 100) : (1ull << r.range(31, 33)) + r.range(0, 5);
    }
}

// all weights times one large factor: minimum cuts stay the same, values need more than 32 bits
inline void scale(Rng& r, Case& c, int pct) {
    if (!r.chance(pct, 100)) return;
    uint64_t f = r.chance(1, 3) ? 1ull << r.range(1, 34) : r.range(2, 1ull << r.range(8, 34));
    for (auto& e : c.e) e.w = std::min<uint64_t>(e.w * f, 1ull << 48);
    c.s["scaled"] = "yes";
}

// Generates the edges of a simple graph (unless multi); vertices are randomly
// renumbered; edges in random order.
inline void graph(Rng& r, Case& c, const GOpt& o) {
    uint32_t n = r.range(o.nmin, o.nmax);
    if (r.chance(1, 6)) n = o.nmin + (n - o.nmin) / 2;
    if (n < 5 && o.nmax > 6 && r.chance(2, 3)) n = r.range(5, o.nmax);
    std::vector<std::pair<uint32_t, uint32_t> > pr;
    std::set<std::pair<uint32_t, uint32_t> > have;
    auto add = [&](uint32_t a, uint32_t b) {
        if (a == b || a >= n || b >= n) return;
        if (a > b) std::swap(a, b);
        if (!have.insert({ a, b }).second && !o.multi) return;
        pr.push_back({ a, b });
    };
    auto addr = [&](uint32_t lo, uint32_t hi, double p) {   // random on [lo,hi)
        double cnt = p * double(hi - lo) * (hi - lo - 1) / 2;
        if (hi - lo < 200) {
            for (uint32_t i = lo; i < hi; ++i) for (uint32_t j = i + 1; j < hi; ++j) if (r.unit() < p) add(i, j);
        } else {
            for (uint64_t k = 0; k < cnt && pr.size() < o.mmax; ++k) add(r.range(lo, hi - 1), r.range(lo, hi - 1));
        }
    };
    auto tree = [&](uint32_t lo, uint32_t hi, int kind) {
        for (uint32_t i = lo + 1; i < hi; ++i) {
            if (kind == 0) add(r.range(lo, i - 1), i);
            else if (kind == 1) add(i - 1, i);
            else if (kind == 2) add(lo, i);
            else add(lo + (i - lo - 1) / 2, i);
        }
    };
    int fam = r.range(0, 15);
    auto lim = [&](double p) { double mx = double(n) * (n - 1) / 2; return mx * p > double(o.mmax) ? double(o.mmax) / mx : p; };
    const char* nm = "";
    switch (fam) {
    case 0: nm = "gnp"; addr(0, n, lim(r.unit())); break;
    case 1: nm = "gnp-dense"; addr(0, n, lim(0.6 + 0.4 * r.unit())); break;
    case 2: nm = "tree+"; tree(0, n, r.range(0, 3)); for (ll k = r.range(0, n); k > 0; --k) add(r.range(0, n - 1), r.range(0, n - 1)); break;
    case 3: { nm = "cycle+"; for (uint32_t i = 0; i < n; ++i) add(i, (i + 1) % n); for (ll k = r.range(0, 1 + n / 3); k > 0; --k) add(r.range(0, n - 1), r.range(0, n - 1)); break; }
    case 4: { nm = "two-clusters"; uint32_t h = std::max<uint32_t>(1, r.range(1, n - 1)); tree(0, h, 0); tree(h, n, 0); addr(0, h, lim(0.5 + 0.5 * r.unit())); addr(h, n, lim(0.5 + 0.5 * r.unit())); if (h < n) for (ll k = r.range(1, 3); k > 0; --k) add(r.range(0, h - 1), r.range(h, n - 1)); break; }
    case 5: { nm = "grid"; uint32_t w = std::max<uint32_t>(1, r.range(1, std::max<uint32_t>(1, n / 2))); bool tor = r.chance(1, 2);
              for (uint32_t i = 0; i < n; ++i) { if ((i % w) + 1 < w) add(i, i + 1); else if (tor && w > 2) add(i, i + 1 - w); add(i, i + w); if (tor && i < w) { uint32_t last = i + ((n - 1 - i) / w) * w; add(i, last); } } break; }
    case 6: { nm = "cycle-of-clusters"; uint32_t k = r.range(2, std::max<uint32_t>(2, std::min<uint32_t>(n, 6))); std::vector<uint32_t> cut { 0 }; for (uint32_t i = 1; i < k; ++i) cut.push_back(i * n / k); cut.push_back(n);
              for (uint32_t i = 0; i < k; ++i) { if (cut[i] >= cut[i + 1]) continue; tree(cut[i], cut[i + 1], 0); addr(cut[i], cut[i + 1], lim(0.8)); uint32_t j = (i + 1) % k; if (cut[j] < cut[j + 1]) add(r.range(cut[i], cut[i + 1] - 1), r.range(cut[j], cut[j + 1] - 1)); } break; }
    case 7: { nm = "tree-of-clusters"; uint32_t k = r.range(2, std::max<uint32_t>(2, std::min<uint32_t>(n, 6))); std::vector<uint32_t> cut { 0 }; for (uint32_t i = 1; i < k; ++i) cut.push_back(i * n / k); cut.push_back(n);
              for (uint32_t i = 0; i < k; ++i) { if (cut[i] >= cut[i + 1]) continue; tree(cut[i], cut[i + 1], 0); addr(cut[i], cut[i + 1], lim(0.8)); if (i) { uint32_t j = r.range(0, i - 1); for (ll q = r.range(1, 2); q > 0; --q) if (cut[j] < cut[j + 1]) add(r.range(cut[i], cut[i + 1] - 1), r.range(cut[j], cut[j + 1] - 1)); } } break; }
    case 8: nm = "star+"; tree(0, n, 2); for (ll k = r.range(0, n); k > 0; --k) add(r.range(0, n - 1), r.range(0, n - 1)); break;
    case 9: { nm = "bipartite"; uint32_t h = std::max<uint32_t>(1, r.range(1, n - 1)); double p = lim(0.4 + 0.6 * r.unit()); if (n < 300) { for (uint32_t i = 0; i < h; ++i) for (uint32_t j = h; j < n; ++j) if (r.unit() < p) add(i, j); } else { for (uint32_t k = 0; k < 4 * n; ++k) add(r.range(0, h - 1), r.range(h, n - 1)); } break; }
    case 10: { nm = "wheel"; for (uint32_t i = 1; i < n; ++i) { add(0, i); add(i, i + 1 < n ? i + 1 : 1); } break; }
    case 11: { nm = "cactus-like"; // random tree of cycles
               uint32_t used = 1; while (used < n) { uint32_t a = r.range(0, used - 1); uint32_t len = r.range(1, 4); uint32_t prev = a; for (uint32_t i = 0; i < len && used < n; ++i) { add(prev, used); prev = used++; } if (len > 1 || o.multi) add(prev, a); } break; }
    case 12: { nm = "ladder"; for (uint32_t i = 0; i + 2 < n; ++i) add(i, i + 2); for (uint32_t i = 0; i + 1 < n; i += 2) add(i, i + 1); break; }
    case 13: { nm = "regular"; uint32_t d = r.range(2, 5); for (uint32_t k = 1; k <= d / 2 + 1; ++k) for (uint32_t i = 0; i < n; ++i) add(i, (i + k) % n); break; }
    case 14: { nm = "pref-attach"; for (uint32_t i = 1; i < n; ++i) { uint32_t d = r.range(1, 3); for (uint32_t k = 0; k < d; ++k) { if (pr.empty() || r.chance(1, 3)) add(i, r.range(0, i - 1)); else { auto& q = pr[r.next() % pr.size()]; uint32_t t = r.chance(1, 2) ? q.first : q.second; add(i, t); } } } break; }
    default: { nm = "clique+pendant"; uint32_t h = std::max<uint32_t>(1, r.range(1, n)); addr(0, h, lim(1.0)); for (uint32_t i = h; i < n; ++i) for (ll q = r.range(1, 3); q > 0; --q) add(r.range(0, i - 1), i); break; }
    }
    if (o.multi) for (ll k = r.range(0, 3); k > 0 && !pr.empty(); --k) { auto q = pr[r.next() % pr.size()]; pr.push_back(q); }
    bool disc = !o.connected && r.chance(o.disc_pct, 100);
    c.n = n;
    int cls = r.range(0, o.wmax_class);
    if (r.chance(1, 3)) cls = std::min(cls, 2);
    // per-cluster heavier interior: makes the planted cut the minimum
    bool boost = (fam == 4 || fam == 6 || fam == 7) && r.chance(1, 2);
    std::vector<uint32_t> perm(n);
    for (uint32_t i = 0; i < n; ++i) perm[i] = i;
    r.shuffle(perm);
    c.e.clear();
    for (auto& q : pr) {
        uint64_t w = weight(r, cls);
        if (boost && cls < 5) w *= r.range(1, 3);
        c.e.push_back({ perm[q.first], perm[q.second], w });
    }
    c.s["planted"] = "no";
    if (n >= 4 && r.chance(o.planted_pct, 100) && !c.e.empty()) {
        // grow a side, thin out and lighten the crossing edges, strengthen the rest
        c.s["planted"] = "yes";
        std::vector<char> in(n, 0);
        uint32_t want = r.range(2, n - 2), have_n = 1;
        in[r.range(0, n - 1)] = 1;
        for (int guard = 0; guard < 50 && have_n < want; ++guard)
            for (auto& x : c.e) if (have_n < want && in[x.u] != in[x.v] && r.chance(1, 2)) { in[x.u] = in[x.v] = 1; ++have_n; }
        uint64_t f = cls >= 5 ? 1 : r.range(2, 6);
        std::vector<E> keep;
        for (auto& x : c.e) {
            if (in[x.u] != in[x.v]) { if (r.chance(1, 2)) continue; x.w = cls >= 5 ? x.w : weight(r, std::min(cls, 1)); }
            else x.w *= f;
            keep.push_back(x);
        }
        c.e = keep;
    }
    if (!disc) {
        // connect components (keeps the family shape otherwise) in most cases
        if (o.connected || r.chance(9, 10)) {
            uint32_t k; auto comp = oracle::components(n, c.e, &k);
            if (k > 1) {
                std::vector<uint32_t> rep(k, ~0u);
                std::vector<uint32_t> order(n);
                for (uint32_t i = 0; i < n; ++i) order[i] = i;
                r.shuffle(order);
                for (auto v : order) if (rep[comp[v]] == ~0u) rep[comp[v]] = v;
                for (uint32_t i = 1; i < k; ++i) c.e.push_back({ rep[r.range(0, i - 1)], rep[i], weight(r, cls) });
            }
        }
    } else if (n >= 2) {
        std::vector<char> side(n);
        for (uint32_t i = 0; i < n; ++i) side[i] = r.chance(1, 2);
        std::vector<E> f;
        for (auto& x : c.e) if (side[x.u] == side[x.v]) f.push_back(x);
        c.e = f;
    }
    r.shuffle(c.e);
    for (auto& x : c.e) if (r.chance(1, 2)) std::swap(x.u, x.v);
    c.s["fam"] = nm;
    c.s["wcls"] = weight_class_name(cls);
}
inline void describe(const Case& c, pbt::Ctx& x) {
    if (!c.S("fam").empty()) x.label("family:" + c.S("fam"));
    if (!c.S("wcls").empty()) x.label("weights:" + c.S("wcls"));
    if (c.S("planted") == "yes") x.label("planted light cut");
    x.label(c.n <= 4 ? "n<=4" : c.n <= 12 ? "n5-12" : c.n <= 50 ? "n13-50" : c.n <= 200 ? "n51-200" : "n>200");
}
// large graphs that are described by a few numbers only (n, gf, gd, gw, gs), so that a case
// stays small. Families: random, clusters joined by few edges, torus, circulant with chords,
// ring of cliques, preferential attachment
inline void big(Rng& r, Case& c, uint32_t lo, uint32_t hi) {
    c.n = r.range(lo, hi);
    c.p["gf"] = r.pick({ 0, 0, 1, 1, 2, 3, 4, 4, 5 });
    if (c.p["gf"] == 2 || c.p["gf"] == 3) c.n = r.range(std::min(lo, 400u), std::min(hi, 2500u));   // contracts slowly
    c.p["gd"] = r.range(3, 12); c.p["gw"] = r.pick({ 1, 1, 2, 5, 40 }); c.p["gs"] = r.range(0, 1000000); c.p["gk"] = r.range(2, 30); c.p["noshrink_n"] = 1;
}
inline std::vector<pbt::E> big_edges(const Case& c) {
    Rng r(c.P("gs") * 31 + c.n);
    std::vector<pbt::E> e;
    uint32_t n = c.n, d = std::max<ll>(2, c.P("gd")), k = std::max<ll>(2, std::min<ll>(c.P("gk"), n / 4));
    std::vector<uint32_t> p(n);
    for (uint32_t i = 0; i < n; ++i) p[i] = i;
    r.shuffle(p);
    uint64_t wm = std::max<ll>(1, c.P("gw"));
    auto add = [&](uint32_t a, uint32_t b, uint64_t w = 0) { a %= n; b %= n; if (a != b) e.push_back({ p[a], p[b], w ? w : static_cast<uint64_t>(r.range(1, wm)) }); };
    switch (c.P("gf") % 6) {
    case 0: { uint32_t s = r.chance(1, 2) ? n / 2 : r.range(3, n / 2), q = (d + 1) / 2 + 1;   // two random parts
            for (uint32_t i = 0; i < n; ++i) for (uint32_t j = 0; j < q; ++j) add(i, i < s ? r.range(0, s - 1) : r.range(s, n - 1));
            for (uint32_t j = r.range(0, d); j > 0; --j) add(r.range(0, s - 1), r.range(s, n - 1), 1); break; }
    case 1: for (uint32_t b = 0; b < k; ++b) {
            uint32_t l = static_cast<uint64_t>(b) * n / k, h = static_cast<uint64_t>(b + 1) * n / k, s = h - l;
            for (uint32_t i = 0; i < s; ++i) for (uint32_t q = 0; q < (d + 1) / 2; ++q) add(l + i, l + (q == 0 ? (i + 1) % s : r.range(0, s - 1)));
            if (b) { uint32_t o = r.range(0, b - 1); for (ll q = r.range(1, d - 1); q > 0; --q) add(r.range(l, h - 1), r.range(static_cast<uint64_t>(o) * n / k, static_cast<uint64_t>(o + 1) * n / k - 1), 1); }
        } break;
    case 2: { uint32_t w = std::max(3u, static_cast<uint32_t>(std::sqrt(n))); for (uint32_t i = 0; i < n; ++i) { add(i, i + 1); add(i, i + w); } break; }
    case 3: for (uint32_t i = 0; i < n; ++i) { for (uint32_t q = 1; q <= d / 2; ++q) add(i, i + q); if (r.chance(1, 8)) add(i, r.range(0, n - 1)); } break;
    case 4: { uint32_t s = std::max(3u, std::min(2 * d, n / 3)); for (uint32_t i = 0; i + 1 < n; ++i) { uint32_t l = i / s * s; for (uint32_t j = i + 1; j < std::min(n, l + s); ++j) add(i, j); if (i + s >= n || i % s == 0) add(i, i + s, 1); } add(n - 1, 0, 1); add(n - 1, n - 2, 2); break; }
    default: for (uint32_t i = 1; i < n; ++i) for (uint32_t q = 0; q < (d + 1) / 2; ++q) { uint32_t t = r.range(0, i - 1); if (!e.empty() && r.chance(1, 2)) { uint32_t x = r.range(0, e.size() - 1); e.push_back({ p[i], e[x].u == p[i] ? e[x].v : e[x].u, static_cast<uint64_t>(r.range(1, wm)) }); if (e.back().u == e.back().v) e.pop_back(); } else add(i, t); }
    }
    std::map<std::pair<uint32_t, uint32_t>, uint64_t> m;
    for (auto& x : e) m[{ std::min(x.u, x.v), std::max(x.u, x.v) }] += x.w;
    e.clear();
    for (auto& [q, w] : m) e.push_back({ q.first, q.second, w });
    r.shuffle(e);
    return e;
}
inline const char* big_name(const Case& c) { static const char* nm[] = { "random", "clusters", "torus", "circulant", "ring of cliques", "preferential attachment" }; return nm[c.P("gf") % 6]; }
}  // namespace gen
