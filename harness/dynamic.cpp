// C09/C10 fully dynamic minimum cut: histories of insertions and deletions against a model
#include "algorithms/global_mincut/algorithms.h"
#include "mincut_common.h"
#ifdef PARALLEL
#include "parallel/algorithm/parallel_cactus.h"
#include "parallel/algorithm/exact_parallel_minimum_cut.h"
#endif
#include "algorithms/global_mincut/dynamic/dynamic_mincut.h"
using oracle::Mask;

static const char* ES[] = { "heavy", "heavy_weighted", "heavy_vertex", "central", "random", "" };
// weights of all edges between a pair of vertices (temporal graphs insert the same pair again)
typedef std::map<std::pair<uint32_t, uint32_t>, std::vector<u64> > Model;
static std::vector<E> edges(const Model& m) { std::vector<E> e; for (auto& [k, ws] : m) for (u64 w : ws) e.push_back({ k.first, k.second, w }); return e; }
static void pop(Model& m, std::pair<uint32_t, uint32_t> k) { auto i = m.find(k); if (i == m.end()) return; i->second.pop_back(); if (i->second.empty()) m.erase(i); }
static std::pair<uint32_t, uint32_t> key(uint32_t a, uint32_t b) { return { std::min(a, b), std::max(a, b) }; }

// operation: {0, s, t, w} insert, {1, s, t, 0} delete, {2, 0, 1, k} initialise the same object
// again: with its current graph (k = 0), an equal new graph (1) or the first graph of the case (2); +8: with a new object, +16: after setting
// the seed again; {3, s, t, k} a flow computation on the maintained graph
static void dcfg(Rng& r, Case& c) {
    c.p["es"] = r.range(0, 5);
    c.p["pq"] = r.range(0, 3);
    c.p["t"] = r.pick({ 1, 2, 3, 4, 8 });
    c.p["seed"] = r.range(0, 20);
    c.p["bal"] = r.chance(1, 8);
}
// histories that follow the cut structure: deletions across the current minimum cut,
// re-insertions, insertions along the cut, random noise
static void history(Rng& r, Case& c, int len, bool cut_driven) {
    Model m;
    for (auto& e : c.e) m[key(e.u, e.v)].push_back(e.w);
    bool multi = c.P("multi");
    std::vector<std::vector<ll> > gone;
    int mode = r.range(0, 6);
    ll wmax = r.pick({ 1, 1, 2, 3, 10 });
    for (int i = 0; i < len; ++i) {
        std::vector<char> side;
        if (cut_driven && c.n >= 2) oracle::stoer_wagner(c.n, edges(m), &side);
        int what = mode == 0 ? 0 : mode == 1 ? 1 : r.range(0, 9);
        bool del = mode == 0 ? false : mode == 1 ? true : mode == 2 ? (i / 5) % 2 == 0 : mode == 3 ? i % 2 == 0 : r.chance(1, 2);
        if (del) {
            if (m.empty()) continue;
            std::vector<std::pair<uint32_t, uint32_t> > cand;
            if (!side.empty() && what < 6) for (auto& [k, w] : m) { (void)w; if (side[k.first] != side[k.second]) cand.push_back(k); }
            if (cand.empty()) for (auto& [k, w] : m) { (void)w; cand.push_back(k); }
            auto k = cand[r.next() % cand.size()];
            if (r.chance(1, 40)) { c.ops.push_back({ 1, static_cast<ll>(r.range(0, c.n - 1)), static_cast<ll>(r.range(0, c.n - 1)), 0 }); auto& o = c.ops.back(); if (o[1] == o[2]) { c.ops.pop_back(); continue; } pop(m, key(o[1], o[2])); continue; }
            gone.push_back({ 0, static_cast<ll>(k.first), static_cast<ll>(k.second), static_cast<ll>(m[k].back()) });
            bool f = r.chance(1, 2);
            c.ops.push_back({ 1, static_cast<ll>(f ? k.first : k.second), static_cast<ll>(f ? k.second : k.first), 0 });
            pop(m, k);
        } else {
            std::vector<ll> o;
            if (!gone.empty() && mode != 0 && what < 4) { size_t j = what < 2 ? gone.size() - 1 : r.next() % gone.size(); o = gone[j]; gone.erase(gone.begin() + j); }
            else {
                uint32_t a = r.range(0, c.n - 1), b = r.range(0, c.n - 1);
                if (!side.empty() && what < 8) for (int q = 0; q < 20 && side[a] == side[b]; ++q) { a = r.range(0, c.n - 1); b = r.range(0, c.n - 1); }
                o = { 0, static_cast<ll>(a), static_cast<ll>(b), static_cast<ll>(r.range(1, wmax)) };
            }
            if (multi && !m.empty() && r.chance(1, 4)) { auto i = m.begin(); std::advance(i, r.next() % m.size()); o[1] = i->first.first; o[2] = i->first.second; }
            if (o[1] == o[2] || (!multi && m.count(key(o[1], o[2])))) continue;
            if (r.chance(1, 2)) std::swap(o[1], o[2]);
            m[key(o[1], o[2])].push_back(o[3]);
            c.ops.push_back(o);
        }
    }
}
static void dgen(Rng& r, Case& c, uint32_t lo, uint32_t hi, int len, bool cut_driven) {
    gen::GOpt o; o.nmin = lo; o.nmax = hi; o.disc_pct = 10; o.wmax_class = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 2 : 5; o.planted_pct = 15;
    gen::graph(r, c, o);
    c.e = oracle::simplify(c.e);
    int start = r.range(0, 9);
    if (start == 0) c.e.clear();
    else if (start == 1) { for (auto& e : c.e) e.w = 1; c.e.resize(std::min<size_t>(c.e.size(), c.n)); }
    else if (start <= 3) { std::set<std::pair<uint32_t, uint32_t> > have; c.e.clear(); std::vector<uint32_t> p(c.n); for (uint32_t i = 0; i < c.n; ++i) p[i] = i; r.shuffle(p); u64 w = r.range(1, 2); for (uint32_t i = 0; i < c.n; ++i) { uint32_t a = p[i], b = p[(i + 1) % c.n]; if (a != b && have.insert(key(a, b)).second) c.e.push_back({ a, b, w }); } c.s["fam"] = "cycle"; }
    else if (start <= 5) { // tree of cycles, all edges equal: large cactus
        c.e.clear(); uint32_t used = 1; u64 w = 1;
        while (used < c.n) { uint32_t a = r.range(0, used - 1), len2 = r.range(2, 6), prev = a, first = used; for (uint32_t i = 0; i < len2 && used < c.n; ++i) { c.e.push_back({ prev, used, w }); prev = used++; } if (used - first >= 2) c.e.push_back({ prev, a, w }); else c.e.back().w = 2 * w; }
        std::vector<uint32_t> p(c.n); for (uint32_t i = 0; i < c.n; ++i) p[i] = i; r.shuffle(p); for (auto& e : c.e) { e.u = p[e.u]; e.v = p[e.v]; } c.s["fam"] = "tree of cycles"; }
    c.p["multi"] = r.chance(1, 4);
    if (c.p["multi"] && r.chance(1, 2)) { size_t k = c.e.size(); for (size_t i = 0; i < k; ++i) if (r.chance(1, 5)) c.e.push_back(c.e[i]); }
    history(r, c, len, cut_driven);
    dcfg(r, c);
}
// initialise again in the middle, then a part of the operations or a new history
static void again(Rng& r, Case& c, bool fresh) {
    while (r.chance(1, 8)) { ll s = r.range(0, c.n - 1), t = r.range(0, c.n - 1); if (s != t) c.ops.insert(c.ops.begin() + r.range(0, c.ops.size()), { 3, s, t, r.range(0, 31) }); }
    if (!r.chance(1, 4)) return;
    int k = r.range(0, 2) + (r.chance(1, 2) ? 8 : 0) + (r.chance(1, 2) ? 16 : 0);
    auto old = c.ops;
    if ((k & 3) < 2) { c.ops.insert(c.ops.begin() + r.range(0, c.ops.size()), { 2, 0, 1, k }); return; }
    c.ops.push_back({ 2, 0, 1, k });
    if (fresh && r.chance(1, 2)) { history(r, c, r.range(1, 25), true); return; }
    for (auto& o : old) if (o[0] == 1 ? r.chance(4, 5) : r.chance(3, 5)) c.ops.push_back(o);
}
// all weights times one large factor, now and then one insertion out of proportion
static void big(Rng& r, Case& c) {
    if (!r.chance(7, 100)) return;
    u64 f = r.range(2, 1ull << r.range(8, 34));
    for (auto& e : c.e) e.w = std::min<u64>(e.w * f, 1ull << 44);
    for (auto& o : c.ops) if (o[0] == 0) o[3] = r.chance(1, 8) ? r.range(1, 1ll << 40) : std::min<ll>(o[3] * f, 1ll << 44);
    c.s["scaled"] = "yes";
}
static void gsmall(Rng& r, Case& c) { dgen(r, c, 2, r.chance(1, 3) ? 7 : 12, r.range(1, 25), true); again(r, c, true); big(r, c); }
static void gmedium(Rng& r, Case& c) { dgen(r, c, 12, 40, r.range(5, 40), true); again(r, c, true); big(r, c); }
static void glong(Rng& r, Case& c) { dgen(r, c, 6, 16, r.range(200, 600), r.chance(1, 2)); }
// more insertions than the cache of one level may hold
static void gcache(Rng& r, Case& c) {
    dgen(r, c, 60, 75, 0, false);
    c.ops.clear(); c.p["cache"] = 1; c.p["bal"] = 0;
    Model m; for (auto& e : c.e) m[key(e.u, e.v)].push_back(e.w);
    for (int round = 0; round < 2; ++round) {
        for (int i = 0; i < 4; ++i) { if (m.empty()) break; std::vector<char> side; oracle::stoer_wagner(c.n, edges(m), &side); std::vector<std::pair<uint32_t, uint32_t> > cand; for (auto& [k, w] : m) { (void)w; if (side[k.first] != side[k.second]) cand.push_back(k); } if (cand.empty()) break; auto k = cand[r.next() % cand.size()]; m.erase(k); c.ops.push_back({ 1, static_cast<ll>(k.first), static_cast<ll>(k.second), 0 }); }
        int ins = r.range(300, 1100);
        uint32_t block = r.range(c.n / 2, c.n);    // insertions stay inside a block most of the time: the cut stays low
        for (int i = 0; i < ins; ++i) { uint32_t lim = r.chance(1, 200) ? c.n : block; uint32_t a = r.range(0, lim - 1), b = r.range(0, lim - 1); if (a == b || m.count(key(a, b))) continue; m[key(a, b)].push_back(1); c.ops.push_back({ 0, static_cast<ll>(a), static_cast<ll>(b), 1 }); }
    }
}

// a hub with many light leaves and a light ring: the cactus of every level is large, so that
// cached cacti are reused. Deletions go down several levels, insertions on the way up happen
// while lower levels are cached
static void gstar(Rng& r, Case& c) {
    uint32_t leaves = r.range(1, 8), ring = r.range(6, 18);
    ll a = r.range(2, 4), b = r.chance(2, 3) ? 1 : r.range(1, 2);
    c.n = 1 + leaves + ring;
    Model m;
    std::vector<uint32_t> p(c.n); for (uint32_t i = 0; i < c.n; ++i) p[i] = i; r.shuffle(p);
    auto put = [&](uint32_t u, uint32_t v, ll w, bool op) { u = p[u]; v = p[v]; if (u == v) return; if (op) c.ops.push_back({ 0, u, v, w }); else c.e.push_back({ u, v, static_cast<u64>(w) }); m[key(u, v)].push_back(w); };
    auto cut = [&](uint32_t u, uint32_t v) -> ll { u = p[u]; v = p[v]; if (!m.count(key(u, v))) return 0; ll w = m[key(u, v)].back(); c.ops.push_back({ 1, u, v, 0 }); pop(m, key(u, v)); return w; };
    for (uint32_t i = 1; i <= leaves; ++i) put(0, i, a, false);
    auto ringv = [&](uint32_t i) { i %= ring + 1; return i == 0 ? 0 : leaves + i; };
    for (uint32_t i = 0; i <= ring; ++i) put(ringv(i), ringv(i + 1), b, false);
    c.s["fam"] = "star and ring"; c.p["star"] = 1;
    int rounds = r.range(1, 4);
    for (int q = 0; q < rounds; ++q) {
        std::vector<std::array<ll, 3> > down;
        int levels = r.range(1, 4);
        uint32_t hit = r.chance(1, 2) ? ringv(r.range(1, ring)) : r.range(1, leaves);
        for (int l = 0; l < levels; ++l) {   // remove edges around one vertex or of the ring
            std::vector<std::pair<uint32_t, uint32_t> > cand;
            for (auto& [k, ws] : m) { (void)ws; if (r.chance(3, 4) ? (k.first == p[hit] || k.second == p[hit]) : true) cand.push_back(k); }
            if (cand.empty()) break;
            auto k = cand[r.next() % cand.size()];
            ll w = m[k].back();
            c.ops.push_back({ 1, k.first, k.second, 0 }); pop(m, k);
            down.push_back({ static_cast<ll>(k.first), static_cast<ll>(k.second), w });
            if (r.chance(1, 3)) { uint32_t u = r.range(0, c.n - 1), v = r.range(0, c.n - 1); if (!m.count(key(p[u], p[v]))) put(u, v, r.range(1, 2), true); }
        }
        int det = r.range(0, 4);
        for (int d = 0; d < det; ++d) {   // insertions while levels are cached
            uint32_t u = r.chance(1, 2) ? 0 : ringv(r.range(0, ring)), v = r.chance(1, 2) ? r.range(1, leaves) : ringv(r.range(0, ring));
            if (!m.count(key(p[u], p[v]))) put(u, v, r.range(1, 2), true);
        }
        r.shuffle(down);
        for (auto& [u, v, w] : down) {
            ll s = u, t = v;
            if (r.chance(1, 3)) { s = p[r.chance(1, 2) ? 0 : r.range(0, c.n - 1)]; if (s == t) s = u; }
            if (m.count(key(s, t))) continue;
            c.ops.push_back({ 0, s, t, w }); m[key(s, t)].push_back(w);
        }
        int up = r.range(0, static_cast<int>(c.n));
        for (int d = 0; d < up; ++d) {   // raise the light vertices one after the other
            std::vector<char> side;
            oracle::stoer_wagner(c.n, edges(m), &side);
            std::vector<uint32_t> A, B;
            for (uint32_t i = 0; i < c.n; ++i) (side[p[i]] ? A : B).push_back(i);
            if (A.size() > B.size()) std::swap(A, B);
            uint32_t u = r.pick(A), v = r.chance(2, 3) && std::count(B.begin(), B.end(), 0u) ? 0 : r.pick(B);
            if (m.count(key(p[u], p[v]))) v = r.pick(B);
            if (!m.count(key(p[u], p[v]))) put(u, v, r.range(1, 2), true);
        }
    }
    again(r, c, false);
    dcfg(r, c);
}
// a hub that stays adjacent to more than a hundred vertices of the cactus: insertions between
// light vertices merge small sets into the hub, cached cacti are updated the same way
static void ghub(Rng& r, Case& c) {
    ll a = r.range(1, 2);
    uint32_t petals = r.range(60, 115), used = 1;
    Model m;
    std::vector<std::pair<uint32_t, uint32_t> > pe; std::vector<ll> pw;
    auto put = [&](uint32_t u, uint32_t v, ll w) { pe.push_back({ u, v }); pw.push_back(w); };
    int shape = r.range(0, 3);   // leaves, short cycles, mixed, mixed with chains
    for (uint32_t i = 0; i < petals && used + 6 < 185; ++i) {
        int kind = shape == 0 ? 0 : shape == 1 ? 1 : r.range(0, shape);
        if (kind == 0) { put(0, used++, 2 * a); }
        else if (kind == 1) { uint32_t len = r.pick({ 2, 2, 2, 3 }), prev = 0; for (uint32_t q = 0; q < len; ++q) { put(prev, used, a); prev = used++; } put(prev, 0, a); }
        else { uint32_t len = r.range(2, 4), prev = 0; for (uint32_t q = 0; q < len; ++q) { put(prev, used, 2 * a); prev = used++; } }
    }
    while (used < 105) put(0, used++, 2 * a);
    uint32_t room = 185 > used ? 185 - used : 0;
    while (room > 1 && r.chance(1, 3)) {   // one leaf or the hub stands for many vertices
        uint32_t k = r.range(1, room), at = r.chance(1, 3) ? 0 : r.range(1, used - 1), prev = at;
        for (uint32_t q = 0; q < k; ++q) { put(r.chance(1, 2) ? at : prev, used, 40); prev = used++; }
        room -= k;
    }
    c.n = used;
    std::vector<uint32_t> p(c.n); for (uint32_t i = 0; i < c.n; ++i) p[i] = i;
    r.shuffle(p);
    for (size_t i = 0; i < pe.size(); ++i) { c.e.push_back({ p[pe[i].first], p[pe[i].second], static_cast<u64>(pw[i]) }); m[key(p[pe[i].first], p[pe[i].second])].push_back(pw[i]); }
    c.s["fam"] = "hub"; c.p["star"] = 1; c.p["hub"] = 1; c.p["sparse"] = 1;
    int len = r.range(4, 24);
    std::vector<std::vector<ll> > gone;
    for (int i = 0; i < len; ++i) {
        int what = r.range(0, 9);
        if (what == 0 || (what <= 2 && gone.size() < 2)) {
            auto it = m.begin(); std::advance(it, r.next() % m.size());
            gone.push_back({ 0, static_cast<ll>(it->first.first), static_cast<ll>(it->first.second), static_cast<ll>(it->second.back()) });
            c.ops.push_back({ 1, static_cast<ll>(it->first.first), static_cast<ll>(it->first.second), 0 });
            m.erase(it);
            continue;
        }
        std::vector<ll> o;
        if (what <= 4 && !gone.empty()) { o = gone.back(); gone.pop_back(); }
        else o = { 0, static_cast<ll>(p[r.chance(1, 6) ? 0 : r.range(1, c.n - 1)]), static_cast<ll>(p[r.range(0, c.n - 1)]), static_cast<ll>(r.range(1, 3)) };
        if (o[1] == o[2] || m.count(key(o[1], o[2]))) continue;
        m[key(o[1], o[2])].push_back(o[3]);
        c.ops.push_back(o);
    }
    dcfg(r, c);
}
// light vertices around a ring or clique whose degrees move between a few levels: several levels
// are cached at the same time, each with a cactus that is large enough to be used again
static void glevels(Rng& r, Case& c) {
    bool dip = r.chance(1, 2);
    uint32_t core = dip ? r.range(3, 5) : r.range(4, 10), pend = dip ? r.range(6, 24) : r.range(3, 16);
    c.n = core + pend;
    ll top = r.range(4, 9);   // level of the core
    std::vector<ll> lv; for (ll l = 1; l <= top; ++l) if (r.chance(1, 2)) lv.push_back(l);
    while (dip && lv.size() > 4) lv.erase(lv.begin() + r.range(0, lv.size() - 1));
    while (dip && lv.size() < 3) lv.push_back((lv.empty() ? 0 : lv.back()) + r.range(1, 3));
    if (lv.empty()) lv.push_back(1);
    int exact = r.range(0, 4);
    Model m; std::vector<uint32_t> p(c.n); for (uint32_t i = 0; i < c.n; ++i) p[i] = i; r.shuffle(p);
    bool init = true;
    auto put = [&](uint32_t u, uint32_t v, ll w) { if (r.chance(1, 2)) std::swap(u, v); u = p[u]; v = p[v]; if (init) c.e.push_back({ u, v, static_cast<u64>(w) }); else c.ops.push_back({ 0, u, v, w }); m[key(u, v)].push_back(w); };
    auto cut = [&](uint32_t u, uint32_t v) { if (r.chance(1, 2)) std::swap(u, v); c.ops.push_back({ 1, p[u], p[v], 0 }); pop(m, key(p[u], p[v])); };
    auto has = [&](uint32_t u, uint32_t v) { return m.count(key(p[u], p[v])) > 0; };
    auto deg = [&](uint32_t u) { ll d = 0; for (auto& [k, ws] : m) if (k.first == p[u] || k.second == p[u]) for (u64 w : ws) d += w; return d; };
    bool heavy = r.chance(1, 2);   // otherwise the core takes part in the cuts of the highest level
    for (uint32_t i = 0; i < core; ++i) if (!has(i, (i + 1) % core)) put(i, (i + 1) % core, heavy || dip ? 20 : (top + 1) / 2);
    // bring the degree of light vertex x to level t
    auto move = [&](uint32_t x, ll t) {
        for (int guard = 0; guard < 60; ++guard) {
            ll d = deg(x);
            if (d == t) return;
            if (d < t) {
                uint32_t v = r.chance(5, 6) ? r.range(0, core - 1) : r.range(0, c.n - 1);
                if (v == x || has(x, v)) continue;
                put(x, v, r.range(0, 4) < exact ? t - d : r.range(1, t - d));
            } else {
                std::vector<uint32_t> nb; for (uint32_t v = 0; v < c.n; ++v) if (v != x && has(x, v)) nb.push_back(v);
                if (nb.size() == 1) { uint32_t v = r.range(0, core - 1); if (has(x, v)) return; put(x, v, std::max<ll>(1, std::min<ll>(t, r.range(1, 2)))); }   // stay connected
                uint32_t v = r.pick(nb);
                for (auto q : nb) if (d - static_cast<ll>(m[key(p[x], p[q])].back()) == t && exact) v = q;
                cut(x, v);
            }
        }
    };
    int hi = r.range(0, 9);
    if (dip) { exact = 4; for (uint32_t i = 0; i < pend; ++i) for (ll l : lv) move(core + i, l); }   // all at the highest level
    for (uint32_t i = 0; i < pend && !dip; ++i) move(core + i, r.range(0, 9) < hi ? lv.back() : r.pick(lv));
    init = false;
    c.s["fam"] = dip ? "levels, dips" : "levels"; c.p["star"] = 1;
    if (dip) {   // one vertex goes up and down below all others, sometimes others follow
        for (int q = r.range(1, 3); q > 0; --q) {
            uint32_t y = core + r.range(0, pend - 1);
            std::vector<uint32_t> low = { y };
            for (int d = r.range(3, 10); d > 0; --d) {
                move(y, lv[r.range(0, lv.size() - 2)]);
                ll l = deg(y);
                if (r.chance(1, 3)) { uint32_t z = core + r.range(0, pend - 1); ll t = r.pick(lv); if (z != y && t >= l) { move(z, t); low.push_back(z); } }
                if (r.chance(1, 4)) { uint32_t u = r.range(0, c.n - 1), v = r.range(0, c.n - 1); if (u != v && u != y && v != y && !has(u, v)) put(u, v, r.range(1, 2)); }
            }
            r.shuffle(low);
            for (auto z : low) if (deg(z) < lv.back()) move(z, lv.back());
            if (c.ops.size() > 120) break;
        }
    }
    int rounds = dip ? r.range(0, 1) : r.range(2, 14);
    for (int q = 0; q < rounds; ++q) {
        ll t = r.chance(1, 8) ? top + 1 : r.pick(lv);
        bool down = r.chance(1, 2);
        if (down) { int k = r.range(1, 2); while (k--) move(core + r.range(0, r.chance(1, 2) ? std::min(2u, pend - 1) : pend - 1), std::max<ll>(1, t)); }
        else {   // the whole graph to at least this level
            std::vector<uint32_t> o; for (uint32_t i = 0; i < pend; ++i) o.push_back(core + i);
            r.shuffle(o);
            for (auto x : o) if (deg(x) < t) move(x, r.range(0, 4) < exact ? t : t + r.range(0, 2));
        }
        int noise = r.chance(1, 2) ? 0 : r.range(1, 3);
        while (noise--) { uint32_t u = r.range(0, c.n - 1), v = r.range(0, c.n - 1); if (u != v && !has(u, v)) put(u, v, r.range(1, 2)); }
        if (c.ops.size() > 150) break;
    }
    again(r, c, false);
    dcfg(r, c);
    big(r, c);
}
static void run(const Case& c, Ctx& x, bool cactus) {
    if (c.n < 2 || c.n > Mask::MAX) x.discard();
    Model m;
    for (auto& e : c.e) { if (e.u >= c.n || e.v >= c.n || e.u == e.v || e.w < 1) x.discard(); m[key(e.u, e.v)].push_back(e.w); }
    auto cfg = configuration::getConfig();
    cfg->edge_selection = ES[c.P("es") % 6]; cfg->pq = PQ[c.P("pq") % 4]; cfg->save_cut = true;
    u64 total = 0;
    for (auto& e : c.e) total += e.w;
    for (auto& o : c.ops) if (o[0] == 0) total += o[3];
    if (total > 200000 && (cfg->pq == "bqueue" || cfg->pq == "bstack")) cfg->pq = "default";   // one bucket per key
    if (total > 200000) x.label(total >> 32 ? "weights need more than 32 bits" : "large weights");
    cfg->seed = c.P("seed"); random_functions::setSeed(c.P("seed"));
    cfg->find_most_balanced_cut = c.P("bal"); cfg->set_node_in_cut = c.P("bal");
#ifdef PARALLEL
    int t = std::max<ll>(1, c.P("t", 1));
    omp_set_num_threads(t); cfg->threads = t;
    x.label("threads:" + std::to_string(t));
#endif
    gen::describe(c, x);
    auto G = make_mut(c.n, c.e);
    auto d = std::make_unique<dynamic_mincut>();
    u64 lam = oracle::stoer_wagner(c.n, edges(m));
    bool complete = true;
    bool multi = false;
    for (auto& [k, ws] : m) { (void)k; multi |= ws.size() > 1; }
    int ups = 0, downs = 0, restored = 0;
    int vc = 0;
    auto verify = [&](u64 ret, const std::string& when) {
        auto e = edges(m);
        ++vc;
        x.eq(static_cast<u64>(ret), lam, "minimum cut " + when);
        x.eq(static_cast<u64>(d->getCurrentCut()), lam, "getCurrentCut " + when);
        auto O = d->getOriginalGraph();
        x.eq(static_cast<uint32_t>(O->n()), c.n, "vertices of the maintained graph " + when);
        x.check(arcs(O) == arcs_of(e), "edges of the maintained graph " + when);
        if (d->getCurrentCactus()) { size_t big = 0; auto C = d->getCurrentCactus(); for (NodeID v : C->nodes()) big = std::max<size_t>(big, C->getUnweightedNodeDegree(v)); if (big > 100) x.label("cactus vertex of degree >100"); }
        if (!cactus) return;
        if (c.P("sparse") && vc % 5 && vc + 2 < static_cast<int>(c.ops.size())) return;   // the oracle is expensive on large graphs
        auto H = d->getCurrentCactus();
        std::string w = "cactus " + when;
        if (lam == 0) {   // groups of components, at least two
            std::vector<int> seen(c.n, 0);
            uint32_t k; auto comp = oracle::components(c.n, e, &k);
            x.check(H->n() >= 2, w + ": fewer than two vertices for a disconnected graph");
            for (NodeID v : H->nodes()) for (auto o : H->containedVertices(v)) { x.check(o < c.n && !seen[o]++, w + ": bad contained vertex"); x.eq(H->getCurrentPosition(o), v, w + ": position"); }
            for (uint32_t v = 0; v < c.n; ++v) x.check(seen[v], w + ": vertex missing");
            for (auto& q : e) x.eq(H->getCurrentPosition(q.u), H->getCurrentPosition(q.v), w + ": connected vertices apart");
            if (complete) x.eq(static_cast<uint32_t>(H->n()), k, w + ": number of components");
            return;
        }
        std::set<Mask> want;
        oracle::all_min_cuts(c.n, e, &want);
        auto got = cactus_cuts(H, c.n, lam, x, w);
        x.check(!got.empty(), w + ": represents no minimum cut");
        if (complete) compare_cuts(got, want, x, w);
        else for (auto& q : got) if (!want.count(q)) x.fail(w + ": " + show(q) + " is not a minimum cut");
    };
    auto pos = [&](uint32_t v) { return d->getCurrentCactus()->getCurrentPosition(v); };
    verify(d->initialize(G), "after initialisation");
    int i = 0, eff = 0;
    for (auto& o : c.ops) {
        ++i;
        if (o.size() < 4 || o[1] < 0 || o[2] < 0 || o[1] >= static_cast<ll>(c.n) || o[2] >= static_cast<ll>(c.n) || o[1] == o[2]) x.discard();
        auto k = key(o[1], o[2]);
        u64 old = lam, ret;
        size_t calls = d->getCallsOfStaticAlgorithm();
        std::string what;
        if (o[0] == 3) {   // somebody else computes a flow on the maintained graph
            auto O = d->getOriginalGraph();
            NodeID u = O->getCurrentPosition(o[1]), v = O->getCurrentPosition(o[2]);
            if (o[3] & 2) random_functions::setSeed(c.P("seed"));
            if (o[3] & 1) { push_relabel<true, false> q; q.solve_max_flow_min_cut(O, { u, v }, 0, true, 1 + (o[3] >> 2)); }
            else { push_relabel<false, false> q; q.solve_max_flow_min_cut(O, { u, v }, 0, true); }
            x.label("flow in between");
            continue;
        }
        if (o[0] == 2) {
            int kind = o[3] & 3;
            auto O = d->getOriginalGraph();
            if (o[3] & 16) { random_functions::setSeed(c.P("seed")); x.label("seed set again"); }
            if (o[3] & 8) { d = std::make_unique<dynamic_mincut>(); x.label("new object"); }
            auto H = kind == 0 ? O : make_mut(c.n, kind == 1 ? edges(m) : c.e);
            if (kind >= 2) { m.clear(); for (auto& e : c.e) m[key(e.u, e.v)].push_back(e.w); }
            lam = oracle::stoer_wagner(c.n, edges(m));
            complete = true;
            x.label(kind == 0 ? "initialised again with its own graph" : kind == 1 ? "initialised again with an equal graph" : "initialised again with another graph");
            verify(d->initialize(H), "after initialising again in step " + std::to_string(i));
            continue;
        }
        if (o[0] == 0) {
            if (o[3] < 1) x.discard();
            if (m.count(k)) multi = true;
            m[k].push_back(o[3]);
            lam = oracle::stoer_wagner(c.n, edges(m));
            what = "insertion";
            ret = d->addEdge(o[1], o[2], o[3]);
            if (d->getCallsOfStaticAlgorithm() > calls) complete = true;
            else if (lam != old) { complete = false; ++restored; }
        } else {
            bool was = m.count(k);
            what = was ? "deletion" : "deletion of a missing edge";
            bool same = pos(o[1]) == pos(o[2]);
            ret = d->removeEdge(o[1], o[2]);
            (void)same;
            if (was) {   // exactly one of the edges between the pair has to disappear
                auto O = d->getOriginalGraph();
                std::vector<u64> left;
                for (EdgeID e : O->edges_of(o[1])) if (O->getEdgeTarget(o[1], e) == static_cast<NodeID>(o[2])) left.push_back(O->getEdgeWeight(o[1], e));
                auto& ws = m[k];
                std::sort(ws.begin(), ws.end()); std::sort(left.begin(), left.end());
                x.check(left.size() + 1 == ws.size() && std::includes(ws.begin(), ws.end(), left.begin(), left.end()), "deletion does not remove exactly one edge, after operation " + std::to_string(i));
                ws = left;
                if (ws.empty()) m.erase(k);
            }
            lam = oracle::stoer_wagner(c.n, edges(m));
            if (was && lam < old) complete = true;
            else if (was) complete = false;
        }
        if (lam > old) ++ups;
        if (lam < old) ++downs;
        ++eff;
        verify(ret, "after operation " + std::to_string(i) + " (" + what + ")");
    }
    if (ups) x.label("minimum cut rises");
    if (downs) x.label("minimum cut falls");
    if (multi) x.label("parallel edges");
    if (restored) x.label("restored from cache");
    if (eff > 1000) x.label(">1000 operations");
    if (c.P("bal")) x.label("with balanced cut");
    if (ups && downs) x.nt();
}
static void c09(const Case& c, Ctx& x) { run(c, x, false); }
static void c10(const Case& c, Ctx& x) { run(c, x, true); }
#ifdef PARALLEL
#define PRE "p"
#define CONC true
#else
#define PRE ""
#define CONC false
#endif
static pbt::Reg r1({ "C09", PRE "dyn_small", gsmall, c09, 12000, 400000, CONC });
static pbt::Reg r2({ "C09", PRE "dyn_medium", gmedium, c09, 2000, 80000, CONC });
static pbt::Reg r3({ "C09", PRE "dyn_long", glong, c09, 200, 8000, CONC });
static pbt::Reg r8({ "C09", PRE "dyn_star", gstar, c09, 6000, 200000, CONC });
static pbt::Reg r9({ "C10", PRE "dyncactus_star", gstar, c10, 3000, 100000, CONC });
static pbt::Reg r4({ "C09", PRE "dyn_cache", gcache, c09, 30, 1000, CONC, 60 });
static pbt::Reg r5({ "C10", PRE "dyncactus_small", gsmall, c10, 12000, 400000, CONC });
static pbt::Reg r6({ "C10", PRE "dyncactus_medium", gmedium, c10, 1000, 40000, CONC });
static pbt::Reg r7({ "C10", PRE "dyncactus_long", glong, c10, 100, 4000, CONC });
static pbt::Reg r12({ "C09", PRE "dyn_levels", glevels, c09, 4000, 150000, CONC });
static pbt::Reg r13({ "C10", PRE "dyncactus_levels", glevels, c10, 3000, 80000, CONC });
static pbt::Reg r10({ "C09", PRE "dyn_hub", ghub, c09, 250, 10000, CONC });
static pbt::Reg r11({ "C10", PRE "dyncactus_hub", ghub, c10, 200, 8000, CONC });
PBT_MAIN
