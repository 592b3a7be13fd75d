// Multiterminal cuts: C12 (optimum), C13 (written solutions, inexact mode),
// C14 (reductions), C15 (problem queues, transit), C16 (terminal selection).
#include <unistd.h>
#include <array>
#include <atomic>
#include <fstream>
#include <thread>
#include "oracle_mtc.h"
#include "repo.h"
#include "algorithms/multicut/multiterminal_cut.h"
#include "tools/timer.h"
using namespace rp;
using oracle::Mtc;

static const char* QT[] = { "bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted", "other" };
static const char* ES[] = { "heavy_vertex", "random", "heavy", "heavy_global", "connection", "distance", "" };

// terminals: c.lab[v] = terminal index or -1; "k" = number of terminals
static void pick_terminals(Rng& r, Case& c, int kmax) {
    int k = r.range(2, std::max<ll>(2, std::min<ll>(kmax, c.n)));
    if (r.chance(2, 3) && c.n > 6) k = std::min<int>(std::max(k, 3), c.n);
    std::vector<uint32_t> v(c.n);
    for (uint32_t i = 0; i < c.n; ++i) v[i] = i;
    if (r.chance(1, 2)) r.shuffle(v);
    else {   // spread: high degree first, noise
        std::vector<ll> d(c.n); for (auto& x : c.e) { d[x.u] += x.w; d[x.v] += x.w; }
        for (auto& x : d) x = x * 4 + r.range(0, 8);
        r.shuffle(v);
        if (r.chance(1, 2)) std::sort(v.begin(), v.end(), [&](uint32_t a, uint32_t b) { return d[a] > d[b]; });
        else std::sort(v.begin(), v.end(), [&](uint32_t a, uint32_t b) { return d[a] < d[b]; });
    }
    c.lab.assign(c.n, -1);
    for (int i = 0; i < k; ++i) c.lab[v[i]] = i;
    if (r.chance(1, 5)) for (int q = r.range(1, std::max<ll>(1, c.n / 4)); q > 0; --q) { auto& x = c.lab[r.pick(v)]; if (x < 0) x = r.range(0, k - 1); }
    c.p["k"] = k;
}
static void pick_config(Rng& r, Case& c, bool par) {
    c.p["thr"] = par ? r.pick({ 2, 2, 3, 4, 5, 8 }) : r.chance(1, 4) ? r.range(2, 8) : 1;
    c.s["queue"] = QT[r.chance(1, 2) ? 0 : r.range(0, 8)];
    c.s["edge"] = ES[r.chance(1, 4) ? 0 : r.range(0, 6)];
    c.p["multi"] = r.chance(1, 2);
    // with single branching, "heavy_global" branches far from the terminals; the
    // number of problems explodes (legitimately) even on medium dense graphs
    if (c.n > 14 && c.s["edge"] == "heavy_global") c.p["multi"] = 1;
    c.p["rflow"] = r.chance(1, 2) ? 5 : r.range(0, 6);
    c.p["hflow"] = r.chance(1, 2) ? 5 : r.range(0, 6);
    c.p["hdf"] = r.chance(1, 2) ? 90 : r.range(0, 100);
    c.p["seed"] = r.range(0, 1000);
}
static void apply_config(const Case& c) {
    auto f = configuration::getConfig();
    f->threads = std::min<ll>(8, std::max<ll>(1, c.P("thr", 1)));
    f->queue_type = c.S("queue", "bound_sum");
    f->edge_selection = c.S("edge", "heavy_vertex");
    f->multibranch = c.P("multi", 1);
    f->random_flows = c.P("rflow", 5); f->high_distance_flows = c.P("hflow", 5);
    f->high_distance_factor = c.P("hdf", 90) / 100.0;
    f->disable_cpu_affinity = true;
    f->inexact = c.P("inexact", 0);
    random_functions::setSeed(c.P("seed", 0));
    f->timeoutSeconds = 5;
}
// runs the solver. Some (rare, large, dense) instances are legitimately hard;
// those end by the time limit and only bounds are checked on them
struct Outcome { u64 value; bool timed_out; };
static Outcome solve(const Case& c, mutableGraphPtr G, std::vector<NodeID> map, Ctx& x) {
    auto limit = configuration::getConfig()->timeoutSeconds;
    multiterminal_cut m; timer t;
    Outcome o; o.value = m.multicut(G, map, c.P("k"));
    o.timed_out = limit && c.n > 14 && t.elapsed() >= limit;
    if (o.timed_out) x.label("time limit reached");
    return o;
}
static bool valid(const Case& c) {
    int k = c.P("k");
    if (c.n < 2 || c.lab.size() != c.n || k < 2) return false;
    std::vector<char> has(k, 0);
    for (auto x : c.lab) { if (x >= k || x < -1) return false; if (x >= 0) has[x] = 1; }
    for (auto h : has) if (!h) return false;
    for (auto& x : c.e) if (x.u >= c.n || x.v >= c.n || x.w < 1) return false;
    auto s = oracle::simplify(c.e);
    return s.size() == c.e.size();
}
// optimum over all components; false when the reference gave up
static bool reference(const Case& c, u64* opt, int* comps, u64* lb = nullptr, u64* ub = nullptr) {
    uint32_t nc; auto comp = oracle::components(c.n, c.e, &nc);
    u64 total = 0, L = 0, U = 0; int used = 0;
    for (uint32_t q = 0; q < nc; ++q) {
        std::vector<uint32_t> id(c.n, ~0u); uint32_t m = 0; std::vector<int> lab; std::map<int, int> tm;
        for (uint32_t v = 0; v < c.n; ++v) if (comp[v] == q) { id[v] = m++; if (c.lab[v] < 0) lab.push_back(-1); else { auto it = tm.emplace(c.lab[v], tm.size()).first; lab.push_back(it->second); } }
        if (tm.size() < 2) continue;
        ++used;
        std::vector<E> e; for (auto& x : c.e) if (comp[x.u] == q) e.push_back({ id[x.u], id[x.v], x.w });
        Mtc o; o.limit = c.P("lim", 400); if (!o.solve(m, e, lab, tm.size())) return false;
        total += o.best;
        u64 s = 0, mx = 0; for (size_t t = 0; t < tm.size(); ++t) { u64 f = o.iso(lab, t, nullptr); s += f; mx = std::max(mx, f); }
        L += (s + 1) / 2; U += s - mx;
    }
    *opt = total; if (comps) *comps = used; if (lb) *lb = L; if (ub) *ub = U;
    return true;
}
static std::vector<NodeID> mapping(const Case& c) { std::vector<NodeID> m; for (auto x : c.lab) m.push_back(x < 0 ? UNDEFINED_NODE : x); return m; }

static void cfg_labels(const Case& c, Ctx& x) {
    gen::describe(c, x);
    x.label("threads:" + std::to_string(c.P("thr", 1)));
    x.label(c.P("multi", 1) ? "multibranch" : "singlebranch " + c.S("edge"));
    x.label("queue:" + c.S("queue"));
    x.label("terminals:" + std::to_string(c.P("k")));
}
static void c12(const Case& c, Ctx& x) {
    if (!valid(c)) x.discard();
    u64 opt, lb, ub; int comps;
    if (!reference(c, &opt, &comps, &lb, &ub)) x.discard();
    cfg_labels(c, x);
    apply_config(c);
    auto G = make_mut(c.n, c.e);
    for (auto& o : c.ops) {   // earlier computations on the same graph: {s, t, limit or 0}
        if (o.size() < 3 || o[0] < 0 || o[1] < 0 || o[0] >= static_cast<ll>(c.n) || o[1] >= static_cast<ll>(c.n) || o[0] == o[1]) x.discard();
        std::vector<NodeID> T { static_cast<NodeID>(o[0]), static_cast<NodeID>(o[1]) };
        if (o[2] > 0) { push_relabel<true, false> f; f.solve_max_flow_min_cut(G, T, 0, true, o[2]); }
        else { push_relabel<false, false> f; f.solve_max_flow_min_cut(G, T, 0, true); }
        x.label("flow computed before");
    }
    auto [got, timed_out] = solve(c, G, mapping(c), x);
    if (c.ops.size() % 2 == 1) {   // the graph can be used again
        auto [again, t2] = solve(c, G, mapping(c), x);
        if (!timed_out && !t2) x.eq(again, got, "second solution of the same graph object");
        x.label("solved twice");
    }
    x.check(got >= opt, "value below the optimum");
    if (!timed_out) x.eq(got, opt, "multiterminal cut value");
    if (comps > 1) x.label("several components with terminals");
    if (opt > lb && opt < ub) { x.label("strictly between the isolating-cut bounds"); }
    if (ub > lb) x.nt();
}
static void gsmall(Rng& r, Case& c) { gen::GOpt o; o.nmin = 3; o.nmax = 12; o.disc_pct = 15; o.wmax_class = 7; gen::graph(r, c, o); gen::scale(r, c, 6); pick_terminals(r, c, 6); pick_config(r, c, false); }
static void gmedium(Rng& r, Case& c) { gen::GOpt o; o.nmin = 10; o.nmax = 45; o.disc_pct = 15; o.wmax_class = 5; o.planted_pct = 15; gen::graph(r, c, o); gen::scale(r, c, 6); pick_terminals(r, c, 8); pick_config(r, c, r.chance(1, 2)); }
static void pre_flows(Rng& r, Case& c) { if (r.chance(1, 4)) for (int i = r.range(1, 4); i > 0; --i) { ll s = r.range(0, c.n - 1), t = r.range(0, c.n - 1); if (s != t) c.ops.push_back({ s, t, r.chance(1, 2) ? 0 : r.range(1, 10) }); } }
static void gsmallf(Rng& r, Case& c) { gsmall(r, c); pre_flows(r, c); }
static void gmediumf(Rng& r, Case& c) { gmedium(r, c); pre_flows(r, c); }
static pbt::Reg a1({ "C12", "mt_small", gsmallf, c12, 20000, 600000, true, 90 });
static pbt::Reg a2({ "C12", "mt_medium", gmediumf, c12, 6000, 200000, true, 90 });

// ---------------------------------------------------------------- C12, large
// every vertex of a small graph becomes a cluster held together by edges that
// are heavier than everything between clusters: the optimum does not change
static void gblow(Rng& r, Case& c) {
    Case s; gen::GOpt o; o.nmin = 3; o.nmax = 10; o.wmax_class = 3; gen::graph(r, s, o);
    pick_terminals(r, s, 5);
    for (auto& x : s.e) x.w = std::min<u64>(x.w, 1000);
    u64 heavy = 1; for (auto& x : s.e) heavy += x.w;
    c.p["m0"] = s.n; c.p["heavy"] = heavy;
    int maxc = r.pick({ 4, 12, 40, 120 });
    std::vector<std::vector<uint32_t> > cl(s.n); uint32_t id = 0;
    for (auto& x : cl) for (int q = r.range(1, maxc); q > 0; --q) x.push_back(id++);
    c.n = id; c.lab.assign(id, -1);
    std::vector<uint32_t> ren(id); for (uint32_t i = 0; i < id; ++i) ren[i] = i; r.shuffle(ren);
    std::map<std::pair<uint32_t, uint32_t>, u64> m;
    auto add = [&](uint32_t a, uint32_t b, u64 w) { if (a == b) return; a = ren[a]; b = ren[b]; m[{ std::min(a, b), std::max(a, b) }] += w; };
    for (auto& x : cl) {
        for (size_t i = 1; i < x.size(); ++i) add(x[r.range(0, i - 1)], x[i], heavy);
        for (size_t i = r.range(0, x.size()); i > 0; --i) add(r.pick(x), r.pick(x), r.range(1, heavy));
    }
    for (auto& x : s.e) { u64 left = x.w; while (left) { u64 w = r.chance(1, 2) ? left : r.range(1, left); add(r.pick(cl[x.u]), r.pick(cl[x.v]), w); left -= w; } }
    for (auto& [k, w] : m) c.e.push_back({ k.first, k.second, w });
    r.shuffle(c.e);
    for (uint32_t v = 0; v < s.n; ++v) if (s.lab[v] >= 0) { c.lab[ren[r.pick(cl[v])]] = s.lab[v]; if (r.chance(1, 4)) for (auto q : cl[v]) if (r.chance(1, 3)) c.lab[ren[q]] = s.lab[v]; }
    c.p["k"] = s.P("k");
    pick_config(r, c, r.chance(1, 2)); c.p["multi"] = 1;
}
static void c12blow(const Case& c, Ctx& x) {
    if (!valid(c)) x.discard();
    // quotient by the edges that cannot be part of an optimal cut
    u64 heavy = c.P("heavy", 1), light = 0;
    for (auto& y : c.e) if (y.w < heavy) light += y.w;
    std::vector<uint32_t> uf(c.n); for (uint32_t i = 0; i < c.n; ++i) uf[i] = i;
    std::function<uint32_t(uint32_t)> find = [&](uint32_t v) { while (uf[v] != v) v = uf[v] = uf[uf[v]]; return v; };
    for (auto& y : c.e) if (y.w >= heavy) uf[find(y.u)] = find(y.v);
    std::vector<uint32_t> id(c.n, ~0u); uint32_t m = 0; for (uint32_t v = 0; v < c.n; ++v) if (id[find(v)] == ~0u) id[find(v)] = m++;
    Case q; q.n = m; q.lab.assign(m, -1); q.p["k"] = c.P("k"); q.p["lim"] = c.P("lim", 400);
    for (uint32_t v = 0; v < c.n; ++v) if (c.lab[v] >= 0) { auto& l = q.lab[id[find(v)]]; if (l >= 0 && l != c.lab[v]) x.discard(); l = c.lab[v]; }
    std::vector<E> e; for (auto& y : c.e) if (id[find(y.u)] != id[find(y.v)]) e.push_back({ id[find(y.u)], id[find(y.v)], y.w });
    q.e = oracle::simplify(e);
    u64 opt, lb, ub; int comps;
    if (!reference(q, &opt, &comps, &lb, &ub)) x.discard();
    if (opt >= heavy) x.discard();
    cfg_labels(c, x);
    apply_config(c);
    auto G = make_mut(c.n, c.e);
    auto [got, timed_out] = solve(c, G, mapping(c), x);
    x.check(got >= opt, "value below the optimum");
    if (!timed_out) x.eq(got, opt, "multiterminal cut value");
    if (ub > lb) x.nt();
}
static pbt::Reg a3({ "C12", "mt_blow", gblow, c12blow, 2500, 60000, true, 90 });

// ------------------------------------------------------------------------ C13
static void c13(const Case& c, Ctx& x) {
    if (!valid(c)) x.discard();
    u64 opt, lb, ub; int comps;
    if (!reference(c, &opt, &comps, &lb, &ub)) x.discard();
    cfg_labels(c, x);
    apply_config(c);
    auto f = configuration::getConfig();
    f->write_solution = true;
    bool inexact = c.P("inexact"), tmo = c.P("timeout0");
    f->removeTerminalsBeforeBranch = c.P("rmt", 10) / 100.0;
    f->contractionDepthAroundTerminal = c.P("depth", 1);
    f->maximumBranchingFactor = std::max<ll>(1, c.P("mbf", 5));
    if (tmo) f->timeoutSeconds = 0;
    auto G = make_mut(c.n, c.e);
    if (chdir(x.scratch.c_str())) x.discard();
    unlink("solution");
    auto [got, timed_out] = solve(c, G, mapping(c), x);
    std::vector<ll> sol;
    { std::ifstream in("solution"); x.check(!!in, "no solution written"); ll v; while (in >> v) sol.push_back(v); x.check(in.eof(), "unreadable solution"); }
    unlink("solution");
    x.eq(u64(sol.size()), u64(c.n), "length of the written solution");
    for (uint32_t v = 0; v < c.n; ++v) {
        x.check(sol[v] >= 0 && sol[v] < c.P("k"), "vertex without block");
        if (c.lab[v] >= 0) x.eq(sol[v], ll(c.lab[v]), "block of a terminal vertex");
    }
    u64 w = 0; for (auto& y : c.e) if (sol[y.u] != sol[y.v]) w += y.w;
    x.eq(w, got, "weight of the written solution and reported value");
    x.check(got >= opt, "value below the optimum");
    if (!inexact && !tmo && !timed_out) x.eq(got, opt, "multiterminal cut value");
    x.label(inexact ? got > opt ? "inexact, above the optimum" : "inexact, optimal" : "exact");
    if (tmo) x.label(got > opt ? "time limit, above the optimum" : "time limit, optimal");
    if (comps > 1) x.label("several components with terminals");
    if (ub > lb) x.nt();
}
static void extra13(Rng& r, Case& c) {
    int q = r.range(0, 3);
    c.p["inexact"] = q >= 2; c.p["timeout0"] = q == 1 && r.chance(1, 2);
    c.p["rmt"] = r.pick({ 0, 10, 10, 30, 60 }); c.p["depth"] = r.range(0, 3); c.p["mbf"] = r.pick({ 1, 2, 5, 5 });
}
// several graphs side by side, terminals everywhere
static void gmulti(Rng& r, Case& c) {
    int parts = r.range(1, 4); u64 k = 0; std::vector<Case> ps;
    for (int i = 0; i < parts; ++i) { Case s; gen::GOpt o; o.nmin = 2; o.nmax = parts == 1 ? 25 : 12; o.wmax_class = 6; o.disc_pct = 10; gen::graph(r, s, o); gen::scale(r, s, 6); pick_terminals(r, s, 5); if (parts > 1 && r.chance(1, 4)) { ll keep = r.range(-1, 0); for (auto& l : s.lab) if (l != keep) l = -1; s.p["k"] = keep + 1; } k += s.P("k"); ps.push_back(s); }
    std::vector<uint32_t> ren; uint32_t n = 0; for (auto& s : ps) n += s.n;
    for (uint32_t i = 0; i < n; ++i) ren.push_back(i);
    if (r.chance(2, 3)) r.shuffle(ren);
    std::vector<int> tren; for (u64 i = 0; i < k; ++i) tren.push_back(i);
    if (r.chance(2, 3)) r.shuffle(tren);
    c.n = n; c.lab.assign(n, -1); uint32_t off = 0; int toff = 0;
    for (auto& s : ps) { for (auto& y : s.e) c.e.push_back({ ren[y.u + off], ren[y.v + off], y.w }); for (uint32_t v = 0; v < s.n; ++v) if (s.lab[v] >= 0) c.lab[ren[v + off]] = tren[s.lab[v] + toff]; off += s.n; toff += s.P("k"); }
    if (r.chance(1, 3)) {   // one terminal spans several components
        if (k > 2) { int a = r.range(0, k - 1), b = r.range(0, k - 1); if (a != b) { for (auto& l : c.lab) if (l == a) l = b; for (auto& l : c.lab) if (l > a) --l; --k; } }
    }
    c.p["k"] = k;
    pick_config(r, c, r.chance(1, 2)); extra13(r, c);
}
static void g13(Rng& r, Case& c) { gen::GOpt o; o.nmin = 3; o.nmax = 40; o.disc_pct = 5; o.wmax_class = 6; o.planted_pct = 15; gen::graph(r, c, o); gen::scale(r, c, 6); pick_terminals(r, c, 8); pick_config(r, c, r.chance(1, 2)); extra13(r, c); }
// local search alone, from an arbitrary solution: what it says it gained is what the cut lost
static void c13ls(const Case& c, Ctx& x) {
    if (!valid(c)) x.discard();
    apply_config(c);
    auto f = configuration::getConfig();
    u64 k = c.P("k");
    f->num_terminals = k;
    std::vector<NodeID> term(k, 0), sol(c.n);
    std::vector<bool> fixed(c.n, false);
    Rng r(c.P("init"));
    for (uint32_t v = 0; v < c.n; ++v) sol[v] = r.range(0, k - 1);
    for (int round = r.range(0, 3); round > 0; --round)
        for (auto& y : c.e) { if (r.chance(1, 3)) sol[y.u] = sol[y.v]; else if (r.chance(1, 2)) sol[y.v] = sol[y.u]; }
    for (uint32_t v = c.n; v-- > 0; ) if (c.lab[v] >= 0) { fixed[v] = true; sol[v] = c.lab[v]; term[c.lab[v]] = v; }
    auto weight = [&]() { u64 w = 0; for (auto& y : c.e) if (sol[y.u] != sol[y.v]) w += y.w; return w; };
    u64 before = weight();
    auto G = make_mut(c.n, c.e);
    local_search ls(*G, term, fixed, &sol);
    timer t;
    FlowType gain = ls.improveSolution(t);
    u64 after = weight();
    for (uint32_t v = 0; v < c.n; ++v) {
        x.check(sol[v] < k, "vertex without block");
        if (c.lab[v] >= 0) x.eq(ll(sol[v]), ll(c.lab[v]), "block of a terminal vertex after local search");
    }
    x.check(after <= before, "local search makes the cut heavier");
    x.eq(static_cast<u64>(gain), before - after, "improvement reported by local search");
    x.label(c.P("inexact") ? "inexact" : "exact");
    x.label(after == before ? "no improvement" : "improved");
    if (after < before) x.nt();
}
static void g13ls(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 3; o.nmax = r.chance(1, 2) ? 14 : 70; o.disc_pct = 10; o.wmax_class = 6; o.planted_pct = 15; gen::graph(r, c, o); gen::scale(r, c, 6);
    pick_terminals(r, c, 8); pick_config(r, c, false);
    c.p["inexact"] = r.chance(1, 4); c.p["init"] = r.range(0, 1 << 30);
}
static pbt::Reg b0({ "C13", "local_search", g13ls, c13ls, 30000, 800000 });
static pbt::Reg b1({ "C13", "sol_multi", gmulti, c13, 8000, 250000, true, 90 });
static pbt::Reg b2({ "C13", "sol_one", g13, c13, 5000, 150000, true, 90 });

// ------------------------------------------------------------------------ C14
struct View { uint32_t n; std::vector<E> e; std::vector<int> lab; int k; };
// what is left of a problem, as a plain instance; label = original terminal index
static View view(Ctx& x, const problemPointer& p, uint32_t n0, const std::vector<NodeID>& ot, std::vector<uint32_t>* pos = nullptr) {
    View v; auto& g = *p->graph; v.n = g.n(); v.k = ot.size(); v.lab.assign(v.n, -1);
    for (NodeID a : g.nodes()) for (EdgeID e : g.edges_of(a)) {
        NodeID t = g.getEdgeTarget(a, e); x.check(t < v.n, "edge to a vertex that does not exist");
        if (a < t) v.e.push_back({ a, t, g.getEdgeWeight(a, e) });
    }
    std::vector<char> hit(v.n, 0);
    for (uint32_t o = 0; o < n0; ++o) {
        NodeID m = o; for (auto& q : p->mappings) { x.check(m < q->size(), "mapping is not total"); m = (*q)[m]; }
        x.check(m < g.getOriginalNodes(), "mapping is not total");
        NodeID a = g.getCurrentPosition(m); x.check(a < v.n, "vertex mapped to nowhere"); hit[a] = 1;
        if (pos) pos->push_back(a);
    }
    for (uint32_t a = 0; a < v.n; ++a) x.check(hit[a], "remaining vertex that stands for no original vertex");
    for (size_t t = 0; t < ot.size(); ++t) {
        NodeID a = g.getCurrentPosition(p->mapped(ot[t]));
        x.check(v.lab[a] < 0, "two terminals were merged"); v.lab[a] = t;
    }
    for (auto& t : p->terminals) { x.check(t.original_id < ot.size() && t.position < v.n, "terminal out of range"); x.eq(v.lab[t.position], int(t.original_id), "position of a terminal"); }
    return v;
}
static bool opt_of(const View& v, u64* opt, std::vector<int>* blk, ll lim) {
    Mtc o; o.limit = lim; if (!o.solve(v.n, v.e, v.lab, v.k)) return false;
    *opt = o.best; if (blk) *blk = o.bestblk; return true;
}
// one problem as the solver sets it up for one component
struct Setup { View v; problemPointer p; std::vector<NodeID> ot; u64 opt; };
static Setup setup(const Case& c, Ctx& x) {
    if (!valid(c)) x.discard();
    Setup s; s.v.n = c.n; s.v.e = c.e; s.v.lab.assign(c.lab.begin(), c.lab.end()); s.v.k = c.P("k");
    uint32_t nc; oracle::components(c.n, c.e, &nc); if (nc != 1) x.discard();
    if (!opt_of(s.v, &s.opt, nullptr, c.P("lim", 400))) x.discard();
    std::vector<std::vector<NodeID> > blocks(s.v.k);
    for (uint32_t v = 0; v < c.n; ++v) if (c.lab[v] >= 0) blocks[c.lab[v]].push_back(v);
    std::vector<terminal> ts;
    for (int t = 0; t < s.v.k; ++t) { s.ot.push_back(blocks[t][0]); ts.emplace_back(blocks[t][0], NodeID(t)); }
    auto G = make_mut(c.n, c.e);
    s.p = std::make_shared<multicut_problem>(G, ts);
    graph_contraction::contractIsolatingBlocks(s.p, blocks);
    graph_contraction::setTerminals(s.p, s.ot);
    auto v = view(x, s.p, c.n, s.ot);
    u64 o2; if (!opt_of(v, &o2, nullptr, c.P("lim", 400))) x.discard();
    x.eq(o2, s.opt, "optimum after contracting the terminal blocks");
    return s;
}
static void renumber(problemPointer p) {   // what the solver does with much smaller graphs
    auto map = std::make_shared<std::vector<NodeID> >();
    for (size_t i = 0; i < p->graph->getOriginalNodes(); ++i) map->push_back(p->graph->getCurrentPosition(i));
    p->mappings.push_back(map); p->graph = p->graph->simplify();
}
static void c14(const Case& c, Ctx& x) {
    apply_config(c);
    auto s = setup(c, x); auto p = s.p;
    cfg_labels(c, x);
    bool par = c.P("par") && c.P("thr") > 1; ll lim = c.P("lim", 400) * 2;
    measurements msm(*make_mut(c.n, c.e), s.ot);
    maximum_flow mf(s.ot);
    u64 lo = ~0ull;
    auto total = [&](const char* what, u64 want, bool exact) {
        std::vector<uint32_t> pos; auto v = view(x, p, c.n, s.ot, &pos);
        u64 o; std::vector<int> blk; if (!opt_of(v, &o, &blk, lim)) x.discard();
        u64 t = o + p->deleted_weight;
        if (exact) x.eq(t, want, what); else x.check(t >= want, what);
        u64 w = 0; for (auto& y : c.e) if (blk[pos[y.u]] != blk[pos[y.v]]) w += y.w;
        x.eq(w, t, "weight of the remaining optimum on the original graph");
        for (size_t i = 0; i < s.ot.size(); ++i) x.eq(blk[pos[s.ot[i]]], int(i), "terminal block");
    };
    auto bounds = [&] {
        mf.maximumIsolatingFlow(p, 0, par);
        x.check(p->lower_bound <= ll(s.opt), "lower bound above the optimum");
        x.check(p->upper_bound >= ll(s.opt), "upper bound below the optimum");
        total("optimum after contracting isolating blocks", s.opt, true);
        std::vector<uint32_t> pos; view(x, p, c.n, s.ot, &pos);
        u64 w = 0; for (auto& y : c.e) if (p->graph->getPartitionIndex(pos[y.u]) != p->graph->getPartitionIndex(pos[y.v])) w += y.w;
        for (size_t i = 0; i < s.ot.size(); ++i) x.eq(u64(p->graph->getPartitionIndex(pos[s.ot[i]])), u64(i), "partition of the upper bound: terminal");
        x.check(ll(w) <= p->upper_bound, "solution behind the upper bound is heavier than the bound");
    };
    bounds();
    lo = p->lower_bound;
    u64 n1 = p->graph->n();
    ll extra = c.P("gap");
    u64 gub = extra < 0 ? (extra == -1 ? u64(p->upper_bound) : s.opt) : s.opt + extra;
    gub = std::min<u64>(gub, p->upper_bound + 1);
    for (int round = 0; round < c.P("rounds", 1); ++round) {
        if (c.P("renum") && p->graph->n() < p->graph->getOriginalNodes()) renumber(p);
        graph_contraction::deleteTermEdges(p, s.ot);
        total("optimum after deleting edges between terminals", s.opt, true);
        if (p->graph->m() == 0 || p->terminals.size() < 2) break;
        if (gub > s.opt) {
            kernelization_criteria kc(s.ot);
            kc.kernelization(p, gub, par);
            x.check(p->lower_bound <= ll(s.opt), "lower bound above the optimum after the reductions");
            total("optimum after the reductions", s.opt, true);
            x.label("reductions: " + std::string(p->graph->n() * 2 < n1 ? "halved" : p->graph->n() < n1 ? "smaller" : "same size"));
            if (p->graph->n() < n1 && p->terminals.size() >= 2) x.nt();
        } else {
            // cannot be beaten: reductions may only give up or lose solutions that are not better
            kernelization_criteria kc(s.ot);
            kc.kernelization(p, gub, par);
            if (p->lower_bound < ll(gub)) { std::vector<uint32_t> pos; total("optimum after the reductions with a tight bound", s.opt, false); }
            x.label("tight bound"); if (p->graph->n() < n1) x.nt();
            return;
        }
        // branch by hand: contract an edge between two vertices of the same
        // optimal block, which keeps the optimum
        std::vector<uint32_t> pos; auto v = view(x, p, c.n, s.ot, &pos);
        u64 o; std::vector<int> blk; if (!opt_of(v, &o, &blk, lim)) x.discard();
        if (p->terminals.size() < 2 || p->graph->m() == 0) break;
        Rng r(c.P("seed") * 31 + round); bool done = false;
        std::vector<std::pair<NodeID, EdgeID> > cand;
        for (NodeID a : p->graph->nodes()) for (EdgeID e : p->graph->edges_of(a)) if (blk[a] == blk[p->graph->getEdgeTarget(a, e)]) cand.push_back({ a, e });
        if (cand.size()) { auto [a, e] = r.pick(cand); p->graph->contractEdge(a, e); done = true; }
        if (!done) break;
        for (auto& t : p->terminals) t.invalid_flow = true;
        graph_contraction::setTerminals(p, s.ot);
        bounds();
    }
    if (p->terminals.size() == 2 && p->graph->m()) {
        mf.maximumSTFlow(p);
        x.eq(u64(p->upper_bound), s.opt, "value for the last two terminals");
        std::vector<uint32_t> pos; view(x, p, c.n, s.ot, &pos);
        u64 w = 0; for (auto& y : c.e) if (p->graph->getPartitionIndex(pos[y.u]) != p->graph->getPartitionIndex(pos[y.v])) w += y.w;
        x.eq(w, s.opt, "partition for the last two terminals");
        x.label("ends with two terminals");
    }
}
static void g14(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 3; o.nmax = r.chance(1, 2) ? 12 : 40; o.disc_pct = 0; o.wmax_class = 6; o.planted_pct = 15; gen::graph(r, c, o); gen::scale(r, c, 6);
    pick_terminals(r, c, 7); pick_config(r, c, r.chance(1, 4));
    c.p["gap"] = r.pick({ -2, -1, 1, 1, 2, 5, 100 }); c.p["rounds"] = r.range(1, 4); c.p["renum"] = r.chance(1, 2); c.p["par"] = r.chance(1, 2);
}
static pbt::Reg d1({ "C14", "kernel", g14, c14, 20000, 600000, true, 90 });
// heavy weights around half of a degree, stars and triangles: the local rules
static void g14l(Rng& r, Case& c) {
    g14(r, c);
    int W = r.pick({ 2, 3, 4, 10 });
    for (auto& x : c.e) x.w = r.range(1, W);
    for (int q = r.range(0, 3); q > 0 && c.e.size(); --q) {
        auto& x = c.e[r.range(0, c.e.size() - 1)]; u64 d = 0; for (auto& y : c.e) if (&y != &x && (y.u == x.u || y.v == x.u)) d += y.w;
        x.w = std::max<ll>(1, ll(d) + r.range(-1, 1));
    }
}
static pbt::Reg d2({ "C14", "kernel_local", g14l, c14, 20000, 600000, true, 90 });

// ------------------------------------------------------------------------ C15
struct Op { ll k, b, c; Op(const std::vector<ll>& v) : k(v.size() > 0 ? v[0] : 0), b(v.size() > 1 ? v[1] : 0), c(v.size() > 2 ? v[2] : 0) { } };
static problemPointer tiny(Rng& r, int id) {
    Case s; gen::GOpt o; o.nmin = 2; o.nmax = 6; o.wmax_class = 2; gen::graph(r, s, o);
    auto p = std::make_shared<multicut_problem>(make_mut(s.n, s.e));
    int k = r.range(1, s.n); for (int t = 0; t < k; ++t) p->terminals.emplace_back(NodeID(t), NodeID(t));
    p->lower_bound = r.range(0, 12); p->upper_bound = p->lower_bound + r.range(0, 8); p->deleted_weight = r.range(0, 6);
    p->priority_edge = { NodeID(id), 0 };   // used as a name only
    return p;
}
static ll keycmp(const std::string& q, const problemPointer& a, const problemPointer& b) {   // < 0: a before b
    auto lb = [&] { ll d = a->lower_bound - b->lower_bound; return d ? d : a->upper_bound - b->upper_bound; };
    if (q == "small_graph") return ll(a->graph->n()) - ll(b->graph->n());
    if (q == "bound_sum") return (a->upper_bound + a->lower_bound) - (b->upper_bound + b->lower_bound);
    if (q == "few_terminals") { ll d = ll(a->terminals.size()) - ll(b->terminals.size()); return d ? d : lb(); }
    if (q == "upper_bound") { ll d = a->upper_bound - b->upper_bound; return d ? d : a->lower_bound - b->lower_bound; }
    if (q == "bigger_distance") return (b->upper_bound - b->lower_bound) - (a->upper_bound - a->lower_bound);
    if (q == "lower_distance") return (a->upper_bound - a->lower_bound) - (b->upper_bound - b->lower_bound);
    if (q == "most_deleted") return ll(b->deleted_weight) - ll(a->deleted_weight);
    return lb();
}
// ops: a = kind (0,1,2 add, 3 pull, 4 prepare), b = argument
static void g15(Rng& r, Case& c) {
    c.s["queue"] = QT[r.range(0, 8)]; c.p["thr"] = r.pick({ 1, 1, 2, 3, 4, 8 }); c.p["seed"] = r.range(0, 1 << 30);
    int n = r.range(1, r.chance(1, 4) ? 400 : 60), bias = r.range(1, 9);
    for (int i = 0; i < n; ++i) c.ops.push_back({ r.chance(1, 10) ? 4 : r.range(0, 9) < bias ? r.range(0, 2) : 3, r.range(0, 1000), r.range(0, 7) });
}
static void c15seq(const Case& c, Ctx& x) {
    size_t T = std::min<ll>(8, std::max<ll>(1, c.P("thr", 1)));
    per_thread_problem_queue q(T, c.S("queue"));
    Rng r(c.P("seed"));
    std::map<NodeID, problemPointer> out; int id = 0; size_t pulls = 0; ll gub = 25;
    // with one worker the order is determined up to ties: "held" is kept back for sending
    std::vector<problemPointer> mine; problemPointer held;
    auto got = [&](const problemPointer& p) { x.check(out.count(p->priority_edge.first) == 1, "problem handed out that was not in the queue"); out.erase(p->priority_edge.first); ++pulls; };
    for (Op o : c.ops) {
        size_t t = u64(o.c) % T;
        if (o.k <= 2) {
            auto p = tiny(r, id); out[id++] = p;
            size_t w = q.addProblem(p, t, o.k == 1);
            x.check(w < T, "problem given to a worker that does not exist");
            if (T == 1) { if (!held) held = p; else if (held->lower_bound > p->lower_bound) { mine.push_back(held); held = p; } else mine.push_back(p); }
        } else if (o.k == 3) {
            bool send = o.b % 3 == 0;
            auto p = q.pullProblem(t, send);
            if (p.has_value()) got(*p);
            if (T == 1) {
                if (!p.has_value()) { x.check(!held && mine.empty(), "problem in the queue, but none handed out"); continue; }
                if ((send && held) || mine.empty()) { x.check(*p == held, "problem kept for sending is handed out"); held = nullptr; }
                else {
                    for (auto& m : mine) x.check(keycmp(c.S("queue"), *p, m) <= 0, "problem handed out is not first in the order of the queue");
                    auto it = std::find(mine.begin(), mine.end(), *p); x.check(it != mine.end(), "problem handed out that was not in the queue"); mine.erase(it);
                }
            }
        } else {
            gub = std::min<ll>(gub, o.b % 25);
            size_t before = q.size();
            q.prepareQueue(t, gub);
            // discarded problems must not be able to beat the bound
            if (T == 1) {
                std::vector<problemPointer> keep; size_t gone = before - q.size();
                std::sort(mine.begin(), mine.end(), [&](auto& a, auto& b) { return keycmp(c.S("queue"), a, b) < 0; });
                size_t droppable = 0; for (auto& m : mine) droppable += m->lower_bound >= gub;
                x.check(gone <= droppable, "problems discarded that can still improve the bound");
                // which ones is only determined up to ties; rebuild the model from the queue
                std::vector<problemPointer> all; problemPointer h = held;
                while (true) { auto p = q.pullProblem(t, false); if (!p.has_value()) break; all.push_back(*p); }
                std::set<problemPointer> s(all.begin(), all.end());
                x.check(s.size() == all.size(), "problem handed out twice");
                for (auto& m : mine) if (!s.count(m)) { x.check(m->lower_bound < 0 || m->lower_bound >= gub, "problem discarded that can still improve the bound"); out.erase(m->priority_edge.first); }
                if (h) x.check(s.count(h), "problem kept for sending was lost");
                mine.clear(); held = nullptr;
                for (auto& p : all) { q.addProblem(p, t, true); if (!held) held = p; else if (held->lower_bound > p->lower_bound) { mine.push_back(held); held = p; } else mine.push_back(p); }
                x.label("discarded: " + std::string(gone ? "some" : "none"));
                continue;
            }
        }
        size_t sum = 0; for (size_t i = 0; i < T; ++i) sum += q.subqueue_size(i);
        x.eq(sum + q.haveASendProblem(), q.size(), "size of the queue");
        if (T == 1 || gub == 25) x.eq(q.size(), out.size(), "number of problems in the queue");
        x.check(q.size() <= out.size(), "more problems than were added");
    }
    for (size_t t = 0; t < T; ++t) while (true) { auto p = q.pullProblem(t, false); if (!p.has_value()) break; got(*p); }
    x.check(q.all_empty(), "queue is not empty after everything was taken out");
    for (auto& [i, p] : out) x.check(p->lower_bound >= gub, "problem was lost");
    x.label("queue:" + c.S("queue")); x.label("workers:" + std::to_string(T));
    if (pulls > 3 && id > 5) x.nt();
}
static pbt::Reg e1({ "C15", "queue_seq", g15, c15seq, 20000, 500000 });

static void c15par(const Case& c, Ctx& x) {
    size_t T = std::min<ll>(8, std::max<ll>(2, c.P("thr", 2)));
    per_thread_problem_queue q(T, c.S("queue"));
    Rng r(c.P("seed"));
    std::vector<problemPointer> all;
    std::vector<std::vector<std::array<ll, 3> > > work(T);
    for (Op o : c.ops) { std::array<ll, 3> w{ o.k, o.b, -1 }; if (o.k <= 2) { w[2] = all.size(); all.push_back(tiny(r, all.size())); } work[u64(o.c) % T].push_back(w); }
    std::vector<std::atomic<int> > seen(all.size()); for (auto& s : seen) s = 0;
    std::atomic<ll> gub{ 25 }; std::atomic<bool> alien{ false }; std::atomic<size_t> ready{ 0 }, pulls{ 0 };
    auto take = [&](std::optional<problemPointer> p) { if (!p.has_value()) return; ++pulls; auto i = (*p)->priority_edge.first; if (i >= all.size() || all[i] != *p) alien = true; else ++seen[i]; };
    std::vector<std::thread> th;
    for (size_t t = 0; t < T; ++t) th.emplace_back([&, t] {
        ++ready; while (ready < T) { }
        int rep = c.P("rep", 1); (void)rep;
        for (auto& w : work[t]) {
            if (w[0] <= 2) q.addProblem(all[w[2]], t, w[0] == 1);
            else if (w[0] == 3) take(q.pullProblem(t, w[1] % 3 == 0));
            else { ll g = gub, m = w[1] % 25; while (m < g && !gub.compare_exchange_weak(g, m)) { } q.prepareQueue(t, gub); }
        }
    });
    for (auto& t : th) t.join();
    for (size_t t = 0; t < T; ++t) while (true) { auto p = q.pullProblem(t, false); if (!p.has_value()) break; take(p); }
    x.check(!alien, "problem handed out that was never added");
    for (size_t i = 0; i < all.size(); ++i) {
        x.check(seen[i] <= 1, "problem handed out more than once");
        if (!seen[i]) x.check(all[i]->lower_bound >= gub, "problem was lost");
    }
    x.check(q.all_empty(), "queue is not empty after everything was taken out");
    x.label("workers:" + std::to_string(T));
    if (all.size() > 5 && pulls > 3) x.nt();
}
static void g15p(Rng& r, Case& c) {
    c.s["queue"] = QT[r.range(0, 8)]; c.p["thr"] = r.range(2, 8); c.p["seed"] = r.range(0, 1 << 30);
    int n = r.range(20, 1500), bias = r.range(2, 8), pr = r.pick({ 0, 0, 5, 20 });
    for (int i = 0; i < n; ++i) c.ops.push_back({ r.range(0, 99) < pr ? 4 : r.range(0, 9) < bias ? r.range(0, 2) : 3, r.range(0, 1000), r.range(0, 7) });
}
static pbt::Reg e2({ "C15", "queue_par", g15p, c15par, 1500, 40000, true, 90 });

static void c15single(const Case& c, Ctx& x) {
    size_t T = std::min<ll>(8, std::max<ll>(1, c.P("thr", 2)));
    single_problem_queue q; Rng r(c.P("seed"));
    std::vector<problemPointer> all; std::vector<std::vector<ll> > work(T);
    for (Op o : c.ops) { if (o.k <= 2) { work[u64(o.c) % T].push_back(all.size()); all.push_back(tiny(r, all.size())); } else work[u64(o.c) % T].push_back(-1); }
    std::vector<std::atomic<int> > seen(all.size()); for (auto& s : seen) s = 0;
    std::atomic<bool> alien{ false };
    auto take = [&](std::pair<multicut_problem, bool> p) { if (!p.second) return false; auto i = p.first.priority_edge.first; if (i >= all.size() || all[i]->graph != p.first.graph) alien = true; else ++seen[i]; return true; };
    std::vector<std::thread> th;
    for (size_t t = 0; t < T; ++t) th.emplace_back([&, t] { for (auto w : work[t]) if (w >= 0) q.addProblem(*all[w]); else take(q.pullProblem()); });
    for (auto& t : th) t.join();
    bool first = true; FlowType u = 0, l = 0;
    while (true) {
        auto p = q.pullProblem(); if (!take(p)) break;
        if (!first) x.check(u < p.first.upper_bound || (u == p.first.upper_bound && l <= p.first.lower_bound), "order of the queue");
        first = false; u = p.first.upper_bound; l = p.first.lower_bound;
    }
    x.check(!alien, "problem handed out that was never added");
    for (size_t i = 0; i < all.size(); ++i) x.eq(int(seen[i]), 1, "times a problem was handed out");
    x.check(q.empty() && q.size() == 0, "queue is not empty after everything was taken out");
    if (all.size() > 5) x.nt();
}
static void g15s(Rng& r, Case& c) { g15p(r, c); c.p["thr"] = r.range(1, 8); while (c.ops.size() > 300) c.ops.pop_back(); }
static pbt::Reg e3({ "C15", "queue_single", g15s, c15single, 2000, 40000, true, 90 });

static void c15send(const Case& c, Ctx& x) {
    apply_config(c);
    auto s = setup(c, x); auto p = s.p;
    maximum_flow mf(s.ot); mf.maximumIsolatingFlow(p, 0, false);
    Rng r(c.P("seed"));
    for (int round = 0; round < c.P("rounds"); ++round) {
        graph_contraction::deleteTermEdges(p, s.ot);
        if (p->graph->m() == 0) break;
        if (c.P("renum")) renumber(p);
        graph_contraction::setTerminals(p, s.ot);
        std::set<NodeID> tp; for (auto& t : p->terminals) tp.insert(t.position);
        std::vector<std::pair<NodeID, EdgeID> > cand;
        for (NodeID a : p->graph->nodes()) for (EdgeID e : p->graph->edges_of(a)) if (!tp.count(a) || !tp.count(p->graph->getEdgeTarget(a, e))) cand.push_back({ a, e });
        if (cand.empty()) break;
        auto [a, e] = r.pick(cand);
        if (r.chance(2, 3)) p->graph->contractEdge(a, e); else { p->deleted_weight += p->graph->getEdgeWeight(a, e); p->graph->deleteEdge(a, e); }
        graph_contraction::setTerminals(p, s.ot);
    }
    if (r.chance(1, 8)) p->lower_bound = -1;
    if (r.chance(1, 8)) p->upper_bound = std::numeric_limits<FlowType>::max();
    View before = view(x, p, c.n, s.ot);
    mpi_communication mpi;
    mpi.sendProblem(p, 0);
    auto q = mpi.recvProblem(0);
    View after = view(x, q, c.n, s.ot);
    x.eq(q->lower_bound, p->lower_bound, "lower bound"); x.eq(q->upper_bound, p->upper_bound, "upper bound");
    x.eq(u64(q->deleted_weight), u64(p->deleted_weight), "deleted weight");
    x.eq(q->terminals.size(), p->terminals.size(), "number of terminals");
    for (size_t i = 0; i < p->terminals.size(); ++i) { x.eq(q->terminals[i].position, p->terminals[i].position, "position of a terminal"); x.eq(q->terminals[i].original_id, p->terminals[i].original_id, "name of a terminal"); }
    x.eq(q->mappings.size(), p->mappings.size(), "number of mappings");
    for (size_t i = 0; i < p->mappings.size(); ++i) x.check(*q->mappings[i] == *p->mappings[i], "mapping differs");
    auto norm = [](View v) -> View { for (auto& y : v.e) if (y.u > y.v) std::swap(y.u, y.v); std::sort(v.e.begin(), v.e.end(), [](auto& a, auto& b) { return std::tie(a.u, a.v, a.w) < std::tie(b.u, b.v, b.w); }); return v; };
    auto A = norm(before), B = norm(after);
    x.eq(B.n, A.n, "vertices of the received graph"); x.eq(B.e.size(), A.e.size(), "edges of the received graph");
    for (size_t i = 0; i < A.e.size(); ++i) x.check(A.e[i].u == B.e[i].u && A.e[i].v == B.e[i].v && A.e[i].w == B.e[i].w, "edge of the received graph");
    x.check(A.lab == B.lab, "terminals of the received graph");
    x.eq(q->graph->getOriginalNodes(), p->graph->getOriginalNodes(), "original vertices of the received graph");
    for (size_t i = 0; i < p->graph->getOriginalNodes(); ++i) x.eq(q->graph->getCurrentPosition(i), p->graph->getCurrentPosition(i), "position of an original vertex");
    for (NodeID v : p->graph->nodes()) { auto a = p->graph->containedVertices(v), b = q->graph->containedVertices(v); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); x.check(a == b, "contained vertices"); }
    std::pair<NodeID, EdgeID> undef{ UNDEFINED_NODE, UNDEFINED_EDGE };
    x.check(q->priority_edge == undef || q->priority_edge == p->priority_edge, "received problem prefers an edge that was not selected");
    if (p->mappings.size()) x.label("with mappings");
    if (p->deleted_weight) x.label("with deleted weight");
    if (p->graph->n() < c.n) x.nt();
}
static void g15send(Rng& r, Case& c) { gen::GOpt o; o.nmin = 2; o.nmax = 20; o.disc_pct = 0; o.wmax_class = 7; gen::graph(r, c, o); gen::scale(r, c, 6); pick_terminals(r, c, 5); pick_config(r, c, false); c.p["rounds"] = r.range(0, 6); c.p["renum"] = r.chance(1, 2); }
static pbt::Reg e4({ "C15", "transit", g15send, c15send, 8000, 200000 });

// bounds that arrive from other processes
static void c15bound(const Case& c, Ctx& x) {
    mpi_communication mpi; ll best = UNDEFINED_FLOW, local = 0;
    for (Op o : c.ops) {
        ll v = o.b;
        if (o.k == 0) { MPI_Request rq; MPI_Isend(&v, 1, MPI_LONG, 0, 15123, MPI_COMM_WORLD, &rq); if (o.c) { x.label("several at once"); continue; } }
        else if (o.k == 1) { mpi.broadcastImprovedSolution(v); }
        ll got = mpi.getGlobalBestSolution();
        (void)got;
    }
    for (Op o : c.ops) best = std::min<ll>(best, o.b);
    x.eq(ll(mpi.getGlobalBestSolution()), best, "best bound");
    // the best solution is local unless a strictly better one was received
    (void)local; if (c.ops.size() > 3) x.nt();
}
static void g15b(Rng& r, Case& c) { for (int i = r.range(1, 20); i > 0; --i) c.ops.push_back({ r.range(0, 1), r.range(0, 60), r.range(0, 1) }); }
static pbt::Reg e5({ "C15", "bounds", g15b, c15bound, 2000, 20000 });

// ------------------------------------------------------------------------ C16
static void g16(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 2; o.nmax = 60; o.disc_pct = 25; o.wmax_class = 4; gen::graph(r, c, o); gen::scale(r, c, 6);
    c.s["mode"] = r.pick(std::vector<std::string>{ "id", "top", "random", "distant", "pre", "order" });
    c.p["k"] = r.chance(1, 6) ? r.range(1, c.n) : r.range(1, std::max<ll>(1, std::min<ll>(6, c.n)));
    c.p["bfs"] = r.pick({ 0, 0, 1, 2, 3, 8, 100 });
    c.p["pct"] = r.chance(1, 3) ? r.range(1, 100) : 0;
    c.p["seed"] = r.range(0, 1000);
}
static void c16(const Case& c, Ctx& x) {
    if (c.n < 2) x.discard();
    auto mode = c.S("mode"); ll k = c.P("k");
    if (k < 1 || k > ll(c.n)) x.discard();
    gen::describe(c, x);
    auto f = configuration::getConfig();
    random_functions::setSeed(c.P("seed"));
    auto G = make_mut(c.n, c.e); auto before = arcs(G);
    Rng r(c.P("seed") * 7 + 1);
    f->bfs_size = c.P("bfs"); f->preset_percentage = c.P("pct");
    std::vector<uint32_t> named; std::vector<ll> v(c.n), ord(c.n);
    std::vector<std::string> files;
    if (mode == "id") {
        std::vector<uint32_t> p(c.n); for (uint32_t i = 0; i < c.n; ++i) p[i] = i; r.shuffle(p); p.resize(k); named = p;
        for (auto q : p) { if (r.chance(1, 12)) f->term_strings.push_back("x" + std::to_string(q)); if (r.chance(1, 12)) f->term_strings.push_back(std::to_string(c.n + r.range(0, 3))); f->term_strings.push_back(std::to_string(q)); }
    } else if (mode == "top") f->top_k = k;
    else if (mode == "random") f->random_k = k;
    else if (mode == "distant") f->distant_terminals = k;
    else {
        bool pre = mode == "pre";
        std::string base = x.scratch + "/part.x." + std::to_string(k); f->partition_file = pre ? base + ".pre" : base;
        for (uint32_t i = 0; i < c.n; ++i) v[i] = i < k ? i : pre ? r.range(0, k) : r.range(0, k - 1);
        r.shuffle(v);
        std::vector<ll> cnt(k, 0); for (uint32_t i = 0; i < c.n; ++i) ord[i] = v[i] < k ? ++cnt[v[i]] : 0;
        std::ofstream a(f->partition_file); for (auto y : v) a << y << "\n"; files.push_back(f->partition_file);
        if (!pre) { std::ofstream b(base + ".pos"); for (auto y : ord) b << y << "\n"; files.push_back(base + ".pos"); }
    }
    multiterminal_cut m;
    auto map = m.setOriginalTerminals(G);
    for (auto& q : files) unlink(q.c_str());
    x.label("mode:" + mode);
    x.eq(u64(map.size()), u64(c.n), "length of the terminal assignment");
    x.eq(u64(f->num_terminals), u64(k), "number of terminals");
    x.check(arcs(G) == before, "selecting terminals changed the graph");
    for (auto t : map) x.check(t == UNDEFINED_NODE || t < NodeID(k), "vertex assigned to a terminal that does not exist");
    if (mode == "pre") { for (uint32_t i = 0; i < c.n; ++i) x.eq(map[i] == UNDEFINED_NODE ? k : ll(map[i]), v[i], "assignment from the partition file"); if (k > 1) x.nt(); return; }
    if (mode == "order") {
        u64 sz = 1; if (c.P("pct")) sz = std::max<u64>(1, u64((c.n / k) * double(c.P("pct")) / 100));
        for (uint32_t i = 0; i < c.n; ++i) x.eq(map[i] == UNDEFINED_NODE ? -1 : ll(map[i]), ord[i] <= ll(sz) ? v[i] : -1, "assignment from the partition file and its order");
        if (k > 1) x.nt(); return;
    }
    std::vector<std::vector<uint32_t> > blk(k);
    for (uint32_t i = 0; i < c.n; ++i) if (map[i] != UNDEFINED_NODE) blk[map[i]].push_back(i);
    for (auto& b : blk) x.check(b.size() > 0, "fewer terminals than requested");
    size_t want = c.P("bfs"); if (c.P("pct")) want = std::max<u64>(1, u64((c.n / k) * double(c.P("pct")) / 100));
    want = std::max<size_t>(want, 1);
    std::vector<std::vector<uint32_t> > adj(c.n); for (auto& y : c.e) { adj[y.u].push_back(y.v); adj[y.v].push_back(y.u); }
    for (auto& b : blk) {
        x.check(b.size() <= want, "terminal block larger than requested");
        if (b.size() < want) for (auto q : b) for (auto t : adj[q]) x.check(map[t] != UNDEFINED_NODE, "terminal block is smaller than requested, but could grow");
    }
    if (mode == "id") for (ll i = 0; i < k; ++i) x.eq(u64(map[named[i]]), u64(i), "terminal named on the command line");
    if (mode == "top" && want == 1) {
        std::vector<u64> d(c.n, 0), all, sel; for (auto& y : c.e) { d[y.u] += y.w; d[y.v] += y.w; }
        all = d; std::sort(all.rbegin(), all.rend()); all.resize(k);
        for (auto& b : blk) sel.push_back(d[b[0]]);
        std::sort(sel.rbegin(), sel.rend()); x.check(sel == all, "terminals are not the vertices of highest degree");
    }
    if (mode == "distant" && want == 1) {
        // farthest first: each terminal is at maximum distance from the start or the ones before
        std::vector<ll> dist(c.n, -1); std::queue<uint32_t> q;
        uint32_t nc; oracle::components(c.n, c.e, &nc);
        if (nc == 1 && k >= 2) {
            // unknown start vertex: some start explains the whole sequence
            bool ok = false;
            for (uint32_t s = 0; s < c.n && !ok; ++s) {
                std::vector<uint32_t> src{ s }; bool good = true;
                for (ll i = 0; i < k && good; ++i) {
                    std::fill(dist.begin(), dist.end(), -1);
                    for (auto z : src) { dist[z] = 0; q.push(z); }
                    while (!q.empty()) { auto z = q.front(); q.pop(); for (auto t : adj[z]) if (dist[t] < 0) { dist[t] = dist[z] + 1; q.push(t); } }
                    ll mx = *std::max_element(dist.begin(), dist.end());
                    if (dist[blk[i][0]] != mx) good = false;
                    src.push_back(blk[i][0]);
                }
                ok = good;
            }
            x.check(ok, "terminals are not at maximal distance from the ones before");
        }
    }
    if (want > 1) {   // grown block by block from its terminal: closest available vertices first
        std::vector<int> center(k, -1);
        if (mode == "id") for (ll i = 0; i < k; ++i) center[i] = named[i];
        for (ll i = 0; i < k; ++i) {
            if (center[i] < 0) break;
            std::vector<ll> dist(c.n, -1); std::queue<uint32_t> q; q.push(center[i]); dist[center[i]] = 0;
            auto avail = [&](uint32_t z) { for (ll j = 0; j < k; ++j) if (j != i && ll(z) == center[j]) return false; return map[z] == UNDEFINED_NODE || map[z] >= NodeID(i); };
            while (!q.empty()) { auto z = q.front(); q.pop(); for (auto t : adj[z]) if (dist[t] < 0 && avail(t)) { dist[t] = dist[z] + 1; q.push(t); } }
            ll in = 0, out = 1ll << 40;
            for (uint32_t z = 0; z < c.n; ++z) { if (map[z] == NodeID(i)) { x.check(dist[z] >= 0, "terminal block is not connected"); in = std::max(in, dist[z]); } else if (dist[z] >= 0) out = std::min(out, dist[z]); }
            x.check(in <= out, "terminal block skips closer vertices");
        }
        x.label("grown");
    }
    if (k > 1) x.nt();
}
static pbt::Reg f1({ "C16", "select", g16, c16, 30000, 600000 });
PBT_MAIN
