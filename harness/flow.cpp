// C11 maximum flow (push-relabel), all template variants, histories on one graph / solver object
#include "mincut_common.h"
#include "algorithms/flow/push_relabel.h"

// operations
//  {0, variant, srcindex, limit, depth, set, t0, t1, ...}   flow; variant: 0 plain, 1 parallel, 2 limited, 3 limited+parallel; +8: reuse the solver object, +16: default problem id
//  {1, u, v, w} new edge    {2, u, v} delete edge   {3, u, v, w} change weight
//  {4, u, v} contract edge  {5} continue on a copy  {6, n2, seed} run the reused solver on another graph
static void fgen(Rng& r, Case& c, uint32_t lo, uint32_t hi, int len, int wcls) {
    gen::GOpt o; o.nmin = lo; o.nmax = hi; o.multi = r.chance(1, 8); o.wmax_class = wcls; o.disc_pct = 10;
    gen::graph(r, c, o); gen::scale(r, c, 6);
    for (int i = 0; i < len; ++i) {
        int k = r.range(0, 11);
        if (i == 0 || k < 6) {
            int var = r.range(0, 3);
            ll nt = (var >= 2) ? 2 : r.range(2, std::max<ll>(2, std::min<ll>(6, c.n)));
            std::vector<ll> t; for (uint32_t v = 0; v < c.n; ++v) t.push_back(v);
            r.shuffle(t); t.resize(std::min<size_t>(nt, t.size()));
            if (t.size() < 2) break;
            ll lim = r.chance(1, 3) ? r.range(1, 5) : r.chance(1, 2) ? r.range(1, 40) : r.range(1, 1ll << r.range(1, 40));
            std::vector<ll> op { 0, var + (r.chance(1, 2) ? 8 : 0) + (r.chance(1, 2) ? 16 : 0), r.range(0, t.size() - 1), lim, r.pick({ 0, 1, 1, 2, 3, 7 }), r.chance(3, 4) };
            op.insert(op.end(), t.begin(), t.end());
            c.ops.push_back(op);
        }
        else if (k <= 7 && !c.e.empty()) { auto& e = r.pick(c.e); if (k == 6) c.ops.push_back({ 2, static_cast<ll>(e.u), static_cast<ll>(e.v) }); else c.ops.push_back({ 4, static_cast<ll>(e.u), static_cast<ll>(e.v) }); }
        else if (k == 8) c.ops.push_back({ 1, static_cast<ll>(r.range(0, c.n - 1)), static_cast<ll>(r.range(0, c.n - 1)), static_cast<ll>(gen::weight(r, r.range(0, wcls))) });
        else if (k == 9 && !c.e.empty()) { auto& e = r.pick(c.e); c.ops.push_back({ 3, static_cast<ll>(e.u), static_cast<ll>(e.v), static_cast<ll>(gen::weight(r, r.range(0, wcls))) }); }
        else if (k == 10) c.ops.push_back({ 5 });
        else c.ops.push_back({ 6, r.range(2, 2 * hi), r.range(0, 1 << 20) });
    }
    c.p["seed"] = r.range(0, 50);
}
static u64 ref_flow(uint32_t n, const std::vector<E>& e, const std::vector<uint32_t>& t, size_t src) {
    std::vector<uint32_t> snk;
    for (size_t i = 0; i < t.size(); ++i) if (i != src) snk.push_back(t[i]);
    return oracle::max_flow(n, e, t[src], snk);
}
struct Solvers { push_relabel<false, false> a; push_relabel<false, true> b; push_relabel<true, false> c; push_relabel<true, true> d; };

static bool one_flow(mutableGraphPtr G, const std::vector<ll>& op, const std::vector<uint32_t>& t, Solvers& s, Ctx& x, const std::string& when) {
    int var = op[1] & 3;
    size_t src = op[2] % t.size();
    FlowType lim = std::max<ll>(1, op[3]);
    bool set = op[5];
    configuration::getConfig()->depthOfPartialRelabeling = op[4];
    auto e = merged_edges(G);
    u64 want = ref_flow(G->n(), e, t, src);
    std::vector<NodeID> T(t.begin(), t.end());
    auto before = arcs(G);
    std::pair<FlowType, std::vector<NodeID> > res;
    size_t id = random_functions::next() + (1ull << 33);
    bool own = op[1] & 16;
    if (own) x.label("default problem id");
    if (var == 0 && own) res = s.a.solve_max_flow_min_cut(G, T, src, set);
    else if (var == 2 && own) res = s.c.solve_max_flow_min_cut(G, T, src, set, lim);
    else if (var == 0) res = s.a.solve_max_flow_min_cut(G, T, src, set, 0, id);
    else if (var == 1) res = s.b.solve_max_flow_min_cut(G, T, src, set);
    else if (var == 2) res = s.c.solve_max_flow_min_cut(G, T, src, set, lim, id);
    else res = s.d.solve_max_flow_min_cut(G, T, src, set, lim);
    bool exact = true;
    if (var >= 2 && res.first >= lim) {
        exact = false;
        x.check(want >= static_cast<u64>(lim), when + ": flow reported to reach the limit " + std::to_string(lim) + ", true flow " + std::to_string(want));
        x.label("limit reached");
    } else {
        x.eq(static_cast<long long>(res.first), static_cast<long long>(want), when + ": flow value");
    }
    x.check(arcs(G) == before, when + ": the flow computation changed the graph");
    if (set && exact) {
        std::vector<char> side(G->n(), 0);
        for (auto v : res.second) { x.check(v < G->n() && !side[v], when + ": bad vertex in source set"); side[v] = 1; }
        x.check(side[t[src]], when + ": source not in its source set");
        for (size_t i = 0; i < t.size(); ++i) if (i != src) x.check(!side[t[i]], when + ": other terminal in the source set");
        x.eq(oracle::cut_weight(e, side), want, when + ": boundary of the source set");
    }
    if (exact && !own && (var & 1) == 0) {   // the flow left on the edges is a flow of this value
        std::vector<ll> net(G->n(), 0);
        for (NodeID v : G->nodes()) for (EdgeID q : G->edges_of(v)) {
            FlowType f = G->getEdgeFlow(v, q, id);
            NodeID w = G->getEdgeTarget(v, q);
            x.check(f <= static_cast<FlowType>(G->getEdgeWeight(v, q)), when + ": flow exceeds the capacity");
            x.eq(f, -G->getEdgeFlow(w, G->getReverseEdge(v, q), id), when + ": flow of an edge and its reverse edge");
            net[v] += f;
        }
        std::set<uint32_t> ts(t.begin(), t.end());
        for (NodeID v : G->nodes()) if (!ts.count(v)) x.eq(net[v], 0ll, when + ": flow conservation at vertex " + std::to_string(v));
        x.eq(net[t[src]], static_cast<ll>(want), when + ": net flow out of the source");
    }
    x.label(std::string("variant:") + (var == 0 ? "plain" : var == 1 ? "parallel" : var == 2 ? "limited" : "limited+parallel"));
    if (t.size() > 2) x.label("3+ terminals");
    u64 ds = G->getWeightedNodeDegree(t[src]);
    u64 dt = 0;
    for (size_t i = 0; i < t.size(); ++i) if (i != src) dt += G->getWeightedNodeDegree(t[i]);
    return want > 0 && want < ds && want < dt;
}
static void c11(const Case& c, Ctx& x) {
    if (!ok(c)) x.discard();
    gen::describe(c, x);
    random_functions::setSeed(c.P("seed"));
    auto G = make_mut(c.n, c.e);
    Solvers reused;
    bool interesting = false;
    int flows = 0, mods = 0, i = 0;
    for (auto& o : c.ops) {
        ++i;
        std::string when = "operation " + std::to_string(i);
        if (o.empty()) continue;
        auto at = [&](size_t k) -> uint32_t { if (k >= o.size() || o[k] < 0 || o[k] >= static_cast<ll>(c.n)) x.discard(); return G->getCurrentPosition(o[k]); };
        auto find = [&](uint32_t u, uint32_t v) { for (EdgeID e : G->edges_of(u)) if (G->getEdgeTarget(u, e) == v) return e; return static_cast<EdgeID>(UNDEFINED_EDGE); };
        if (o[0] == 0) {
            if (o.size() < 8) x.discard();
            std::vector<uint32_t> t; std::set<uint32_t> seen;
            for (size_t k = 6; k < o.size(); ++k) { uint32_t p = at(k); if (seen.insert(p).second) t.push_back(p); }
            if (t.size() < 2) continue;
            if ((o[1] & 2) && t.size() > 2) t.resize(2);
            if (o[1] & 8) interesting |= one_flow(G, o, t, reused, x, when + " (flow on the reused solver)");
            else { Solvers fresh; interesting |= one_flow(G, o, t, fresh, x, when + " (flow)"); }
            ++flows;
        }
        else if (o[0] == 1) { uint32_t u = at(1), v = at(2); if (u == v || o.size() < 4 || o[3] < 1 || find(u, v) != UNDEFINED_EDGE) continue; G->new_edge_order(u, v, o[3]); ++mods; }
        else if (o[0] == 2) { uint32_t u = at(1), v = at(2); EdgeID e; if (u == v || (e = find(u, v)) == UNDEFINED_EDGE) continue; G->deleteEdge(u, e); ++mods; }
        else if (o[0] == 3) { uint32_t u = at(1), v = at(2); EdgeID e; if (u == v || o.size() < 4 || o[3] < 1 || (e = find(u, v)) == UNDEFINED_EDGE) continue; G->setEdgeWeight(u, e, o[3]); ++mods; }
        else if (o[0] == 4) { uint32_t u = at(1), v = at(2); EdgeID e; if (u == v || G->n() <= 3 || (e = find(u, v)) == UNDEFINED_EDGE || merged_edges(G).size() * 2 != G->m()) continue; G->contractEdge(u, e); ++mods; }
        else if (o[0] == 5) { G = std::make_shared<mutable_graph>(*G); ++mods; }
        else if (o[0] == 6) {
            if (o.size() < 3 || o[1] < 2) x.discard();
            Rng q(o[2]); Case d; gen::GOpt go; go.nmin = go.nmax = std::min<ll>(o[1], 400); go.wmax_class = 4; gen::graph(q, d, go);
            if (d.n < 2) continue;
            auto H = make_mut(d.n, d.e);
            std::vector<uint32_t> t { static_cast<uint32_t>(q.range(0, d.n - 1)) };
            t.push_back((t[0] + q.range(1, d.n - 1)) % d.n);
            std::vector<ll> op { 0, q.range(0, 3), q.range(0, 1), q.range(1, 100), 1, 1 };
            one_flow(H, op, t, reused, x, when + " (another graph on the reused solver)");
            ++mods;
        }
    }
    if (flows > 1) x.label("several flows");
    if (mods) x.label("modified between flows");
    if (interesting) x.nt();
}
static void fsmall(Rng& r, Case& c) { fgen(r, c, 2, r.chance(1, 3) ? 6 : 14, r.range(1, 10), 7); }
static void fmedium(Rng& r, Case& c) { fgen(r, c, 15, 80, r.range(1, 12), 7); }
static void flarge(Rng& r, Case& c) { fgen(r, c, 100, 500, r.range(1, 4), 5); }
// first computations of a process: all static state is still untouched
static void ffresh(Rng& r, Case& c) { fgen(r, c, 3, 8, r.range(2, 6), 3); for (auto& o : c.ops) if (o[0] == 0 && r.chance(3, 4)) o[1] |= 16; }
static pbt::Reg r0({ "C11", "flow_fresh_process", ffresh, c11, 4000, 60000, false, 20, 0, true });
static pbt::Reg r1({ "C11", "flow_small", fsmall, c11, 250000, 6000000 });
static pbt::Reg r2({ "C11", "flow_medium", fmedium, c11, 40000, 1000000 });
static pbt::Reg r3({ "C11", "flow_large", flarge, c11, 2500, 60000 });
PBT_MAIN
