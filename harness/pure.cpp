// pure.cpp - C30: computations leave their input intact and are repeatable
#include "algorithms/global_mincut/algorithms.h"
#include "mincut_common.h"
#include "algorithms/global_mincut/cactus/cactus_mincut.h"
#include "algorithms/flow/push_relabel.h"
#ifndef PARALLEL
#include "algorithms/global_mincut/dynamic/dynamic_mincut.h"
#include "algorithms/multicut/multiterminal_cut.h"
#endif
#include "algorithms/misc/core_decomposition.h"
#include "algorithms/misc/strongly_connected_components.h"
#ifdef PARALLEL
#include "parallel/algorithm/exact_parallel_minimum_cut.h"
#include "parallel/algorithm/parallel_cactus.h"
#endif

#ifdef PARALLEL
static const char* ALG[] = { "exact_parallel", "vc", "pcactus", "cactus" };
static const int NALG = 4;
#else
static const char* ALG[] = { "noi", "vc", "pr", "matula", "ks", "cactus", "balanced", "cores", "components", "flow", "limited_flow", "multicut", "dynamic" };
static const int NALG = 13;
#endif
static void gen_pure(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 2; o.nmax = r.chance(1, 8) ? 80 : r.chance(1, 3) ? 25 : 9; o.wmax_class = 5; o.mmax = 800;
    gen::graph(r, c, o);
    gen::scale(r, c, 6);
    gen_cfg(r, c);
    c.p["save"] = r.chance(2, 3);
    c.p["es"] = r.range(0, 5);
    c.p["t"] = r.pick({ 1, 2, 4 });
    // ops: {algorithm}
    for (ll k = r.range(2, 6); k > 0; --k) c.ops.push_back({ r.range(0, NALG - 1) });
    if (r.chance(1, 2)) c.ops.push_back(c.ops[0]);
}
static const char* ESEL[] = { "heavy", "heavy_weighted", "heavy_vertex", "central", "random", "" };

template <class P> static graphAccessPtr as_static(P G);
template <> graphAccessPtr as_static(graphAccessPtr G) { return G; }
template <> graphAccessPtr as_static(mutableGraphPtr G) { return G->to_graph_access(); }
static mutableGraphPtr as_mut(graphAccessPtr G) { return mutable_graph::from_graph_access(G); }
static mutableGraphPtr as_mut(mutableGraphPtr G) { return G; }

struct Sig {
    u64 value = 0;
    std::vector<char> side;          // saved cut
    std::vector<u64> more;           // further results
    bool operator== (const Sig& o) const { return value == o.value && side == o.side && more == o.more; }
};
// runs one algorithm; connected: the graph is connected
template <class P> static Sig run_alg(P G, int a, const Case& c, bool connected) {
    std::string n = ALG[a];
    Sig s;
    random_functions::setSeed(c.P("seed"));
    auto cfg = configuration::getConfig();
    auto cut = [&](u64 v) { s.value = v; if (c.P("save")) for (NodeID i : G->nodes()) s.side.push_back(G->getNodeInCut(i)); };
    auto cactus = [&](const auto& res) {
        auto [v, H, mb] = res;
        s.value = v;
        s.more.push_back(mb.size());
        if (!c.P("save")) return;
        s.more.push_back(H->n());
        std::vector<u64> pos;
        for (NodeID h : H->nodes()) for (auto q : H->containedVertices(h)) { s.more.push_back(h); s.more.push_back(q); }
        for (auto& [p, q, w] : arcs(H)) { s.more.push_back(p); s.more.push_back(q); s.more.push_back(w); }
    };
    (void)cactus; (void)connected; (void)cfg;
#ifdef PARALLEL
    if (n == "exact_parallel") s.value = solve<exact_parallel_minimum_cut<P> >(G);
    else if (n == "vc") { u64 v = solve<viecut<P> >(G); s.value = v > 0; }     // schedule dependent heuristic
    else if (n == "pcactus" && connected) { parallel_cactus<P> p; auto [v, H, mb] = p.findAllMincuts(G); (void)mb; s.value = v; if (c.P("save")) s.more.push_back(H->n()); }
    else if (n == "cactus" && connected) { cactus_mincut<P> p; auto [v, H, mb] = p.findAllMincuts(G); (void)mb; s.value = v; if (c.P("save")) s.more.push_back(H->n()); }
#else
    if (n == "noi") cut(solve<noi_minimum_cut<P> >(G));
    else if (n == "vc") cut(solve<viecut<P> >(G));
    else if (n == "pr") cut(solve<padberg_rinaldi<P> >(G));
    else if (n == "matula") { if (connected) cut(solve<matula_approx<P> >(G)); }
    else if (n == "ks") { if (G->number_of_nodes() <= 25) { if constexpr (std::is_same<P, graphAccessPtr>::value) cut(solve<ks_minimum_cut>(G)); } }
    else if (n == "cactus") { if (connected) { cactus_mincut<P> p; cactus(p.findAllMincuts(G)); } }
    else if (n == "balanced") {
        if (connected && c.P("save")) {
            cfg->find_most_balanced_cut = true; cfg->set_node_in_cut = true;
            cactus_mincut<P> p; cactus(p.findAllMincuts(G));
            cfg->find_most_balanced_cut = false; cfg->set_node_in_cut = false;
        }
    }
    else if (n == "cores") { auto S = as_static(G); auto k = core_decomposition::batagelj_zaversnik(S); for (auto d : k.degrees) s.more.push_back(d); }
    else if (n == "components") { auto S = as_static(G); std::vector<int> q(S->number_of_nodes()); strongly_connected_components scc; s.value = scc.strong_components(S, &q); s.more.assign(q.begin(), q.end()); }
    else if (n == "flow") {
        auto M = as_mut(G);
        push_relabel pr;
        auto [f, src] = pr.solve_max_flow_min_cut(M, { 0, static_cast<NodeID>(G->number_of_nodes() - 1) }, 0, true);
        s.value = f; s.more.assign(src.begin(), src.end());
        std::sort(s.more.begin(), s.more.end());
    }
    else if (n == "limited_flow") {
        auto M = as_mut(G);
        push_relabel<true, false> pr;
        auto [f, src] = pr.solve_max_flow_min_cut(M, { static_cast<NodeID>(c.P("seed") % c.n), static_cast<NodeID>((c.P("seed") + 1) % c.n) }, 0, true, 1 + c.P("seed") % 7);
        s.value = f; s.more.assign(src.begin(), src.end());
        std::sort(s.more.begin(), s.more.end());
    }
    else if (n == "multicut") {
        if (c.n < 3 || c.n > 40) return s;
        auto M = as_mut(G);
        cfg->queue_type = "bound_sum"; cfg->threads = 1; cfg->disable_cpu_affinity = true; cfg->multibranch = true;
        std::vector<NodeID> map(c.n, UNDEFINED_NODE);
        map[0] = 0; map[c.n - 1] = 1; map[c.n / 2] = 2;
        multiterminal_cut m;
        s.value = m.multicut(M, map, 3);
    }
    else if (n == "dynamic") {
        if (!c.P("save")) return s;
        auto M = as_mut(G);
        dynamic_mincut d;
        s.value = d.initialize(M);
        if (!connected) return s;
        auto H = d.getCurrentCactus();
        for (NodeID h : H->nodes()) for (auto q : H->containedVertices(h)) { s.more.push_back(h); s.more.push_back(q); }
    }
#endif
    return s;
}
static std::string conf_text() {
    auto c = configuration::getConfig();
    std::ostringstream o;
    o << c->seed << c->save_cut << c->pq << c->disable_limiting << c->edge_selection << c->threads << c->contraction_factor << c->num_iterations << c->sampling_type << c->find_most_balanced_cut << c->find_lowest_conductance << c->set_node_in_cut << c->blacklist << c->algorithm << c->output_path;
    return o.str();
}
template <class P> static void run_pure(const Case& c, Ctx& x) {
    if (c.ops.empty()) x.discard();
    if (oracle::simplify(c.e).size() != c.e.size()) x.discard();
    gen::describe(c, x);
    auto cfg = configuration::getConfig();
    cfg->edge_selection = ESEL[c.P("es") % 6];
#ifdef PARALLEL
    omp_set_num_threads(c.P("t")); cfg->threads = c.P("t");
#endif
    bool connected = oracle::connected(c.n, c.e);
    const bool mut = std::is_same<P, mutableGraphPtr>::value;
    auto G = make<P>(c.n, c.e);
    auto want = arcs(G);
    std::string conf = conf_text();
    std::map<int, Sig> first;
    std::set<int> kinds;
    int repeated = 0;
    for (auto& o : c.ops) {
        if (o.size() != 1 || o[0] < 0 || o[0] >= NALG) x.discard();
        int a = o[0];
        std::string nm = ALG[a];
        kinds.insert(a);
        x.label(nm);
        Sig s = run_alg(G, a, c, connected);
        x.check(G->number_of_nodes() == c.n && static_cast<u64>(G->number_of_edges()) == want.size(), nm + " changed the size of its input");
        if (arcs(G) != want) x.fail(nm + " changed the edges of its input");
        if (mut) check_mutable(as_mut(G), x, nm + ": input graph afterwards", false);
        x.check(conf_text() == conf, nm + " changed the configuration");
        Sig f = run_alg(make<P>(c.n, c.e), a, c, connected);
        if (!(s == f)) x.fail(nm + ": a fresh copy of the graph gives a different result (" + std::to_string(s.value) + " / " + std::to_string(f.value) + ")");
        auto it = first.find(a);
        if (it != first.end()) { ++repeated; if (!(it->second == s)) x.fail(nm + ": repetition after other computations gives a different result (" + std::to_string(it->second.value) + " / " + std::to_string(s.value) + ")"); }
        else first[a] = s;
    }
    x.label(mut ? "mutable" : "static");
    if (repeated) x.label("repeated after others");
    if (kinds.size() >= 2 && c.e.size() > 2) x.nt();
}
static void c30(const Case& c, Ctx& x) { GUARD; if (c.P("mut")) run_pure<mutableGraphPtr>(c, x); else run_pure<graphAccessPtr>(c, x); }
#ifdef PARALLEL
static pbt::Reg r1({ "C30", "pure_par", gen_pure, c30, 3000, 60000, true });
#else
static pbt::Reg r1({ "C30", "pure", gen_pure, c30, 8000, 200000 });
// results do not depend on what the process computed before: every algorithm of the case also
// runs alone in a process of its own
static void gen_fresh(Rng& r, Case& c) { gen_pure(r, c); if (c.n > 30) { c.n = std::min(c.n, 9u); std::vector<E> e; for (auto& q : c.e) if (q.u < c.n && q.v < c.n) e.push_back(q); c.e = e; } }
template <class P> static u64 alone(const Case& c, int a, Ctx& x) {
    int fd[2];
    if (pipe(fd)) x.discard();
    pid_t pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); x.discard(); }
    if (pid == 0) {
        close(fd[0]);
        Sig s = run_alg(make<P>(c.n, c.e), a, c, oracle::connected(c.n, c.e));
        u64 h = pbt::mix64(s.value + 1);
        for (auto v : s.side) h = pbt::mix64(h * 31 + v);
        for (auto v : s.more) h = pbt::mix64(h * 31 + v);
        if (write(fd[1], &h, sizeof h) != sizeof h) _exit(1);
        _exit(0);
    }
    close(fd[1]);
    u64 h = 0;
    ssize_t got = read(fd[0], &h, sizeof h);
    close(fd[0]);
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    x.check(got == sizeof h, std::string(ALG[a]) + ": crash in a process of its own");
    return h;
}
template <class P> static void run_history(const Case& c, Ctx& x) {
    if (c.ops.empty() || oracle::simplify(c.e).size() != c.e.size()) x.discard();
    gen::describe(c, x);
    configuration::getConfig()->edge_selection = ESEL[c.P("es") % 6];
    bool connected = oracle::connected(c.n, c.e);
    std::map<int, u64> single;
    for (auto& o : c.ops) { if (o.size() != 1 || o[0] < 0 || o[0] >= NALG) x.discard(); if (!single.count(o[0])) single[o[0]] = alone<P>(c, o[0], x); }
    auto G = make<P>(c.n, c.e);
    for (auto& o : c.ops) {
        Sig s = run_alg(G, o[0], c, connected);
        u64 h = pbt::mix64(s.value + 1);
        for (auto v : s.side) h = pbt::mix64(h * 31 + v);
        for (auto v : s.more) h = pbt::mix64(h * 31 + v);
        x.check(h == single[o[0]], std::string(ALG[o[0]]) + ": result after other computations differs from the result in a new process (value " + std::to_string(s.value) + ")");
        x.label(ALG[o[0]]);
    }
    if (single.size() >= 2 && c.e.size() > 2) x.nt();
}
static void c30f(const Case& c, Ctx& x) { GUARD; if (c.P("mut")) run_history<mutableGraphPtr>(c, x); else run_history<graphAccessPtr>(c, x); }
static pbt::Reg r0({ "C30", "pure_fresh_process", gen_fresh, c30f, 2000, 40000, false, 20, 0, true });
#endif
PBT_MAIN
