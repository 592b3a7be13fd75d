// C01 C03(seq) C04 C05(seq): sequential global minimum cut algorithms
#include "mincut_common.h"

template <class P> static void run_noi(const Case& c, Ctx& x) {
    u64 lam = opt(c);
    labels(c, x, lam);
    auto G = make<P>(c.n, c.e);
    u64 v = solve<noi_minimum_cut<P> >(G);
    x.eq(v, lam, "minimum cut");
}
static void c01(const Case& c, Ctx& x) { GUARD; if (c.P("mut")) run_noi<mutableGraphPtr>(c, x); else run_noi<graphAccessPtr>(c, x); }
static pbt::Reg r1({ "C01", "noi_small", gen_small, c01, 300000, 6000000 });
static pbt::Reg r2({ "C01", "noi_medium", gen_medium, c01, 40000, 800000 });
static pbt::Reg r3({ "C01", "noi_large", gen_large, c01, 2000, 40000 });

// noi on a graph, with the modified CAPFOREST used stand-alone from a correct upper bound
template <class P> static void run_capforest(const Case& c, Ctx& x) {
    u64 lam = opt(c);
    if (lam == 0) x.discard();
    labels(c, x, lam);
    auto G = make<P>(c.n, c.e);
    u64 bound = lam + (c.P("slack") ? (mindeg(c) - lam) / c.P("slack") : 0);
    noi_minimum_cut<P> a;
    auto uf = a.modified_capforest(G, bound);
    auto H = contraction::fromUnionFind(G, &uf, true);
    x.check(H->number_of_nodes() < c.n, "a certificate scan at a bound not above the minimum degree contracts at least one edge");
    auto he = merged_edges(H);
    u64 after = H->number_of_nodes() >= 2 ? oracle::stoer_wagner(H->number_of_nodes(), he) : bound;
    x.eq(std::min(after, bound), std::min(lam, bound), "min(bound, minimum cut) after contracting certified edges");
}
static void c01b(const Case& c, Ctx& x) { GUARD; if (c.P("mut")) run_capforest<mutableGraphPtr>(c, x); else run_capforest<graphAccessPtr>(c, x); }
static pbt::Reg r4({ "C01", "noi_bound", [](Rng& r, Case& c) { gen::GOpt o; o.nmax = 20; o.connected = true; o.wmax_class = 6; gen::graph(r, c, o); gen::scale(r, c, 6); gen_cfg(r, c); c.p["slack"] = r.range(0, 4); }, c01b, 80000, 1500000 });

// ---------------------------------------------------------------- C03
template <class P> static void run_heur(const Case& c, Ctx& x) {
    u64 lam = opt(c);
    labels(c, x, lam);
    for (auto l : { "vc", "pr" }) {
        set_cfg(c);
        auto G = make<P>(c.n, c.e);
        u64 v = l[0] == 'v' ? solve<viecut<P> >(G) : solve<padberg_rinaldi<P> >(G);
        x.check(v >= lam, std::string(l) + " reports " + std::to_string(v) + " below the minimum cut " + std::to_string(lam));
        x.check(v <= mindeg(c), std::string(l) + " reports more than the minimum degree");
        if (lam == 0 && l[0] == 'v') x.eq(v, lam, "vc on a disconnected graph");
        if (c.n <= 14) {
            // the value must be the weight of some cut
            bool real = false;
            std::vector<char> side(c.n);
            for (uint32_t m = 1; m < (1u << (c.n - 1)) && !real; ++m) {
                for (uint32_t i = 0; i < c.n; ++i) side[i] = i ? (m >> (i - 1)) & 1 : 0;
                real = oracle::cut_weight(c.e, side) == v;
            }
            x.check(real, std::string(l) + ": no cut of the graph weighs " + std::to_string(v));
        }
        x.label(std::string(l) + (v == lam ? ":exact" : ":above"));
    }
}
static void c03(const Case& c, Ctx& x) { GUARD; if (c.P("mut")) run_heur<mutableGraphPtr>(c, x); else run_heur<graphAccessPtr>(c, x); }
static pbt::Reg r5({ "C03", "heur_small", [](Rng& r, Case& c) { gen_small(r, c); if (c.n > 11) c.p["mut"] = 1; c.p["save"] = r.chance(1, 3); }, c03, 15000, 400000 });
static pbt::Reg r6({ "C03", "heur_medium", gen_medium, c03, 15000, 300000 });

// Karger-Stein works on static graphs only
static void run_ks(const Case& c, Ctx& x) {
    u64 lam = opt(c);
    labels(c, x, lam);
    auto G = make_csr(c.n, c.e);
    ks_minimum_cut a;
    u64 v = a.perform_minimum_cut(G);
    x.check(v >= lam, "ks reports " + std::to_string(v) + " below the minimum cut " + std::to_string(lam));
    u64 tot = 0;
    for (auto& e : c.e) tot += e.w;
    x.check(v <= tot, "ks reports more than the total edge weight");
    if (c.n <= 14) {
        bool real = false;
        std::vector<char> side(c.n);
        for (uint32_t m = 1; m < (1u << (c.n - 1)) && !real; ++m) {
            for (uint32_t i = 0; i < c.n; ++i) side[i] = i ? (m >> (i - 1)) & 1 : 0;
            real = oracle::cut_weight(c.e, side) == v;
        }
        x.check(real, "ks: no cut of the graph weighs " + std::to_string(v));
    }
    if (lam == 0) x.eq(v, lam, "ks on a disconnected graph");
    x.label(v == lam ? "ks:exact" : "ks:above");
}
static pbt::Reg r7({ "C03", "ks_small", [](Rng& r, Case& c) { gen_small(r, c); c.p["mut"] = 0; }, [](const Case& c, Ctx& x) { GUARD; run_ks(c, x); }, 20000, 400000 });
static pbt::Reg r8({ "C03", "ks_medium", [](Rng& r, Case& c) { gen::GOpt o; o.nmin = 15; o.nmax = 130; o.wmax_class = 6; gen::graph(r, c, o); gen::scale(r, c, 6); gen_cfg(r, c); c.p["mut"] = 0; },
    [](const Case& c, Ctx& x) { GUARD; run_ks(c, x); }, 3000, 60000 });

template <class P> static void run_huge(const Case& c, Ctx& x) {
    gen::describe(c, x);
    std::vector<u64> vals;
    // upper bound on the optimum known from the construction: cut of every cluster boundary is not
    // recomputed here; instead the exact solver's independent value is the reference (checked by C01)
    auto G = make<P>(c.n, c.e);
    auto before = merged_edges(G);
    u64 v = solve<viecut<P> >(G);
    x.check(v <= mindeg(c), "vc reports more than the minimum degree");
    bool conn = oracle::connected(c.n, c.e);
    if (!conn) x.eq(v, 0ull, "vc on a disconnected graph"); else x.check(v > 0, "vc reports 0 on a connected graph");
    if (c.P("save")) check_side(c, G, v, x, "vc");
    configuration::getConfig()->save_cut = false;
    auto G2 = make<P>(c.n, c.e);
    u64 ref = solve<noi_minimum_cut<P> >(G2);
    x.check(v >= ref, "vc reports a value below the exact minimum cut");
    x.label(v == ref ? "vc:exact" : "vc:above");
    if (ref < mindeg(c)) x.nt();
}
static void c03h(const Case& c, Ctx& x) { GUARD; if (c.P("mut")) run_huge<mutableGraphPtr>(c, x); else run_huge<graphAccessPtr>(c, x); }
static pbt::Reg r9({ "C03", "vc_lp_stage", gen_huge, c03h, 150, 3000 });
static pbt::Reg r9c({ "C03", "vc_lp_twice", gen_twolevel, c03h, 40, 800 });
static pbt::Reg r9d({ "C05", "vc_lp_twice_saved", [](Rng& r, Case& c) { gen_twolevel(r, c); c.p["save"] = 1; }, c03h, 40, 800 });
static pbt::Reg r9e({ "C03", "vc_hidden", gen_hidden, c03h, 40, 800 });
static pbt::Reg r9f({ "C05", "vc_hidden_saved", [](Rng& r, Case& c) { gen_hidden(r, c); c.p["save"] = 1; }, c03h, 40, 800 });
static pbt::Reg r9b({ "C05", "vc_lp_stage_saved", [](Rng& r, Case& c) { gen_huge(r, c); c.p["save"] = 1; }, c03h, 150, 3000 });

// ---------------------------------------------------------------- C04
template <class P> static void run_matula(const Case& c, Ctx& x) {
    u64 lam = opt(c);
    labels(c, x, lam);
    auto G = make<P>(c.n, c.e);
    u64 v = solve<matula_approx<P> >(G);
    x.check(v >= lam, "matula reports " + std::to_string(v) + " below the minimum cut " + std::to_string(lam));
    x.check(v <= mindeg(c), "matula reports more than the minimum degree");
    // contraction at max(1, bound/2) keeps every cut smaller than that: final bound <= 2*lambda+1
    x.check(v <= 2 * lam + 1, "matula reports " + std::to_string(v) + ", more than twice the minimum cut " + std::to_string(lam));
    if (lam == 0) x.eq(v, 0ull, "matula on a disconnected graph");
    x.label(v == lam ? "matula:exact" : "matula:above");
    if (v > lam) x.nt();
}
static void c04(const Case& c, Ctx& x) { GUARD; if (c.P("mut")) run_matula<mutableGraphPtr>(c, x); else run_matula<graphAccessPtr>(c, x); }
static pbt::Reg r10({ "C04", "matula_small", gen_small, c04, 300000, 5000000 });
static pbt::Reg r11({ "C04", "matula_medium", gen_medium, c04, 40000, 800000 });

// ---------------------------------------------------------------- C05
template <class P> static void run_save(const Case& c, Ctx& x) {
    u64 lam = opt(c);
    labels(c, x, lam);
    int alg = c.P("alg") % 5;
    auto G = make<P>(c.n, c.e);
    u64 v = 0;
    static const char* nm[] = { "noi", "vc", "pr", "matula", "ks" };
    if (alg == 0) v = solve<noi_minimum_cut<P> >(G);
    else if (alg == 1) v = solve<viecut<P> >(G);
    else if (alg == 2) v = solve<padberg_rinaldi<P> >(G);
    else if (alg == 3) v = solve<matula_approx<P> >(G);
    x.label(std::string("alg:") + nm[alg]);
    check_side(c, G, v, x, nm[alg]);
}
static void c05(const Case& c, Ctx& x) {
    GUARD;
    configuration::getConfig()->save_cut = true;
    if (c.P("alg") % 5 == 4) {
        u64 lam = opt(c);
        labels(c, x, lam);
        x.label("alg:ks");
        auto G = make_csr(c.n, c.e);
        ks_minimum_cut a;
        u64 v = a.perform_minimum_cut(G);
        std::vector<char> side(c.n);
        size_t in = 0;
        for (uint32_t k = 0; k < c.n; ++k) { side[k] = G->getNodeInCut(k); in += side[k]; }
        x.check(in > 0 && in < c.n, "ks: saved cut has an empty side");
        x.eq(oracle::cut_weight(c.e, side), v, "ks: weight of the saved cut");
    } else if (c.P("mut")) { run_save<mutableGraphPtr>(c, x); } else { run_save<graphAccessPtr>(c, x); }
}
static pbt::Reg r12({ "C05", "save_small", [](Rng& r, Case& c) { gen_small(r, c); c.p["save"] = 1; c.p["alg"] = r.range(0, 4); }, c05, 150000, 3000000 });
static pbt::Reg r13({ "C05", "save_medium", [](Rng& r, Case& c) { gen_medium(r, c); c.p["save"] = 1; c.p["alg"] = r.range(0, 3); }, c05, 20000, 400000 });
static pbt::Reg r14({ "C05", "save_ks", [](Rng& r, Case& c) { gen::GOpt o; o.nmin = 30; o.nmax = 150; o.connected = true; o.wmax_class = 6; gen::graph(r, c, o); gen::scale(r, c, 6); gen_cfg(r, c); c.p["save"] = 1; c.p["alg"] = 4; }, c05, 2000, 40000 });
// ---------------------------------------------------------------- large graphs, sparse reference
template <class P> static void run_bigseq(const Case& c0, Ctx& x, int what) {
    Case c = c0; c.e = gen::big_edges(c0);
    set_cfg(c);
    if (what == 5) configuration::getConfig()->save_cut = true;
    u64 lam = oracle::sparse_min_cut(c.n, c.e), md = mindeg(c);
    x.label(std::string("family:") + gen::big_name(c0));
    if (lam > 0 && lam < md) { x.nt(); x.label("minimum cut below minimum degree"); }
    auto before = arcs_of(c.e);
    auto G = make<P>(c.n, c.e);
    u64 v = 0; std::string name;
    int alg = what == 5 ? c.P("alg") % 4 : what == 1 ? 0 : what == 3 ? 1 + c.P("alg") % 2 : 3;
    static const char* nm[] = { "noi", "vc", "pr", "matula" };
    name = nm[alg];
    if (alg == 0) v = solve<noi_minimum_cut<P> >(G);
    else if (alg == 1) v = solve<viecut<P> >(G);
    else if (alg == 2) v = solve<padberg_rinaldi<P> >(G);
    else v = solve<matula_approx<P> >(G);
    if (alg == 0) x.eq(v, lam, "minimum cut of a large graph");
    else x.check(v >= lam && v <= md, name + " reports " + std::to_string(v) + ", minimum cut " + std::to_string(lam) + ", minimum degree " + std::to_string(md));
    if (alg == 3) x.check(v <= 2 * lam + 1, "matula reports " + std::to_string(v) + ", more than twice the minimum cut " + std::to_string(lam));
    if (configuration::getConfig()->save_cut) check_side(c, G, v, x, name);
    x.check(arcs(G) == before, name + " changed its input");
    x.label(name + (v == lam ? ":exact" : ":above"));
}
static void bigseq(const Case& c, Ctx& x, int what) {
    if (c.n < 8 || c.n > 20000 || c.P("gd") < 3 || c.P("gd") > 12) x.discard();
    if (c.P("mut")) run_bigseq<mutableGraphPtr>(c, x, what); else run_bigseq<graphAccessPtr>(c, x, what);
}
static void big_cfg(Rng& r, Case& c) { gen::big(r, c, r.chance(1, 3) ? 300 : 2000, r.chance(1, 3) ? 13000 : 6000); gen_cfg(r, c); c.p["alg"] = r.range(0, 3); }
static pbt::Reg h1({ "C01", "noi_huge", big_cfg, [](const Case& c, Ctx& x) { bigseq(c, x, 1); }, 300, 12000, false, 60 });
static pbt::Reg h3({ "C03", "heur_huge", big_cfg, [](const Case& c, Ctx& x) { bigseq(c, x, 3); }, 300, 12000, false, 60 });
static pbt::Reg h4({ "C04", "matula_huge", big_cfg, [](const Case& c, Ctx& x) { bigseq(c, x, 4); }, 300, 12000, false, 60 });
static pbt::Reg h5({ "C05", "save_huge", big_cfg, [](const Case& c, Ctx& x) { bigseq(c, x, 5); }, 300, 12000, false, 60 });
PBT_MAIN
