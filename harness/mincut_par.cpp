// C02, C03(par), C05(par): shared-memory parallel minimum cut algorithms (-DPARALLEL)
#include "mincut_common.h"
#include "parallel/algorithm/exact_parallel_minimum_cut.h"

static void par_cfg(Rng& r, Case& c) { gen_cfg(r, c); c.p["t"] = r.pick({ 1, 2, 2, 3, 4, 4, 6, 8 }); c.p["rep"] = 0; }
static void threads(const Case& c, Ctx& x) {
    int t = std::max<ll>(1, c.P("t", 1));
    omp_set_num_threads(t); configuration::getConfig()->threads = t;
    x.label("threads:" + std::to_string(t));
}
#define PGUARD if (!ok(c)) x.discard(); set_cfg(c); threads(c, x); if (mindeg(c) > 50000) x.label(mindeg(c) >> 32 ? "minimum degree above 2^32" : "minimum degree above 50000")

static void pgen_small(Rng& r, Case& c) { gen::GOpt o; o.nmin = 2; o.nmax = r.chance(1, 4) ? 7 : 14; o.multi = r.chance(1, 6); o.wmax_class = 5; gen::graph(r, c, o); gen::scale(r, c, 8); par_cfg(r, c); }
static void pgen_medium(Rng& r, Case& c) { gen::GOpt o; o.nmin = 15; o.nmax = 100; o.wmax_class = 5; gen::graph(r, c, o); gen::scale(r, c, 8); par_cfg(r, c); }
static void pgen_large(Rng& r, Case& c) { gen::GOpt o; o.nmin = 120; o.nmax = 700; o.mmax = 6000; o.wmax_class = 5; gen::graph(r, c, o); gen::scale(r, c, 8); par_cfg(r, c); c.p["t"] = r.range(2, 8); }

template <class P> static void run_par(const Case& c, Ctx& x) {
    u64 lam = opt(c);
    labels(c, x, lam);
    auto G = make<P>(c.n, c.e);
    u64 v = solve<exact_parallel_minimum_cut<P> >(G);
    x.eq(v, lam, "parallel minimum cut");
}
static void c02(const Case& c, Ctx& x) { PGUARD; if (c.P("mut")) run_par<mutableGraphPtr>(c, x); else run_par<graphAccessPtr>(c, x); }
static pbt::Reg r1({ "C02", "par_small", pgen_small, c02, 60000, 1500000, true });
static pbt::Reg r2({ "C02", "par_medium", pgen_medium, c02, 20000, 300000, true });
static pbt::Reg r3({ "C02", "par_large", pgen_large, c02, 1200, 30000, true });

// one parallel certificate scan from a valid bound: contraction keeps min(bound, optimum)
template <class P> static void run_pcap(const Case& c, Ctx& x) {
    u64 lam = opt(c);
    if (lam == 0) x.discard();
    labels(c, x, lam);
    u64 bound = lam + (c.P("slack") ? (mindeg(c) - lam) / c.P("slack") : 0);
    for (int rep = 0; rep < 3; ++rep) {
        auto G = make<P>(c.n, c.e);
        exact_parallel_minimum_cut<P> a;
        auto uf = a.parallel_modified_capforest(G, bound, c.P("nobl"));
        std::vector<uint32_t> root(c.n);
        std::map<uint32_t, uint32_t> id;
        for (uint32_t v = 0; v < c.n; ++v) { uint32_t q = uf.Find(v); if (!id.count(q)) { uint32_t k = id.size(); id[q] = k; } root[v] = id[q]; }
        std::vector<E> ce;
        for (auto& e : c.e) if (root[e.u] != root[e.v]) ce.push_back({ root[e.u], root[e.v], e.w });
        u64 after = id.size() >= 2 ? oracle::stoer_wagner(id.size(), oracle::simplify(ce)) : bound;
        x.eq(std::min(after, bound), std::min(lam, bound), "min(bound, minimum cut) after contracting the edges certified in parallel");
        if (c.P("t") == 1) break;
    }
}
static void c02b(const Case& c, Ctx& x) { PGUARD; if (c.P("mut")) run_pcap<mutableGraphPtr>(c, x); else run_pcap<graphAccessPtr>(c, x); }
static pbt::Reg r4({ "C02", "par_capforest", [](Rng& r, Case& c) { gen::GOpt o; o.nmin = 3; o.nmax = r.chance(1, 2) ? 16 : 60; o.connected = true; o.wmax_class = 4; gen::graph(r, c, o); gen::scale(r, c, 8); par_cfg(r, c); c.p["slack"] = r.range(0, 4); c.p["nobl"] = r.chance(1, 4); }, c02b, 60000, 1500000, true });

// ---------------------------------------------------------------- C03
template <class P> static void run_heur(const Case& c, Ctx& x) {
    u64 lam = opt(c);
    labels(c, x, lam);
    for (auto l : { "vc", "pr" }) {
        auto G = make<P>(c.n, c.e);
        u64 v = l[0] == 'v' ? solve<viecut<P> >(G) : solve<padberg_rinaldi<P> >(G);
        x.check(v >= lam, std::string("parallel ") + l + " reports " + std::to_string(v) + " below the minimum cut " + std::to_string(lam));
        x.check(v <= mindeg(c), std::string("parallel ") + l + " reports more than the minimum degree");
        if (lam == 0 && l[0] == 'v') x.eq(v, lam, "parallel vc on a disconnected graph");
        if (c.n <= 14) {
            bool real = false;
            std::vector<char> side(c.n);
            for (uint32_t m = 1; m < (1u << (c.n - 1)) && !real; ++m) {
                for (uint32_t i = 0; i < c.n; ++i) side[i] = i ? (m >> (i - 1)) & 1 : 0;
                real = oracle::cut_weight(c.e, side) == v;
            }
            x.check(real, std::string("parallel ") + l + ": no cut of the graph weighs " + std::to_string(v));
        }
        x.label(std::string(l) + (v == lam ? ":exact" : ":above"));
    }
}
static void c03(const Case& c, Ctx& x) { PGUARD; if (c.P("mut")) run_heur<mutableGraphPtr>(c, x); else run_heur<graphAccessPtr>(c, x); }
static pbt::Reg r5({ "C03", "pheur_small", pgen_small, c03, 20000, 400000, true });
static pbt::Reg r6({ "C03", "pheur_medium", pgen_medium, c03, 6000, 120000, true });
static void pks(const Case& c, Ctx& x) {
    PGUARD;
    u64 lam = opt(c);
    labels(c, x, lam);
    auto G = make_csr(c.n, c.e);
    ks_minimum_cut a;
    u64 v = a.perform_minimum_cut(G);
    u64 tot = 0;
    for (auto& e : c.e) tot += e.w;
    x.check(v >= lam && v <= tot, "parallel ks reports " + std::to_string(v) + ", minimum cut " + std::to_string(lam));
    if (lam == 0) x.eq(v, lam, "parallel ks on a disconnected graph");
    x.label(v == lam ? "ks:exact" : "ks:above");
}
static pbt::Reg r7({ "C03", "pks", pgen_medium, pks, 3000, 60000, true });

template <class P> static void run_huge(const Case& c, Ctx& x) {
    gen::describe(c, x);
    auto G = make<P>(c.n, c.e);
    u64 v = solve<viecut<P> >(G);
    x.check(v <= mindeg(c), "vc reports more than the minimum degree");
    if (!oracle::connected(c.n, c.e)) x.eq(v, 0ull, "vc on a disconnected graph"); else x.check(v > 0, "vc reports 0 on a connected graph");
    if (c.P("save")) check_side(c, G, v, x, "vc");
    configuration::getConfig()->save_cut = false;
    auto G2 = make<P>(c.n, c.e);
    noi_minimum_cut<P> a;
    u64 ref = a.perform_minimum_cut(G2);
    x.check(v >= ref, "vc reports a value below the exact minimum cut");
    x.label(v == ref ? "vc:exact" : "vc:above");
    if (ref < mindeg(c)) x.nt();
    if (c.P("exact")) {
        configuration::getConfig()->save_cut = c.P("save");
        auto G3 = make<P>(c.n, c.e);
        u64 w = solve<exact_parallel_minimum_cut<P> >(G3);
        x.eq(w, ref, "parallel exact minimum cut of a large graph");
        if (c.P("save")) check_side(c, G3, w, x, "exact");
    }
}
static void c03h(const Case& c, Ctx& x) { PGUARD; if (c.P("mut")) run_huge<mutableGraphPtr>(c, x); else run_huge<graphAccessPtr>(c, x); }
static void pgen_huge(Rng& r, Case& c) { gen_huge(r, c); par_cfg(r, c); }
static pbt::Reg r8({ "C03", "pvc_lp_stage", pgen_huge, c03h, 100, 2000, true });
static pbt::Reg r8b({ "C02", "par_huge", [](Rng& r, Case& c) { pgen_huge(r, c); c.p["exact"] = 1; c.p["save"] = 0; }, c03h, 60, 1500, true });
static pbt::Reg r8c({ "C05", "psave_huge", [](Rng& r, Case& c) { pgen_huge(r, c); c.p["exact"] = 1; c.p["save"] = 1; }, c03h, 100, 2000, true });

static void pgen_twolevel(Rng& r, Case& c) { gen_twolevel(r, c); par_cfg(r, c); }
static pbt::Reg r8d({ "C03", "pvc_lp_twice", pgen_twolevel, c03h, 24, 500, true });
static pbt::Reg r8e({ "C05", "psave_lp_twice", [](Rng& r, Case& c) { pgen_twolevel(r, c); c.p["exact"] = 1; c.p["save"] = 1; }, c03h, 24, 500, true });

static void pgen_hidden(Rng& r, Case& c) { gen_hidden(r, c); par_cfg(r, c); }
static pbt::Reg r8f({ "C03", "pvc_hidden", pgen_hidden, c03h, 24, 500, true });
static pbt::Reg r8g({ "C02", "par_hidden", [](Rng& r, Case& c) { pgen_hidden(r, c); c.p["exact"] = 1; c.p["save"] = 0; }, c03h, 24, 500, true });
static pbt::Reg r8h({ "C05", "psave_hidden", [](Rng& r, Case& c) { pgen_hidden(r, c); c.p["exact"] = 1; c.p["save"] = 1; }, c03h, 24, 500, true });

// ---------------------------------------------------------------- C05
template <class P> static void run_save(const Case& c, Ctx& x) {
    u64 lam = opt(c);
    labels(c, x, lam);
    auto G = make<P>(c.n, c.e);
    int alg = c.P("alg") % 3;
    static const char* nm[] = { "exact", "inexact", "pr" };
    u64 v = alg == 0 ? solve<exact_parallel_minimum_cut<P> >(G) : alg == 1 ? solve<viecut<P> >(G) : solve<padberg_rinaldi<P> >(G);
    x.label(std::string("alg:") + nm[alg]);
    check_side(c, G, v, x, std::string("parallel ") + nm[alg]);
}
static void c05(const Case& c, Ctx& x) { PGUARD; configuration::getConfig()->save_cut = true; if (c.P("mut")) run_save<mutableGraphPtr>(c, x); else run_save<graphAccessPtr>(c, x); }
static pbt::Reg r9({ "C05", "psave_small", [](Rng& r, Case& c) { pgen_small(r, c); c.p["alg"] = r.range(0, 2); }, c05, 40000, 800000, true });
static pbt::Reg r10({ "C05", "psave_medium", [](Rng& r, Case& c) { pgen_medium(r, c); c.p["alg"] = r.range(0, 2); }, c05, 12000, 200000, true });

// ------------------------------------------------- large graphs, few workers: real parallelism
static void big_cfg(Rng& r, Case& c) { gen::big(r, c, r.chance(1, 3) ? 300 : 2000, r.chance(1, 4) ? 13000 : 6000); gen_cfg(r, c); c.p["t"] = r.pick({ 2, 3, 4, 4, 8 }); c.p["rep"] = r.range(2, 5); c.p["slack"] = r.range(0, 3); c.p["nobl"] = r.chance(1, 4); }
template <class P> static void run_stress(const Case& c0, Ctx& x, int what) {
    Case c = c0; c.e = gen::big_edges(c0);
    u64 lam = oracle::sparse_min_cut(c.n, c.e), md = mindeg(c);
    x.label(std::string("family:") + gen::big_name(c));
    if (lam > 0 && lam < md) { x.nt(); x.label("minimum cut below minimum degree"); }
    for (int rep = 0; rep < std::max<ll>(1, c.P("rep", 1)); ++rep) {
        random_functions::setSeed(c.P("seed") + rep);
        auto G = make<P>(c.n, c.e);
        if (what == 0) {
            if (lam == 0) x.discard();
            u64 bound = lam + (c.P("slack") ? (md - lam) / c.P("slack") : 0);
            exact_parallel_minimum_cut<P> a;
            auto uf = a.parallel_modified_capforest(G, bound, c.P("nobl"));
            std::vector<uint32_t> id(c.n, ~0u), root(c.n); uint32_t k = 0;
            for (uint32_t v = 0; v < c.n; ++v) { uint32_t q = uf.Find(v); if (id[q] == ~0u) id[q] = k++; root[v] = id[q]; }
            std::vector<E> ce;
            for (auto& e : c.e) if (root[e.u] != root[e.v]) ce.push_back({ root[e.u], root[e.v], e.w });
            x.eq(std::min(k >= 2 ? oracle::sparse_min_cut(k, ce) : bound, bound), std::min(lam, bound), "min(bound, minimum cut) after contracting the edges certified in parallel");
        } else if (what == 1) {
            u64 v = solve<exact_parallel_minimum_cut<P> >(G);
            x.eq(v, lam, "parallel minimum cut");
            if (configuration::getConfig()->save_cut) check_side(c, G, v, x, "parallel exact");
        } else {
            u64 v = solve<viecut<P> >(G);
            x.check(v >= lam && v <= md, "parallel vc reports " + std::to_string(v) + ", minimum cut " + std::to_string(lam) + ", minimum degree " + std::to_string(md));
            if (configuration::getConfig()->save_cut) check_side(c, G, v, x, "parallel vc");
        }
    }
}
static void stress(const Case& c, Ctx& x, int what, int save) {
    if (c.n < 8 || c.n > 20000 || c.P("gd") < 3 || c.P("gd") > 12) x.discard();
    set_cfg(c); threads(c, x);
    if (save >= 0) configuration::getConfig()->save_cut = save;
    if (c.P("mut")) run_stress<mutableGraphPtr>(c, x, what); else run_stress<graphAccessPtr>(c, x, what);
}
static pbt::Reg s1({ "C02", "par_capforest_stress", big_cfg, [](const Case& c, Ctx& x) { stress(c, x, 0, 0); }, 60, 6000, true, 60, 2 });
static pbt::Reg s2({ "C02", "par_stress", big_cfg, [](const Case& c, Ctx& x) { stress(c, x, 1, 0); }, 60, 6000, true, 60, 2 });
static pbt::Reg s3({ "C05", "psave_stress", big_cfg, [](const Case& c, Ctx& x) { stress(c, x, 1 + c.P("slack") % 2, 1); }, 60, 6000, true, 60, 2 });
static pbt::Reg s4({ "C03", "pvc_stress", big_cfg, [](const Case& c, Ctx& x) { stress(c, x, 2, 0); }, 60, 6000, true, 60, 2 });
PBT_MAIN
