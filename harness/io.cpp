// io.cpp - C24 (METIS graph files) and C25 (auxiliary files)
#include "repo.h"
#include "data_structure/flow_graph.h"
#include "io/graph_io.h"
using namespace rp;

// ------------------------------------------------------------------ C24
// The text is a function of the case: n, edges (u==v: self-loop), fmt, style.
struct Text {
    Rng q; int ws; std::string t;
    Text(const Case& c) : q(c.P("seed")), ws(c.P("ws")) { }
    std::string sep() {
        switch (ws) {
        case 0: return " ";
        case 1: return std::string(q.range(1, 3), ' ');
        case 2: return "\t";
        default: { std::string s; for (ll k = q.range(1, 3); k > 0; --k) s += q.chance(1, 2) ? ' ' : '\t'; return s; }
        }
    }
};
static std::string metis(const Case& c) {
    Text b(c);
    int fmt = c.P("fmt"); bool ew = fmt % 10 == 1, vw = fmt / 10 % 10 == 1, vs = fmt / 100 == 1;
    ll ncon = c.P("ncon");
    std::vector<std::vector<std::pair<uint32_t, u64> > > adj(c.n);
    u64 m = 0;
    for (auto& e : c.e) {
        if (e.u == e.v) { adj[e.u].push_back({ e.v, e.w }); if (c.P("loops_counted")) ++m; continue; }
        adj[e.u].push_back({ e.v, e.w }); adj[e.v].push_back({ e.u, e.w }); ++m;
    }
    std::string nl = c.P("crlf") ? "\r\n" : "\n", o;
    auto comment = [&]() { if (c.P("comments") && b.q.chance(1, 3)) o += std::string("%") + b.q.picks({ "", " 1 2 3", "comment", " 7", "% %" }) + nl; };
    auto lead = [&]() { if (c.P("lead") && b.q.chance(1, 2)) o += b.ws == 2 ? "\t" : b.ws == 0 ? " " : b.sep(); };
    comment(); comment();
    lead();
    o += std::to_string(c.n) + b.sep() + std::to_string(m);
    if (fmt || c.P("fmt0")) {
        std::string f = std::to_string(fmt);
        if (c.P("fmt3")) while (f.size() < 3) f = "0" + f;
        o += b.sep() + f;
        if (ncon) o += b.sep() + std::to_string(ncon);
    }
    if (c.P("trail")) o += b.sep();
    o += nl;
    for (uint32_t v = 0; v < c.n; ++v) {
        comment();
        if (c.P("order")) b.q.shuffle(adj[v]);
        std::vector<u64> num;
        if (vs) num.push_back(b.q.range(0, 9));
        if (vw) for (ll k = std::max(1ll, ncon); k > 0; --k) num.push_back(b.q.range(0, 9));
        for (auto& [t, w] : adj[v]) { num.push_back(t + 1); if (ew) num.push_back(w); }
        if (!num.empty()) lead();
        for (size_t i = 0; i < num.size(); ++i) { if (i) o += b.sep(); o += std::to_string(num[i]); }
        if (c.P("trail") && !num.empty() && b.q.chance(2, 3)) o += b.sep();
        o += nl;
    }
    comment();
    if (c.P("nofinal") && c.n && !adj[c.n - 1].empty() && o.size() > nl.size() && o.substr(o.size() - nl.size()) == nl) o.resize(o.size() - nl.size());
    return o;
}
static void gen_metis(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 1; o.nmax = r.chance(1, 10) ? 60 : 9; o.disc_pct = 40; o.multi = r.chance(1, 6); o.wmax_class = 7;
    gen::graph(r, c, o);
    if (r.chance(1, 4)) { uint32_t k = r.range(1, 3); c.n += k; if (r.chance(1, 2)) for (auto& e : c.e) { e.u += k; e.v += k; } }
    if (r.chance(1, 5)) for (ll k = r.range(1, 3); k > 0; --k) { uint32_t v = r.range(0, c.n - 1); c.e.push_back({ v, v, static_cast<u64>(r.range(1, 9)) }); }
    if (r.chance(1, 4)) for (auto& e : c.e) e.w = static_cast<u64>(r.next() % 3 == 0 ? r.next() >> r.range(2, 60) : r.range(1, 99)) | 1;
    c.p["seed"] = r.range(0, 1 << 30);
    c.p["ws"] = r.range(0, 3);
    static const int F[] = { 1, 1, 1, 0, 0, 11, 10, 100, 101, 111 };
    c.p["fmt"] = F[r.range(0, 9)];
    c.p["ncon"] = (c.P("fmt") / 10 % 10 == 1 && r.chance(1, 2)) ? r.range(1, 3) : 0;
    c.p["fmt3"] = r.chance(1, 4); c.p["fmt0"] = r.chance(1, 2);
    c.p["comments"] = r.chance(1, 3); c.p["lead"] = r.chance(1, 4); c.p["trail"] = r.chance(1, 2);
    c.p["crlf"] = r.chance(1, 8); c.p["nofinal"] = r.chance(1, 3); c.p["order"] = r.chance(1, 2);
    c.p["loops_counted"] = r.chance(1, 2);
}
static std::vector<std::tuple<uint32_t, uint32_t, u64> > want_arcs(const Case& c, bool weights) {
    auto e = c.e;
    if (!weights) for (auto& x : e) x.w = 1;
    return arcs_of(e);
}
static void put(const std::string& f, const std::string& t) { std::ofstream o(f, std::ios::binary); o << t; }
static std::string slurp(const std::string& f) { std::ifstream in(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }

static void label_metis(const Case& c, Ctx& x) {
    x.label("fmt " + std::to_string(c.P("fmt")));
    x.label(std::string("whitespace ") + (c.P("ws") == 0 ? "blank" : c.P("ws") == 1 ? "blanks" : c.P("ws") == 2 ? "tab" : "mixed"));
    if (c.P("comments")) x.label("comments");
    if (c.P("crlf")) x.label("CRLF");
    if (c.P("nofinal")) x.label("no final newline");
    for (auto& e : c.e) if (e.u == e.v) { x.label("self-loop"); break; }
}
static void valid(const Case& c, Ctx& x) {
    if (!c.n) x.discard();
    for (auto& e : c.e) if (e.u >= c.n || e.v >= c.n || !e.w || e.w >> 62) x.discard();
}
static void check_csr(graphAccessPtr G, Ctx& x, const std::string& what) {
    for (NodeID v : G->nodes()) {
        u64 d = 0;
        for (EdgeID e : G->edges_of(v)) d += G->getEdgeWeight(e);
        x.eq(static_cast<u64>(G->getWeightedNodeDegree(v)), d, what + ": weighted degree");
    }
}
static void run_metis(const Case& c, Ctx& x) {
    valid(c, x);
    label_metis(c, x);
    std::string f = x.scratch + "/in.metis", t = metis(c);
    put(f, t);
    bool ew = c.P("fmt") % 10 == 1;
    auto want = want_arcs(c, ew);
    auto G = graph_io::readGraphWeighted(f);
    x.eq(static_cast<u64>(G->number_of_nodes()), static_cast<u64>(c.n), "static: number of vertices");
    x.eq(static_cast<u64>(G->number_of_edges()), static_cast<u64>(want.size()), "static: number of arcs");
    if (arcs(G) != want) x.fail("static: graph read differs from the file");
    check_csr(G, x, "static");
    auto M = graph_io::readGraphWeighted<mutable_graph>(f);
    x.eq(static_cast<u64>(M->n()), static_cast<u64>(c.n), "mutable: number of vertices");
    if (arcs(M) != want) x.fail("mutable: graph read differs from the file");
    check_mutable(M, x, "mutable");
    unlink(f.c_str());
    if (c.n > 2 && want.size() > 2 && (c.P("ws") || c.P("comments") || c.P("fmt") > 1 || c.P("crlf") || c.P("lead") || c.P("trail"))) x.nt();
}
static pbt::Reg r1({ "C24", "read", gen_metis, run_metis, 20000, 300000 });

// independent parse of a written METIS file
struct Parsed { u64 n = 0, m = 0; ll fmt = 0; std::vector<std::tuple<uint32_t, uint32_t, u64> > a; };
static Parsed parse_metis(const std::string& t, Ctx& x) {
    Parsed p;
    std::istringstream in(t);
    std::string line;
    x.check(static_cast<bool>(std::getline(in, line)), "written file is empty");
    std::istringstream h(line);
    x.check(static_cast<bool>(h >> p.n >> p.m), "bad header");
    h >> p.fmt;
    for (u64 v = 0; v < p.n; ++v) {
        x.check(static_cast<bool>(std::getline(in, line)), "line of a vertex is missing");
        std::istringstream ls(line);
        u64 a, w = 1;
        while (ls >> a) {
            if (p.fmt % 10 == 1) x.check(static_cast<bool>(ls >> w), "edge without weight");
            x.check(a >= 1 && a <= p.n, "target out of range");
            p.a.emplace_back(v, a - 1, w);
        }
        x.check(ls.eof(), "line of a vertex has something else than numbers");
    }
    while (std::getline(in, line)) x.check(line.empty(), "more lines than vertices");
    std::sort(p.a.begin(), p.a.end());
    return p;
}
static void gen_write(Rng& r, Case& c) {
    gen_metis(r, c);
    std::vector<E> e;
    for (auto& q : c.e) if (q.u != q.v) e.push_back(q);
    c.e = e;
}
static void run_write(const Case& c, Ctx& x) {
    valid(c, x);
    for (auto& e : c.e) if (e.u == e.v) x.discard();
    std::string f = x.scratch + "/out.metis";
    auto want = want_arcs(c, true), unit = want_arcs(c, false);
    auto G = make_csr(c.n, c.e);
    auto M = make_mut(c.n, c.e);
    auto one = [&](const char* what, bool weighted) {
        auto p = parse_metis(slurp(f), x);
        x.eq(p.n, static_cast<u64>(c.n), std::string(what) + ": vertices in the header");
        x.eq(p.m, static_cast<u64>(want.size() / 2), std::string(what) + ": edges in the header");
        x.eq(p.fmt % 10, weighted ? 1ll : 0ll, std::string(what) + ": format");
        x.check(p.a == (weighted ? want : unit), std::string(what) + ": file differs from the graph");
        auto R = graph_io::readGraphWeighted(f);
        x.check(R->number_of_nodes() == c.n && arcs(R) == (weighted ? want : unit), std::string(what) + ": does not read back (static)");
        auto N = graph_io::readGraphWeighted<mutable_graph>(f);
        x.check(N->n() == c.n && arcs(N) == (weighted ? want : unit), std::string(what) + ": does not read back (mutable)");
    };
    graph_io::writeGraphWeighted(G, f); one("writeGraphWeighted", true);
    graph_io::writeGraphWeighted(M, f); one("writeGraphWeighted(mutable)", true);
    graph_io::writeGraph(G, f); one("writeGraph", false);
    // DIMACS: p FORMAT n m, every edge once
    graph_io::writeGraphDimacsKS(G, f, c.P("fmt3") ? "max" : "FORMAT");
    {
        std::istringstream in(slurp(f));
        std::string line, k, fm;
        u64 n, m, u, v, w;
        x.check(std::getline(in, line) && static_cast<bool>(std::istringstream(line) >> k >> fm >> n >> m), "DIMACS header");
        x.check(k == "p" && fm == (c.P("fmt3") ? "max" : "FORMAT") && n == c.n && m == want.size() / 2, "DIMACS header is wrong");
        std::vector<E> e;
        while (std::getline(in, line)) {
            x.check(static_cast<bool>(std::istringstream(line) >> k >> u >> v >> w) && k == "a", "DIMACS edge line");
            x.check(u >= 1 && v >= 1 && u <= n && v <= n && u != v, "DIMACS edge out of range");
            e.push_back({ static_cast<uint32_t>(u - 1), static_cast<uint32_t>(v - 1), w });
        }
        x.check(arcs_of(e) == want, "DIMACS file differs from the graph");
    }
    if (arcs(G) != want || arcs(M) != want) x.fail("writing changed the graph");
    unlink(f.c_str());
    if (c.n > 2 && want.size() > 2) x.nt();
}
static pbt::Reg r2({ "C24", "write", gen_write, run_write, 8000, 120000 });

// ------------------------------------------------------------------ C25
static void gen_vec(Rng& r, Case& c) {
    ll n = r.chance(1, 10) ? r.range(100, 3000) : r.range(0, 12);
    int k = r.range(0, 3);
    for (ll i = 0; i < n; ++i) c.lab.push_back(k == 0 ? r.range(0, 1) : k == 1 ? r.range(0, 20) : k == 2 ? r.range(0, 4294967295ll) : r.range(0, (1ll << r.range(1, 53)) - 1));
    c.p["type"] = r.range(0, 4);
    c.p["seed"] = r.range(0, 1 << 30);
    c.p["comments"] = r.chance(1, 3); c.p["nofinal"] = r.chance(1, 3); c.p["crlf"] = r.chance(1, 8); c.p["lead"] = r.chance(1, 6);
    c.p["cut"] = r.chance(1, 2);
}
template <class T> static void vec_one(const Case& c, Ctx& x, std::vector<T> v) {
    std::string f = x.scratch + "/vec";
    graph_io io;
    io.writeVector(v, f);
    auto r = graph_io::readVector<T>(f);
    x.check(r == v, "vector written and read back differs");
    // hand-made file with comments
    Rng q(c.P("seed"));
    std::string nl = c.P("crlf") ? "\r\n" : "\n", o;
    auto comment = [&]() { if (c.P("comments") && q.chance(1, 3)) o += std::string("%") + q.picks({ "", " 5", "comment" }) + nl; };
    for (const auto& y : v) { std::ostringstream s; s << y; comment(); if (c.P("lead")) o += " "; o += s.str() + nl; }
    comment();
    if (c.P("nofinal") && !o.empty()) o.resize(o.size() - nl.size());
    put(f, o);
    r = graph_io::readVector<T>(f);
    x.eq(r.size(), v.size(), "vector file: number of values");
    x.check(r == v, "vector file: values differ");
    unlink(f.c_str());
}
static void run_vec(const Case& c, Ctx& x) {
    for (ll v : c.lab) if (v < 0 || v >= (1ll << 53)) x.discard();
    switch (c.P("type")) {
    case 0: { std::vector<NodeID> v; for (ll y : c.lab) v.push_back(y & 0xffffffffll); vec_one(c, x, v); x.label("NodeID"); break; }
    case 1: { std::vector<size_t> v(c.lab.begin(), c.lab.end()); vec_one(c, x, v); x.label("size_t"); break; }
    case 2: { std::vector<int> v; for (ll y : c.lab) v.push_back(static_cast<int>(y & 0x7fffffff) * (y % 2 ? 1 : -1)); vec_one(c, x, v); x.label("int"); break; }
    case 3: { std::vector<double> v; for (ll y : c.lab) v.push_back((y % 4096) / 4.0); vec_one(c, x, v); x.label("double"); break; }
    default: { std::vector<bool> v; for (ll y : c.lab) v.push_back(y & 1); vec_one(c, x, v); x.label("bool"); break; }
    }
    if (c.P("cut") && !c.lab.empty() && c.lab.size() < 200) {
        // cut sides of a graph
        uint32_t n = c.lab.size();
        std::vector<E> e;
        for (uint32_t i = 1; i < n; ++i) e.push_back({ i - 1, i, 1 });
        auto G = make_csr(n, e); auto M = make_mut(n, e);
        std::vector<int> want;
        for (uint32_t i = 0; i < n; ++i) { bool b = c.lab[i] & 1; G->setNodeInCut(i, b); M->setNodeInCut(i, b); want.push_back(b); }
        std::string f = x.scratch + "/cut";
        graph_io::writeCut(G, f);
        x.check(graph_io::readVector<int>(f) == want, "cut written for a static graph differs");
        graph_io::writeCut(M, f);
        x.check(graph_io::readVector<int>(f) == want, "cut written for a mutable graph differs");
        unlink(f.c_str());
        x.label("cut");
    }
    if (c.lab.size() >= 2) x.nt();
}
static pbt::Reg r3({ "C25", "vector", gen_vec, run_vec, 8000, 120000 });

// temporal edge lists; ops: {u, v, w, time}
static void gen_temp(Rng& r, Case& c) {
    c.n = r.range(2, 30);
    ll k = r.chance(1, 8) ? r.range(40, 300) : r.range(1, 15);
    int tk = r.range(0, 2);
    for (ll i = 0; i < k; ++i) {
        ll w = r.chance(1, 2) ? 1 : r.chance(1, 2) ? -1 : r.pick({ 2, 7, 1000, -3, -1000 });
        c.ops.push_back({ r.range(0, c.n - 1), r.range(0, c.n - 1), w, tk == 0 ? i + 1 : tk == 1 ? r.range(1, 5) : r.range(1, 1ll << 40) });
    }
    c.p["form"] = r.range(0, 2);         // 0: u v t   1: u v w t   2: u v +w t / -w
    c.p["ws"] = r.range(0, 3); c.p["seed"] = r.range(0, 1 << 30);
    c.p["comments"] = r.chance(1, 3); c.p["lead"] = r.chance(1, 5); c.p["trail"] = r.chance(1, 4); c.p["nofinal"] = r.chance(1, 3); c.p["crlf"] = r.chance(1, 8);
}
static void run_temp(const Case& c, Ctx& x) {
    if (c.n < 1 || c.ops.empty()) x.discard();
    Text b(c);
    std::string o, nl = c.P("crlf") ? "\r\n" : "\n";
    std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > want;
    NodeID mx = 0;
    auto comment = [&]() { if (c.P("comments") && b.q.chance(1, 3)) o += std::string("%") + b.q.picks({ " 1 2 3", " asym", "" }) + nl; };
    for (auto& p : c.ops) {
        if (p.size() != 4 || p[0] < 0 || p[0] >= c.n || p[1] < 0 || p[1] >= c.n || p[2] == 0 || p[3] < 0) x.discard();
        ll w = c.P("form") == 0 ? 1 : c.P("form") == 1 ? std::abs(p[2]) : p[2];
        comment();
        if (c.P("lead")) o += b.sep();
        o += std::to_string(p[0] + 1) + b.sep() + std::to_string(p[1] + 1) + b.sep();
        if (c.P("form") == 1) o += std::to_string(w) + b.sep();
        if (c.P("form") == 2) o += (w < 0 ? "-" : "+") + std::to_string(std::abs(w)) + b.sep();
        o += std::to_string(p[3]);
        if (c.P("trail")) o += b.sep();
        o += nl;
        want.emplace_back(p[0], p[1], w, p[3]);
        mx = std::max<NodeID>(mx, std::max(p[0], p[1]));
    }
    comment();
    if (c.P("nofinal")) o.resize(o.size() - nl.size());
    std::string f = x.scratch + "/temporal";
    put(f, o);
    auto [n, got] = graph_io::readTemporalGraph(f);
    unlink(f.c_str());
    std::stable_sort(want.begin(), want.end(), [](auto& a, auto& q) { return std::get<3>(a) < std::get<3>(q); });
    x.eq(static_cast<u64>(n), static_cast<u64>(mx) + 1, "temporal: number of vertices");
    x.eq(got.size(), want.size(), "temporal: number of updates");
    for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) x.fail("temporal: update " + std::to_string(i) + " differs (updates of equal time keep the order of the file)");
    bool ties = false;
    for (size_t i = 1; i < want.size(); ++i) ties |= std::get<3>(want[i]) == std::get<3>(want[i - 1]);
    x.label(ties ? "equal times" : "distinct times");
    x.label("form " + std::to_string(c.P("form")));
    if (c.ops.size() >= 3) x.nt();
}
static pbt::Reg r4({ "C25", "temporal", gen_temp, run_temp, 10000, 150000 });

// DIMACS edge lists as read by readDimacs: "p n ..." then "e u v" in both directions or u<v
static void gen_dimacs(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 2; o.nmax = 12; o.disc_pct = 30; gen::graph(r, c, o);
    c.p["both"] = r.chance(1, 2); c.p["ws"] = r.range(0, 3); c.p["seed"] = r.range(0, 1 << 30); c.p["nofinal"] = r.chance(1, 3); c.p["via"] = r.chance(1, 2); c.p["crlf"] = r.chance(1, 8);
}
static void run_dimacs(const Case& c, Ctx& x) {
    valid(c, x);
    Text b(c);
    std::string nl = c.P("crlf") ? "\r\n" : "\n";
    std::string o = "p " + std::to_string(c.n) + b.sep() + std::to_string(c.e.size()) + nl;
    std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > want;
    auto line = [&](uint32_t u, uint32_t v) { o += "e " + std::to_string(u + 1) + b.sep() + std::to_string(v + 1) + nl; };
    for (auto& e : c.e) {
        if (e.u == e.v) x.discard();
        uint32_t u = std::min(e.u, e.v), v = std::max(e.u, e.v);
        line(u, v); want.emplace_back(u, v, 1, want.size() + 1);
        if (c.P("both")) line(v, u);
    }
    if (c.P("nofinal")) o.resize(o.size() - nl.size());
    std::string f = x.scratch + "/dimacs";
    put(f, o);
    auto [n, got] = c.P("via") ? graph_io::readTemporalGraph(f) : graph_io::readDimacs(f);
    unlink(f.c_str());
    x.eq(static_cast<u64>(n), static_cast<u64>(c.n), "DIMACS: number of vertices");
    x.check(got == want, "DIMACS: edges differ");
    if (c.e.size() >= 3) x.nt();
}
static pbt::Reg r5({ "C25", "dimacs", gen_dimacs, run_dimacs, 5000, 60000 });

PBT_MAIN
