// apps.cpp - C31 command-line programs, C32 graph-producing tools.
// The programs are built from app/*.cpp and run as separate processes in a
// scratch directory of the worker; this file does not include VieCut.
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
#include <cmath>
#include <fstream>
#include <functional>
#include <queue>
#include "gen.h"
#include "oracle.h"
#include "oracle_mtc.h"
#include "pbt.h"
using oracle::u64;
using pbt::Case; using pbt::Ctx; using pbt::E; using pbt::Rng; using pbt::ll;
namespace fs = std::filesystem;

// ------------------------------------------------------------ processes
struct Out { int code = -1, sig = 0; bool timeout = false, stopped = false; std::string text; };
static std::string slurp(const std::string& f) { std::ifstream in(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
static void put(const std::string& f, const std::string& t) { std::ofstream o(f, std::ios::binary); o << t; }

static Out run(Ctx& x, const std::string& dir, const std::string& app, const std::vector<std::string>& args, int cpu = 20, const std::string& stop = "") {
    const char* base = getenv("VP_APPS");
    std::string exe = std::string(base ? base : "build") + "/" + app;
    if (access(exe.c_str(), X_OK) != 0) { fprintf(stderr, "program %s is missing\n", exe.c_str()); _exit(3); }
    std::string of = dir + "/.out", ef = dir + "/.err";
    std::vector<char*> av;
    av.push_back(const_cast<char*>(exe.c_str()));
    for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    pid_t p = fork();
    if (p == 0) {
        if (chdir(dir.c_str()) != 0) _exit(121);
        int fd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), fe = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 1); dup2(fe, 2);
        struct rlimit l { static_cast<rlim_t>(cpu), static_cast<rlim_t>(cpu + 2) };
        setrlimit(RLIMIT_CPU, &l);
        struct rlimit z { 64 << 20, 64 << 20 };
        setrlimit(RLIMIT_FSIZE, &z);
        struct rlimit c0 { 0, 0 };
        setrlimit(RLIMIT_CORE, &c0);
        execv(av[0], av.data());
        _exit(122);
    }
    Out o;
    int st = 0;
    auto t0 = pbt::now_ms();
    for (;;) {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) break;
        auto dt = pbt::now_ms() - t0;
        if (dt > 100000) { kill(p, SIGKILL); waitpid(p, &st, 0); o.timeout = true; break; }
        if (!stop.empty() && access(stop.c_str(), F_OK) == 0) { kill(p, SIGKILL); waitpid(p, &st, 0); o.stopped = true; break; }
        usleep(dt < 20 ? 200 : 2000);
    }
    if (o.stopped) o.code = 0;
    else if (WIFEXITED(st)) o.code = WEXITSTATUS(st);
    else if (WIFSIGNALED(st)) { o.sig = WTERMSIG(st); if (o.sig == SIGXCPU) o.timeout = true; }
    o.text = slurp(of);
    if (x.replaying && getenv("VP_SHOW")) {
        std::string s = app; for (auto& a : args) s += " " + a;
        std::ofstream t(std::string("/tmp/vp-show"), std::ios::app);
        t << "$ " << s << "\n" << o.text << slurp(ef) << "-> code " << o.code << " signal " << o.sig << "\n";
    }
    return o;
}
static std::string why(const Out& o) {
    if (o.timeout) return "does not terminate";
    if (o.sig) return "ends with signal " + std::to_string(o.sig);
    return "exits with " + std::to_string(o.code);
}
static Out ok(Ctx& x, const std::string& dir, const std::string& app, const std::vector<std::string>& args, int cpu = 20, const std::string& stop = "") {
    auto o = run(x, dir, app, args, cpu, stop);
    std::string s = app; for (auto& a : args) s += " " + (a.rfind(dir, 0) == 0 ? a.substr(dir.size() + 1) : a);
    if (o.timeout || o.sig || o.code != 0) x.fail(s + ": " + why(o));
    return o;
}
struct Dir {                    // fresh directory inside the worker's scratch
    std::string d;
    explicit Dir(Ctx& x) : d(x.scratch + "/app") { fs::remove_all(d); fs::create_directory(d); }
    ~Dir() { std::error_code e; fs::remove_all(d, e); }
};
typedef std::map<std::string, std::string> Res;
static Res tokens(const std::string& line) {
    Res r; std::istringstream is(line); std::string t;
    while (is >> t) { auto p = t.find('='); if (p != std::string::npos) r[t.substr(0, p)] = t.substr(p + 1); }
    return r;
}
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; std::istringstream is(t); std::string l; while (std::getline(is, l)) v.push_back(l); return v; }
static std::vector<Res> results(const std::string& t) { std::vector<Res> v; for (auto& l : lines(t)) if (l.rfind("RESULT", 0) == 0) v.push_back(tokens(l)); return v; }
static ll num(const Res& r, const std::string& k, Ctx& x) {
    auto i = r.find(k);
    if (i == r.end()) x.fail("no " + k + "= in the RESULT line");
    char* e; ll v = strtoll(i->second.c_str(), &e, 10);
    if (i->second.empty() || *e) x.fail(k + "=" + i->second + " is not a number");
    return v;
}
static bool starts(const std::string& s, const std::string& p, std::string* rest) { if (s.rfind(p, 0) != 0) return false; *rest = s.substr(p.size()); return true; }

// ------------------------------------------------------------ graph files
static std::string metis(uint32_t n, const std::vector<E>& e, bool weights) {
    std::vector<std::vector<std::pair<uint32_t, u64> > > a(n);
    for (auto& q : e) { a[q.u].push_back({ q.v, q.w }); a[q.v].push_back({ q.u, q.w }); }
    std::string o = std::to_string(n) + " " + std::to_string(e.size()) + (weights ? " 1" : "") + "\n";
    for (auto& l : a) { bool f = true; for (auto& [t, w] : l) { if (!f) o += " "; f = false; o += std::to_string(t + 1); if (weights) o += " " + std::to_string(w); } o += "\n"; }
    return o;
}
static void write_graph(const Case& c, const std::string& f) {
    bool unit = true;
    for (auto& e : c.e) unit &= e.w == 1;
    put(f, metis(c.n, c.e, !unit || c.P("fmt1")));
}
typedef std::vector<std::tuple<uint32_t, uint32_t, u64> > Arcs;
static Arcs arcs_of(const std::vector<E>& e) {
    Arcs a;
    for (auto& q : e) if (q.u != q.v) { a.emplace_back(q.u, q.v, q.w); a.emplace_back(q.v, q.u, q.w); }
    std::sort(a.begin(), a.end());
    return a;
}
struct Parsed { u64 n = 0, m = 0; ll fmt = 0; Arcs a; std::vector<E> e() const { std::vector<E> r; for (auto& [u, v, w] : a) if (u < v) r.push_back({ u, v, w }); return r; } };
static Parsed parse_metis(const std::string& f, Ctx& x, const std::string& what) {
    Parsed p;
    std::ifstream in(f);
    std::string line;
    x.check(static_cast<bool>(in), what + ": file was not written");
    x.check(static_cast<bool>(std::getline(in, line)), what + ": file is empty");
    std::istringstream h(line);
    x.check(static_cast<bool>(h >> p.n >> p.m), what + ": bad header");
    h >> p.fmt;
    for (u64 v = 0; v < p.n; ++v) {
        x.check(static_cast<bool>(std::getline(in, line)), what + ": line of a vertex is missing");
        std::istringstream ls(line);
        u64 a, w = 1;
        while (ls >> a) {
            if (p.fmt % 10 == 1) x.check(static_cast<bool>(ls >> w), what + ": edge without weight");
            x.check(a >= 1 && a <= p.n, what + ": target out of range");
            x.check(a != v + 1, what + ": self-loop");
            p.a.emplace_back(v, a - 1, w);
        }
        x.check(ls.eof(), what + ": line of a vertex has something else than numbers");
    }
    while (std::getline(in, line)) x.check(line.empty(), what + ": more lines than vertices");
    std::sort(p.a.begin(), p.a.end());
    auto r = p.a;
    for (auto& [u, v, w] : r) std::swap(u, v);
    std::sort(r.begin(), r.end());
    x.check(r == p.a, what + ": adjacency is not symmetric");
    x.eq(static_cast<u64>(p.a.size()), 2 * p.m, what + ": arcs against the header");
    return p;
}
static std::vector<ll> read_numbers(const std::string& f, Ctx& x, const std::string& what) {
    std::ifstream in(f);
    x.check(static_cast<bool>(in), what + ": file was not written");
    std::vector<ll> v; ll y;
    while (in >> y) v.push_back(y);
    x.check(in.eof(), what + ": not a list of numbers");
    return v;
}
static void valid(const Case& c, Ctx& x, bool simple = true) {
    if (c.n < 2) x.discard();
    std::set<std::pair<uint32_t, uint32_t> > s;
    for (auto& e : c.e) {
        if (e.u >= c.n || e.v >= c.n || !e.w || e.w >> 40 || e.u == e.v) x.discard();
        if (simple && !s.insert({ std::min(e.u, e.v), std::max(e.u, e.v) }).second) x.discard();
    }
}
static u64 mindeg(const Case& c) { std::vector<u64> d(c.n, 0); for (auto& e : c.e) { d[e.u] += e.w; d[e.v] += e.w; } return *std::min_element(d.begin(), d.end()); }
static bool has_iso(const Case& c) { std::vector<char> d(c.n, 0); for (auto& e : c.e) d[e.u] = d[e.v] = 1; for (char y : d) if (!y) return true; return false; }
static u64 lambda_of(uint32_t n, const std::vector<E>& e) { return n < 2 ? 0 : n > 60 ? oracle::min_cut_flow(n, e) : oracle::stoer_wagner(n, e); }

static void gen_graph(Rng& r, Case& c, uint32_t small, uint32_t big, int disc) {
    gen::GOpt o; o.nmin = 2; o.nmax = r.chance(1, 4) ? big : small; o.disc_pct = disc; o.mmax = 2000;
    gen::graph(r, c, o);
    if (r.chance(1, 3)) for (auto& e : c.e) e.w = 1;
    c.p["fmt1"] = r.chance(1, 3);
    c.p["seed"] = r.range(0, 5000);
}

// ------------------------------------------------------------------ C31
// mincut / mincut_parallel
static const char* ALG_SEQ[] = { "vc", "noi", "ks", "matula", "pr", "cactus" };
static const char* ALG_PAR[] = { "inexact", "exact", "cactus" };
// bucket queues have one bucket per unit of the bound: weights stay small with them
static bool buckets(const Case& c, bool par) { return par || c.S("pq") == "bqueue" || c.S("pq") == "bstack"; }
static void small_weights(Case& c) { for (auto& e : c.e) if (e.w > 2000) e.w = 1 + e.w % 2000; }
static void need_small(const Case& c, Ctx& x) { for (auto& e : c.e) if (e.w > 2000) x.discard(); }
static void gen_mincut(Rng& r, Case& c, bool par) {
    gen_graph(r, c, 12, 60, 8);
    c.s["algo"] = par ? ALG_PAR[r.range(0, 2)] : ALG_SEQ[r.range(0, 5)];
    c.s["pq"] = r.chance(1, 2) ? "" : r.picks({ "default", "bqueue", "heap", "bstack" });
    c.s["edge"] = r.chance(2, 3) ? "" : r.picks({ "heavy", "heavy_weighted", "central", "random", "heavy_vertex" });
    c.p["iter"] = r.chance(2, 3) ? 1 : r.range(2, 3);
    c.p["nolimit"] = r.chance(1, 5);
    if (buckets(c, par)) small_weights(c);
    c.p["save"] = r.chance(1, 2);
    c.p["out"] = c.P("save") && r.chance(2, 3);
    c.p["bal"] = c.s["algo"] == "cactus" && r.chance(1, 3) ? r.range(1, 2) : 0;
    if (c.P("bal")) { c.p["save"] = 1; c.p["out"] = r.chance(2, 3); }
    c.p["tree"] = c.s["algo"] == "cactus" && r.chance(1, 3);
    c.s["samp"] = par && r.chance(1, 3) ? r.picks({ "geometric", "random", "separate", "weighted" }) : "";
    c.p["nproc"] = par ? r.range(0, 2) : 0;
    c.p["p0"] = r.range(1, 4); c.p["p1"] = r.range(1, 8);
    c.p["long"] = r.chance(1, 5);
}
// reads the GraphML file of a cactus and compares its minimum cuts with those of the graph
static void check_cactus_file(const Case& c, Ctx& x, const std::string& file, u64 lam) {
    std::string t = slurp(file);
    x.check(!t.empty(), "GraphML file of the cactus was not written");
    x.check(t.find("</graphml>") != std::string::npos, "GraphML file is not complete");
    std::map<std::string, uint32_t> id;
    std::vector<std::vector<uint32_t> > cont;
    std::vector<E> e;
    std::vector<char> seen(c.n, 0);
    size_t p = 0;
    auto attr = [&](const std::string& tag, const char* a) {
        std::string k = std::string(" ") + a + "=\"";
        auto b = tag.find(k);
        x.check(b != std::string::npos, "GraphML: no " + std::string(a) + " in " + tag);
        b += k.size();
        return tag.substr(b, tag.find('"', b) - b);
    };
    auto element = [&](const char* name, std::string* tag, std::string* body) {
        std::string o = std::string("<") + name + " ", cl = std::string("</") + name + ">";
        auto b = t.find(o, p);
        if (b == std::string::npos) return false;
        auto q = t.find('>', b), z = t.find(cl, b);
        x.check(q != std::string::npos && z != std::string::npos && q < z, "GraphML: element is not closed");
        *tag = t.substr(b, q - b); *body = t.substr(q + 1, z - q - 1);
        p = z + cl.size();
        return true;
    };
    auto data = [&](const std::string& body, const char* key) {
        auto b = body.find("key=\"" + std::string(key) + "\"");
        x.check(b != std::string::npos, "GraphML: no data " + std::string(key));
        b = body.find('>', b) + 1;
        return body.substr(b, body.find('<', b) - b);
    };
    std::string tag, body;
    while (element("node", &tag, &body)) {
        x.check(id.emplace(attr(tag, "id"), cont.size()).second, "GraphML: two nodes with one id");
        cont.emplace_back();
        std::istringstream is(data(body, "containedVertices"));
        std::string y;
        while (std::getline(is, y, ',')) {
            ll v = strtoll(y.c_str(), nullptr, 10);
            x.check(v >= 0 && v < c.n && !seen[v], "GraphML: contained vertices are not a partition");
            seen[v] = 1; cont.back().push_back(v);
        }
    }
    p = 0;
    while (element("edge", &tag, &body)) {
        auto a = id.find(attr(tag, "source")), b = id.find(attr(tag, "target"));
        x.check(a != id.end() && b != id.end(), "GraphML: edge to an unknown node");
        e.push_back({ a->second, b->second, strtoull(data(body, "weight").c_str(), nullptr, 10) });
    }
    for (char y : seen) x.check(y, "GraphML: a vertex is missing");
    if (cont.size() > 15 || c.n > 15) { x.label("large cactus file"); return; }
    x.check(cont.size() >= 2, "GraphML: cactus of one node");
    std::set<oracle::Mask> want, got, mapped;
    oracle::enum_min_cuts(c.n, c.e, &want);
    u64 l = oracle::enum_min_cuts(cont.size(), e, &got);
    x.eq(l, lam, "minimum cut of the cactus in the file");
    for (auto& m : got) {
        oracle::Mask s;
        for (uint32_t i = 0; i < cont.size(); ++i) if (m.has(i)) for (uint32_t v : cont[i]) s.set(v);
        if (s.has(0)) s = s.complement(c.n);
        if (!s.empty()) mapped.insert(s);
    }
    x.eq(mapped.size(), want.size(), "number of minimum cuts of the cactus in the file");
    x.check(mapped == want, "minimum cuts of the cactus in the file differ");
    x.label("cactus file");
}
static void run_mincut(const Case& c, Ctx& x, bool par) {
    valid(c, x);
    if (par && c.S("algo") != "inexact" && c.S("algo") != "exact" && c.S("algo") != "cactus") x.discard();
    if (buckets(c, par)) need_small(c, x);
    if (c.P("bal") && (!c.P("save") || c.S("algo") != "cactus")) x.discard();   // documented: needs -s
    gen::describe(c, x);
    Dir d(x);
    std::string f = d.d + "/g.metis", algo = c.S("algo", "noi");
    write_graph(c, f);
    std::vector<std::string> a { f, algo };
    bool lg = c.P("long");
    auto opt = [&](const char* s, const char* l, const std::string& v) { if (lg) { a.push_back(std::string("--") + l); } else { a.push_back(s); } a.push_back(v); };
    auto flag = [&](const char* s, const char* l) { a.push_back(lg ? std::string("--") + l : s); };
    opt("-r", "seed", std::to_string(c.P("seed")));
    if (!c.S("pq").empty()) opt("-q", "pq", c.S("pq"));
    if (!c.S("edge").empty()) opt("-e", "edge_select", c.S("edge"));
    if (!c.S("samp").empty()) opt("-k", "sampling_type", c.S("samp"));
    ll iter = std::max<ll>(1, c.P("iter", 1));
    if (iter > 1) opt("-i", "iter", std::to_string(iter));
    if (c.P("nolimit")) flag("-l", "disable_limiting");
    if (c.P("save")) flag("-s", "save_cut");
    if (c.P("bal") == 1) a.push_back("-b");
    if (c.P("bal") == 2) a.push_back("-d");
    std::string cut = d.d + "/cut.txt", tree = d.d + "/tree.graphml";
    bool out = c.P("out") && c.P("save");
    if (out) opt("-o", "output_path", cut);
    if (c.P("tree")) opt("-t", "cactus_filename", tree);
    std::vector<ll> procs;
    for (ll i = 0; i < c.P("nproc"); ++i) { ll q = std::min<ll>(8, std::max<ll>(1, c.P("p" + std::to_string(i), 1))); procs.push_back(q); opt("-p", "proc", std::to_string(q)); }
    if (procs.empty()) procs.push_back(1);
    if (algo == "cactus" && !oracle::connected(c.n, c.e)) x.label("cactus of a disconnected graph");
    auto o = ok(x, d.d, par ? "app_mincut_par" : "app_mincut", a);
    u64 lam = lambda_of(c.n, c.e);
    auto res = results(o.text);
    x.eq(res.size(), static_cast<size_t>(iter) * procs.size(), "number of RESULT lines");
    bool exact = algo == "noi" || algo == "cactus" || algo == "exact";
    for (size_t i = 0; i < res.size(); ++i) {
        auto& r = res[i];
        x.eq(num(r, "n", x), static_cast<ll>(c.n), "n=");
        x.eq(num(r, "m", x), static_cast<ll>(c.e.size()), "m=");
        x.eq(num(r, "seed", x), c.P("seed"), "seed=");
        x.eq(num(r, "processes", x), procs[i % procs.size()], "processes=");
        x.eq(r["graph"], std::string("g.metis"), "graph=");
        if (!c.S("pq").empty()) x.check(r["algo"].find(c.S("pq")) != std::string::npos, "queue " + c.S("pq") + " is not used: algo=" + r["algo"]);
        u64 v = num(r, "cut", x);
        if (exact) x.eq(v, lam, algo + " cut=");
        else x.check(v >= lam, algo + " reports " + std::to_string(v) + ", below the minimum cut " + std::to_string(lam));
        if (algo == "matula") x.check(v <= 2 * lam + 1, "matula reports more than its guarantee");
        x.check(v <= mindeg(c) || algo == "matula" || algo == "ks", algo + " reports more than the minimum degree");
    }
    if (out && c.P("bal") == 0) {
        auto s = read_numbers(cut, x, "cut file");
        x.eq(s.size(), static_cast<size_t>(c.n), "cut file: number of lines");
        std::vector<char> side(c.n);
        u64 in = 0;
        for (uint32_t i = 0; i < c.n; ++i) { x.check(s[i] == 0 || s[i] == 1, "cut file: side is not 0 or 1"); side[i] = s[i]; in += s[i]; }
        x.check(in > 0 && in < c.n, "cut file: all vertices on one side");
        x.eq(oracle::cut_weight(c.e, side), static_cast<u64>(num(res.back(), "cut", x)), "weight of the cut in the file (" + algo + ")");
        x.label("cut file");
    }
    if (c.P("bal") && out && lam > 0) {
        auto s = read_numbers(cut, x, "balanced cut file");
        x.eq(s.size(), static_cast<size_t>(c.n), "balanced cut file: number of lines");
        std::vector<char> side(c.n);
        u64 in = 0;
        for (uint32_t i = 0; i < c.n; ++i) { side[i] = s[i]; in += s[i]; }
        x.check(in > 0 && in < c.n, "balanced cut file: all vertices on one side");
        x.eq(oracle::cut_weight(c.e, side), lam, "weight of the balanced cut in the file");
        if (c.n <= 12) {
            std::set<oracle::Mask> all;
            oracle::enum_min_cuts(c.n, c.e, &all);
            // -b compares numbers of vertices, -d volumes
            bool vol = c.P("bal") == 2;
            std::vector<u64> size(c.n, vol ? 0 : 1);
            if (vol) for (auto& e : c.e) { size[e.u] += e.w; size[e.v] += e.w; }
            u64 best = 0, mine = 0, total = 0;
            for (uint32_t v = 0; v < c.n; ++v) { total += size[v]; if (side[v]) mine += size[v]; }
            for (auto& m : all) { u64 k = 0; for (uint32_t v = 0; v < c.n; ++v) if (m.has(v)) k += size[v]; best = std::max(best, std::min(k, total - k)); }
            x.eq(std::min(mine, total - mine), best, vol ? "smaller volume of the lowest conductance cut in the file" : "smaller side of the most balanced cut in the file");
            x.label(vol ? "low conductance cut file" : "balanced cut file");
        }
    }
    if (c.P("tree") && lam > 0) check_cactus_file(c, x, tree, lam);
    x.label(algo);
    if (c.n > 4 && lam < mindeg(c)) x.nt();
    else if (c.n > 4 && (iter * procs.size() > 1 || out || c.P("tree"))) x.nt();
}
static pbt::Reg m1({ "C31", "mincut", [](Rng& r, Case& c) { gen_mincut(r, c, false); }, [](const Case& c, Ctx& x) { run_mincut(c, x, false); }, 12000, 400000, false, 60 });
static pbt::Reg m2({ "C31", "mincut_par", [](Rng& r, Case& c) { gen_mincut(r, c, true); }, [](const Case& c, Ctx& x) { run_mincut(c, x, true); }, 6000, 150000, true, 60 });

// kcore
static void gen_kcore(Rng& r, Case& c) {
    gen_graph(r, c, 14, 50, 15);
    if (r.chance(2, 3)) for (auto& e : c.e) e.w = 1;
    if (r.chance(1, 5)) {   // dense parts with a few edges between them and a fringe of lower degree
        uint32_t a = r.range(4, 8), b = r.range(4, 8), fr = r.range(0, 6);
        c.n = a + b + fr; c.e.clear();
        std::set<std::pair<uint32_t, uint32_t> > s;
        auto add = [&](uint32_t u, uint32_t v) { if (u > v) std::swap(u, v); if (u != v && s.insert({ u, v }).second) c.e.push_back({ u, v, 1 }); };
        for (uint32_t i = 0; i < a; ++i) for (uint32_t j = 0; j < i; ++j) add(i, j);
        for (uint32_t i = 0; i < b; ++i) for (uint32_t j = 0; j < i; ++j) add(a + i, a + j);
        for (ll k = r.range(1, std::min(a, b)); k > 0; --k) add(r.range(0, a - 1), a + r.range(0, b - 1));
        for (uint32_t v = a + b; v < c.n; ++v) for (ll k = r.range(1, 3); k > 0; --k) add(v, r.range(0, v - 1));
        std::vector<uint32_t> pm(c.n);
        for (uint32_t i = 0; i < c.n; ++i) pm[i] = i;
        r.shuffle(pm);
        for (auto& e : c.e) { e.u = pm[e.u]; e.v = pm[e.v]; }
    }
    c.p["lowest"] = r.chance(1, 3); c.p["nocut"] = r.chance(1, 3);
    c.p["nk"] = r.range(1, 3);
    for (int i = 0; i < 3; ++i) c.p["k" + std::to_string(i)] = r.range(1, 6);
}
static std::vector<E> induced(const std::vector<E>& e, const std::vector<uint32_t>& V, uint32_t n) {
    std::vector<ll> pos(n, -1);
    for (size_t i = 0; i < V.size(); ++i) pos[V[i]] = i;
    std::vector<E> r;
    for (auto& q : e) if (pos[q.u] >= 0 && pos[q.v] >= 0) r.push_back({ static_cast<uint32_t>(pos[q.u]), static_cast<uint32_t>(pos[q.v]), q.w });
    return r;
}
// all components of maximum size of the subgraph induced by V
static std::vector<std::vector<uint32_t> > largest(const std::vector<E>& e, const std::vector<uint32_t>& V, uint32_t n) {
    auto ie = induced(e, V, n);
    uint32_t k = 0;
    auto comp = oracle::components(V.size(), ie, &k);
    std::vector<std::vector<uint32_t> > cc(k), r;
    for (uint32_t i = 0; i < V.size(); ++i) cc[comp[i]].push_back(V[i]);
    size_t mx = 0;
    for (auto& q : cc) mx = std::max(mx, q.size());
    for (auto& q : cc) if (q.size() == mx) r.push_back(q);
    return r;
}
static void run_kcore(const Case& c, Ctx& x) {
    valid(c, x);
    gen::describe(c, x);
    Dir d(x);
    std::string f = d.d + "/g.metis";
    write_graph(c, f);
    auto core = oracle::core_numbers(c.n, c.e, false);
    u64 mc = *std::max_element(core.begin(), core.end());
    bool lowest = c.P("lowest"), nocut = c.P("nocut");
    std::vector<std::string> a { f };
    std::vector<u64> ks;
    if (lowest) { a.push_back("-l"); for (u64 k = 2; k < mc; ++k) ks.push_back(k); if (ks.empty()) x.discard(); }
    else for (ll i = 0; i < std::min<ll>(3, std::max<ll>(1, c.P("nk", 1))); ++i) { u64 k = std::max<ll>(1, c.P("k" + std::to_string(i), 1)); a.push_back("-k"); a.push_back(std::to_string(k)); ks.push_back(k); }
    if (nocut) a.push_back("-c");
    ok(x, d.d, "app_kcore", a);
    bool some = false;
    std::set<u64> seen;
    for (u64 k : ks) {
        std::string out = f + "_core_" + std::to_string(k);
        bool there = access(out.c_str(), R_OK) == 0;
        if (k > mc) { x.check(!there, "file of an empty core"); continue; }
        std::vector<uint32_t> V;
        for (uint32_t v = 0; v < c.n; ++v) if (core[v] >= k) V.push_back(v);
        if (lowest) {   // only values k at which the core differs from that of k-1
            bool differs = k == 2;
            for (auto y : core) differs |= y == k - 1;
            if (!differs) { x.check(!there, "lowest core: file of a core equal to the one before"); continue; }
        }
        auto cand = largest(c.e, V, c.n);
        // every candidate gives the same decision or the file matches one of them
        bool match = false, may_none = false, may = false;
        Parsed p;
        if (there) p = parse_metis(out, x, "core file");
        for (auto& Q : cand) {
            auto ie = induced(c.e, Q, c.n);
            Case q; q.n = Q.size(); q.e = ie;
            u64 md = q.n ? mindeg(q) : 0, lam = nocut ? 0 : lambda_of(q.n, ie);
            if (lam < md) { may = true; auto u = ie; for (auto& y : u) y.w = 1; if (there && p.n == q.n && p.a == arcs_of(u)) match = true; }
            else may_none = true;
        }
        if (there) x.check(match, "core file of k=" + std::to_string(k) + " is not the largest component of the core with a cut below its minimum degree");
        else x.check(may_none || !may, "core file of k=" + std::to_string(k) + " is missing");
        some |= there;
        if (there && lowest) break;
    }
    x.label(lowest ? "lowest" : "given cores");
    if (some) { x.label("written"); }
    if (some && c.n > 4) x.nt();
}
static pbt::Reg m3({ "C31", "kcore", gen_kcore, run_kcore, 6000, 200000, false, 60 });

// multiterminal_cut
static void gen_mt(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 3; o.nmax = r.chance(1, 4) ? 26 : 12; o.disc_pct = 10; o.mmax = 200;
    gen::graph(r, c, o);
    c.p["fmt1"] = r.chance(1, 3);
    c.p["seed"] = r.range(0, 5000);
    int k = r.range(2, std::min<ll>(6, c.n));
    std::vector<uint32_t> v(c.n); for (uint32_t i = 0; i < c.n; ++i) v[i] = i;
    r.shuffle(v);
    for (int i = 0; i < k; ++i) c.lab.push_back(v[i]);
    c.s["mode"] = r.chance(2, 3) ? "t" : r.picks({ "k", "r", "f" });
    c.p["thr"] = r.chance(1, 2) ? 1 : r.range(2, 6);
    c.p["write"] = r.chance(1, 2); c.p["inexact"] = r.chance(1, 5);
    c.s["queue"] = r.chance(1, 2) ? "" : r.picks({ "bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted" });
    c.s["edge"] = r.chance(1, 2) ? "" : r.picks({ "heavy_vertex", "random", "heavy", "connection", "distance" });
}
static void run_mt(const Case& c, Ctx& x) {
    valid(c, x);
    if (c.n < 3) x.discard();
    gen::describe(c, x);
    Dir d(x);
    std::string f = d.d + "/g.metis", mode = c.S("mode", "t");
    write_graph(c, f);
    std::vector<std::string> a { f };
    std::vector<int> term(c.n, -1);
    int k = 0;
    std::set<ll> seen;
    for (ll v : c.lab) { if (v < 0 || v >= c.n || !seen.insert(v).second) x.discard(); }
    k = c.lab.size();
    if (k < 2) x.discard();
    bool known = true;
    if (mode == "t") for (int i = 0; i < k; ++i) { a.push_back("-t"); a.push_back(std::to_string(c.lab[i])); term[c.lab[i]] = i; }
    else if (mode == "k") {
        // the k vertices of highest weighted degree, if they are unique
        a.push_back("-k"); a.push_back(std::to_string(k));
        std::vector<u64> dg(c.n, 0); for (auto& e : c.e) { dg[e.u] += e.w; dg[e.v] += e.w; }
        std::vector<uint32_t> o(c.n); for (uint32_t i = 0; i < c.n; ++i) o[i] = i;
        std::stable_sort(o.begin(), o.end(), [&](uint32_t p, uint32_t q) { return dg[p] > dg[q]; });
        if (static_cast<uint32_t>(k) < c.n && dg[o[k - 1]] == dg[o[k]]) known = false;
        for (int i = 0; i < k; ++i) term[o[i]] = i;
    } else if (mode == "r") { a.push_back("-r"); a.push_back(std::to_string(k)); known = false; }
    else {
        std::string t;
        for (int i = 0; i < k; ++i) term[c.lab[i]] = i;
        for (uint32_t v = 0; v < c.n; ++v) t += std::to_string(term[v] < 0 ? k : term[v]) + "\n";
        x.discard();
    }
    ll thr = std::min<ll>(8, std::max<ll>(1, c.P("thr", 1)));
    bool inexact = c.P("inexact"), wr = c.P("write");
    a.push_back("-p"); a.push_back(std::to_string(thr));
    a.push_back("-s"); a.push_back(std::to_string(c.P("seed")));
    a.push_back("-T"); a.push_back("5");
    a.push_back("-d");
    if (!c.S("queue").empty()) { a.push_back("-q"); a.push_back(c.S("queue")); }
    if (!c.S("edge").empty()) { a.push_back("-e"); a.push_back(c.S("edge")); }
    if (inexact) a.push_back("-X");
    if (wr) a.push_back("-w");
    Out o = ok(x, d.d, "app_multiterminal_cut", a, 60);
    auto res = results(o.text);
    x.eq(res.size(), static_cast<size_t>(1), "number of RESULT lines");
    auto& r = res[0];
    x.eq(num(r, "terminals", x), static_cast<ll>(k), "terminals=");
    x.eq(num(r, "n", x), static_cast<ll>(c.n), "n=");
    x.eq(num(r, "m", x), static_cast<ll>(c.e.size()), "m=");
    x.eq(num(r, "processes", x), thr, "processes=");
    x.eq(num(r, "seed", x), c.P("seed"), "seed=");
    x.eq(num(r, "inexact", x), static_cast<ll>(inexact), "inexact=");
    u64 v = num(r, "cut", x);
    if (known) {
        oracle::Mtc m; m.limit = 400;
        bool solved = m.solve(c.n, c.e, term, k);
        u64 best = m.best;
        if (solved && !m.gave_up) {
            if (inexact) x.check(v >= best, "inexact cut=" + std::to_string(v) + " is below the optimum " + std::to_string(best));
            else x.eq(v, best, "cut=");
        }
        x.label("against the optimum");
        if (best > 0 && c.n > 4) x.nt();
    }
    if (wr) {
        auto s = read_numbers(d.d + "/solution", x, "solution");
        x.eq(s.size(), static_cast<size_t>(c.n), "solution: number of lines");
        u64 w = 0;
        for (auto& e : c.e) if (s[e.u] != s[e.v]) w += e.w;
        x.eq(w, v, "weight of the written solution");
        std::set<ll> blocks;
        for (ll y : s) { x.check(y >= 0 && y < k, "solution: block out of range"); blocks.insert(y); }
        x.eq(blocks.size(), static_cast<size_t>(k), "solution: number of blocks");
        if (mode == "t") { std::set<ll> tb; for (ll t : c.lab) tb.insert(s[t]); x.eq(tb.size(), static_cast<size_t>(k), "solution: terminals in different blocks"); }
        x.label("solution");
    }
    x.label("mode " + mode);
}
static pbt::Reg m4({ "C31", "multiterminal", gen_mt, run_mt, 9000, 200000, true, 90 });

// dynamic_mincut, static and incremental, against a recomputation after every update
static void gen_dyn(Rng& r, Case& c) {
    c.p["init"] = r.chance(2, 3);
    gen_graph(r, c, 10, 24, 15);
    if (!c.P("init")) c.e.clear();
    std::map<std::pair<uint32_t, uint32_t>, int> cur;
    for (auto& e : c.e) ++cur[{ std::min(e.u, e.v), std::max(e.u, e.v) }];
    ll k = r.range(1, r.chance(1, 5) ? 60 : 15), t = 0;
    bool ties = r.chance(1, 3);
    int pdel = r.range(0, 6);
    for (ll i = 0; i < k; ++i) {
        if (!cur.empty() && r.chance(pdel, 10)) {
            auto it = cur.begin(); std::advance(it, r.range(0, cur.size() - 1));
            auto [u, v] = it->first;
            c.ops.push_back({ r.chance(1, 2) ? u : v, 0, -1, 0 }); c.ops.back()[1] = c.ops.back()[0] == u ? v : u;
            if (--it->second == 0) cur.erase(it);
        } else {
            uint32_t u = r.range(0, c.n - 1), v = r.range(0, c.n - 1);
            if (u == v) { continue; }
            if (cur.count({ std::min(u, v), std::max(u, v) })) continue;
            ++cur[{ std::min(u, v), std::max(u, v) }];
            c.ops.push_back({ u, v, r.chance(1, 2) ? 1 : r.range(1, 6), 0 });
        }
        t += ties ? r.range(0, 1) : 1;
        c.ops.back()[3] = t + 1;
    }
    small_weights(c);
    c.p["par"] = r.chance(1, 3); c.p["static"] = r.chance(1, 3); c.p["nobatch"] = r.chance(1, 2); c.p["thr"] = r.range(1, 4);
    c.p["bal"] = r.chance(1, 6);
}
static void run_dyn(const Case& c, Ctx& x) {
    if (c.n < 2 || c.ops.empty()) x.discard();
    valid(c, x);
    Dir d(x);
    std::string g = d.d + "/g.metis", f = d.d + "/updates.3.4.5", t;
    std::map<std::pair<uint32_t, uint32_t>, u64> cur;
    for (auto& e : c.e) cur[{ std::min(e.u, e.v), std::max(e.u, e.v) }] = e.w;
    auto lam = [&](uint32_t n) { std::vector<E> e; for (auto& [q, w] : cur) e.push_back({ q.first, q.second, w }); return lambda_of(n, e); };
    bool st = c.P("static"), nobatch = c.P("nobatch"), init = c.P("init");
    uint32_t mx = 0;
    ll last = 0;
    for (auto& o : c.ops) {
        if (o.size() != 4 || o[0] < 0 || o[1] < 0 || o[0] >= c.n || o[1] >= c.n || o[0] == o[1] || o[2] == 0 || o[3] < last || o[3] < 1) x.discard();
        last = o[3];
        mx = std::max<uint32_t>(mx, std::max(o[0], o[1]));
        t += std::to_string(o[0] + 1) + " " + std::to_string(o[1] + 1) + " " + (o[2] < 0 ? "-1" : "+" + std::to_string(o[2])) + " " + std::to_string(o[3]) + "\n";
    }
    if (!init && !c.e.empty()) x.discard();
    uint32_t n = init ? c.n : mx + 1;
    u64 prev = lam(n), chg = 0, ins = 0, del = 0;
    for (size_t i = 0; i < c.ops.size(); ++i) {
        auto& o = c.ops[i];
        auto key = std::make_pair(static_cast<uint32_t>(std::min(o[0], o[1])), static_cast<uint32_t>(std::max(o[0], o[1])));
        if (o[2] > 0) { if (cur.count(key)) x.discard(); cur[key] = o[2]; ++ins; } else { if (!cur.erase(key)) x.discard(); ++del; }
        // batches end before an update of a later time
        if (st && !nobatch && i + 1 < c.ops.size() && c.ops[i + 1][3] == o[3]) continue;
        u64 l = lam(n);
        if (l != prev) { ++chg; prev = l; }
    }
    write_graph(c, g);
    put(f, t);
    std::vector<std::string> a { "-d", f, "-r", std::to_string(c.P("seed")) };
    if (init) { a.push_back("-i"); a.push_back(g); }
    if (st) a.push_back("-s");
    if (nobatch) a.push_back("-b");
    if (c.P("bal")) a.push_back("-m");
    bool par = c.P("par");
    if (par) { a.push_back("-p"); a.push_back(std::to_string(std::min<ll>(8, std::max<ll>(1, c.P("thr", 1))))); }
    auto o = ok(x, d.d, par ? "app_dynamic_mincut_par" : "app_dynamic_mincut", a);
    auto res = results(o.text);
    x.eq(res.size(), static_cast<size_t>(1), "number of RESULT lines");
    auto& r = res[0];
    x.eq(num(r, "n", x), static_cast<ll>(n), "n=");
    x.eq(num(r, "initialm", x), static_cast<ll>(c.e.size()), "initialm=");
    x.eq(num(r, "insert", x), static_cast<ll>(ins), "insert=");
    x.eq(num(r, "delete", x), static_cast<ll>(del), "delete=");
    x.eq(num(r, "seed", x), 5ll, "seed=");
    x.eq(num(r, "timedOut", x), 0ll, "timedOut=");
    x.eq(num(r, "cutchange", x), static_cast<ll>(chg), "cutchange= (changes of the minimum cut)");
    if (!st) {
        bool found = false;
        for (auto& l : lines(o.text)) {
            std::istringstream is(l); std::string p, q; u64 h, v;
            if (is >> p >> h >> q >> v && p == "n" && q == "c") { found = true; x.eq(v, prev, "final minimum cut"); }
        }
        x.check(found, "no final minimum cut printed");
    }
    x.label(st ? (nobatch ? "static" : "static, batches") : "dynamic");
    if (chg >= 1 && del + ins >= 4) x.nt();
}
static pbt::Reg m5({ "C31", "dynamic", gen_dyn, run_dyn, 12000, 300000, false, 60 });

// mincut_contract: value of a graph with randomly contracted edges; mincut_heavy
static void gen_contract(Rng& r, Case& c) {
    gen_graph(r, c, 14, 50, 0);
    c.p["app"] = r.range(0, 1);
    c.p["par"] = r.chance(1, 3);
    if (c.P("par")) small_weights(c);
    c.p["cf"] = r.chance(1, 6) ? 0 : r.range(0, 95);
    c.p["iter"] = r.range(1, 2);
    c.p["save"] = r.chance(1, 2);
    c.s["algo"] = c.P("par") ? r.picks({ "inexact", "exact" }) : r.picks({ "vc", "noi", "ks", "matula", "pr" });
    c.p["thr"] = r.range(1, 4);
}
static void run_contract(const Case& c, Ctx& x) {
    valid(c, x);
    if (!oracle::connected(c.n, c.e)) x.discard();
    gen::describe(c, x);
    Dir d(x);
    std::string f = d.d + "/g.metis";
    write_graph(c, f);
    bool heavy = c.P("app"), par = c.P("par"), save = c.P("save");
    if ((c.S("algo", "noi") == "inexact" || c.S("algo", "noi") == "exact") != par) x.discard();
    std::string cf = "0." + std::string(c.P("cf") < 10 ? "0" : "") + std::to_string(c.P("cf"));
    ll iter = std::max<ll>(1, c.P("iter", 1));
    std::vector<std::string> a { f, c.S("algo", "noi"), "-c", cf, "-i", std::to_string(iter) };
    if (par) { a.push_back("-p"); a.push_back(std::to_string(std::min<ll>(8, std::max<ll>(1, c.P("thr", 1))))); }
    if (save) a.push_back("-s");
    std::string app = std::string(heavy ? "app_mincut_heavy" : "app_mincut_contract") + (par ? "_par" : "");
    auto o = ok(x, d.d, app, a);
    auto res = results(o.text);
    x.eq(res.size(), static_cast<size_t>(iter), "number of RESULT lines");
    u64 lam = lambda_of(c.n, c.e);
    for (auto& r : res) {
        x.eq(num(r, "n", x), static_cast<ll>(c.n), "n=");
        x.eq(num(r, "m", x), static_cast<ll>(c.e.size()), "m=");
        u64 v = num(r, "cut", x);
        // mincut_heavy extends a partition to removed vertices: any partition, even a trivial one
        if (!heavy) x.check(v >= lam, app + " reports " + std::to_string(v) + ", below the minimum cut " + std::to_string(lam));
        if (!heavy && !par && c.P("cf") == 0 && c.S("algo") == "noi") x.eq(v, lam, "cut without contraction");
    }
    if (save) {
        auto s = read_numbers(f + ".cut", x, "cut file");
        x.eq(s.size(), static_cast<size_t>(c.n), "cut file: number of lines");
        std::vector<char> side(c.n);
        for (uint32_t i = 0; i < c.n; ++i) { x.check(s[i] == 0 || s[i] == 1, "cut file: side is not 0 or 1"); side[i] = s[i]; }
        x.eq(oracle::cut_weight(c.e, side), static_cast<u64>(num(res.back(), "cut", x)), "weight of the cut in the file");
        x.label("cut file");
    }
    x.label(heavy ? "mincut_heavy" : "mincut_contract");
    if (c.n > 5) x.nt();
}
static pbt::Reg m6({ "C31", "contract", gen_contract, run_contract, 2000, 40000, false, 60 });

// mincut_recursive: repeatedly the largest component of the largest cactus block,
// until at most 1000 vertices are left
static void gen_rec(Rng& r, Case& c) {
    uint32_t n = r.range(1001, 1030);
    c.n = n;
    // a big sparse core (cycle + chords) with small satellites attached by light edges
    uint32_t core = n - r.range(5, 60);
    if (r.chance(1, 4)) core = n;
    std::vector<uint32_t> id(n); for (uint32_t i = 0; i < n; ++i) id[i] = i;
    r.shuffle(id);
    std::set<std::pair<uint32_t, uint32_t> > have;
    auto add = [&](uint32_t u, uint32_t v, u64 w) { if (u == v) return; u = id[u]; v = id[v]; if (u > v) std::swap(u, v); if (have.insert({ u, v }).second) c.e.push_back({ u, v, w }); };
    u64 wc = r.range(3, 6);
    // one core or several of similar sizes, joined by light edges
    uint32_t parts = r.chance(1, 2) ? 1 : r.range(2, 4), from = 0;
    for (uint32_t k = 0; k < parts; ++k) {
        uint32_t to = k + 1 == parts ? core : core * (k + 1) / parts + r.range(0, 80) - 40, len = to - from;
        for (uint32_t i = 0; i < len; ++i) add(from + i, from + (i + 1) % len, wc);
        for (uint32_t i = 0; i < len / 2; ++i) add(r.range(from, to - 1), r.range(from, to - 1), r.range(1, wc));
        if (k) for (ll j = r.range(1, 2); j > 0; --j) add(r.range(0, from - 1), r.range(from, to - 1), r.range(1, 2));
        from = to;
    }
    for (uint32_t i = core; i < n; ++i) {
        int k = r.range(1, 2);
        for (int j = 0; j < k; ++j) add(i, r.chance(1, 3) ? r.range(0, i - 1) : r.range(0, core - 1), r.range(1, 2));
    }
    if (r.chance(1, 8)) { uint32_t k = r.range(1, 4); c.n += k; }
    c.p["par"] = r.chance(1, 3); c.p["fmt1"] = 1;
    c.p["write"] = r.chance(5, 6);
}
// whether more than lam can flow between two vertices
struct Flow {
    struct A { uint32_t t; u64 cap; };
    std::vector<A> a; std::vector<std::vector<uint32_t> > g;
    Flow(uint32_t n, const std::vector<E>& e) : g(n) {
        for (auto& q : e) { g[q.u].push_back(a.size()); a.push_back({ q.v, q.w }); g[q.v].push_back(a.size()); a.push_back({ q.u, q.w }); }
    }
    bool more(uint32_t s, uint32_t t, u64 lam) const {
        auto b = a;
        u64 f = 0;
        while (f <= lam) {
            std::vector<ll> via(g.size(), -1);
            std::vector<uint32_t> q { s };
            via[s] = -2;
            for (size_t i = 0; i < q.size() && via[t] == -1; ++i)
                for (uint32_t y : g[q[i]]) if (b[y].cap && via[b[y].t] == -1) { via[b[y].t] = y; q.push_back(b[y].t); }
            if (via[t] == -1) return false;
            u64 c = lam + 1;
            for (uint32_t v = t; v != s; v = b[via[v] ^ 1].t) c = std::min(c, b[via[v]].cap);
            for (uint32_t v = t; v != s; v = b[via[v] ^ 1].t) { b[via[v]].cap -= c; b[via[v] ^ 1].cap += c; }
            f += c;
        }
        return true;
    }
};
// the graphs that may follow: largest components of the largest sets of vertices that no
// minimum cut separates, as their sorted lists of degrees; empty if there are too many sets
typedef std::vector<std::pair<u64, u64> > Degrees;
static Degrees degrees(uint32_t n, const std::vector<E>& e) {
    Degrees d(n, { 0, 0 });
    for (auto& q : e) { ++d[q.u].first; ++d[q.v].first; d[q.u].second += q.w; d[q.v].second += q.w; }
    std::sort(d.begin(), d.end());
    return d;
}
static std::set<Degrees> next_graphs(uint32_t n, const std::vector<E>& e, u64 lam) {
    Flow fl(n, e);
    std::vector<std::vector<uint32_t> > cls;
    std::set<Degrees> r;
    for (uint32_t v = 0; v < n; ++v) {
        bool found = false;
        std::sort(cls.begin(), cls.end(), [](auto& p, auto& q) { return p.size() > q.size(); });
        for (auto& k : cls) if (fl.more(v, k[0], lam)) { k.push_back(v); found = true; break; }
        if (!found) cls.push_back({ v });
        if (cls.size() > 120) return r;
    }
    size_t mx = 0;
    for (auto& k : cls) mx = std::max(mx, k.size());
    for (auto& k : cls) if (k.size() == mx)
        for (auto& Q : largest(e, k, n)) r.insert(degrees(Q.size(), induced(e, Q, n)));
    return r;
}
static void run_rec(const Case& c, Ctx& x) {
    valid(c, x);
    if (c.n < 900 || c.n > 1500) x.discard();
    Dir d(x);
    std::string f = d.d + "/g.metis";
    write_graph(c, f);
    std::vector<std::string> a { f };
    if (c.P("write")) a.push_back("-o");
    auto o = ok(x, d.d, c.P("par") ? "app_mincut_recursive_par" : "app_mincut_recursive", a, 60);
    std::vector<u64> cuts; std::vector<std::pair<u64, u64> > sizes;
    std::string rest;
    for (auto& l : lines(o.text)) {
        if (starts(l, "Minimum cut ", &rest)) cuts.push_back(strtoull(rest.c_str(), nullptr, 10));
        if (starts(l, "Next graph: G=(", &rest)) { char* q; u64 p = strtoull(rest.c_str(), &q, 10); sizes.push_back({ p, strtoull(q + 1, nullptr, 10) }); }
    }
    if (c.n <= 1000) { x.check(cuts.empty(), "a graph with at most 1000 vertices is cut"); return; }
    x.check(!cuts.empty() && cuts.size() == sizes.size(), "no minimum cut printed");
    x.eq(cuts[0], lambda_of(c.n, c.e), "first minimum cut");
    if (c.P("write")) {
        uint32_t bn = c.n; std::vector<E> be = c.e;   // the graph before
        for (size_t i = 0; i < cuts.size(); ++i) {
            auto p = parse_metis(f + "_" + std::to_string(i), x, "graph " + std::to_string(i));
            x.eq(p.n, sizes[i].first, "vertices of the written graph");
            x.check(oracle::connected(p.n, p.e()), "written graph is not connected");
            auto want = next_graphs(bn, be, cuts[i]);
            if (!want.empty()) {
                x.check(want.count(degrees(p.n, p.e())), "graph " + std::to_string(i) + " is not the largest component of the largest block");
                x.label("next graph known");
            }
            bn = p.n; be = p.e();
            if (i + 1 < cuts.size()) x.eq(cuts[i + 1], lambda_of(p.n, p.e()), "minimum cut of graph " + std::to_string(i));
        }
    }
    x.check(sizes.back().first <= 1000, "stops with more than 1000 vertices");
    for (size_t i = 1; i < sizes.size(); ++i) x.check(sizes[i].first < sizes[i - 1].first, "graph does not get smaller");
    x.label(std::to_string(std::min<size_t>(5, cuts.size())) + " rounds");
    if (cuts.size() >= 1) x.nt();
}
static pbt::Reg m7({ "C31", "recursive", gen_rec, run_rec, 24, 800, false, 90 });

// ------------------------------------------------------------------ C32
static void gen_torus(Rng& r, Case& c) {
    c.p["n"] = r.chance(1, 4) ? r.range(20, 60) : r.range(2, 14); c.p["b"] = r.range(2, r.chance(1, 3) ? 5 : 3); c.p["c"] = r.range(1, 3); c.p["s"] = r.range(0, 1000);
    c.p["o"] = r.chance(1, 2);
}
static void run_torus(const Case& c, Ctx& x) {
    ll n = c.P("n"), b = c.P("b"), k = c.P("c"), s = c.P("s");
    if (n < 2 || n > 100 || b < 2 || b > 6 || k < 1 || k > 5 || s < 0) x.discard();
    Dir d(x);
    std::vector<std::string> a { "-n", std::to_string(n), "-b", std::to_string(b), "-c", std::to_string(k), "-s", std::to_string(s) };
    std::string dir = d.d;
    if (c.P("o")) { dir = d.d + "/out"; fs::create_directory(dir); a.push_back("-o"); a.push_back(dir); }
    ok(x, d.d, "app_gnp_torus", a);
    auto p = parse_metis(dir + "/gnp_" + std::to_string(n) + "_" + std::to_string(b) + "_" + std::to_string(k) + "_" + std::to_string(s), x, "torus");
    x.eq(p.n, static_cast<u64>(n * b * b), "number of vertices");
    std::set<std::pair<uint32_t, uint32_t> > seen;
    std::map<std::pair<ll, ll>, u64> between;
    std::vector<u64> inside(b * b, 0);
    for (auto& [u, v, w] : p.a) {
        x.check(seen.insert({ u, v }).second, "parallel edges");
        ll bu = u / n, bv = v / n;
        if (bu == bv) { inside[bu] += w; continue; }
        if (u < v) between[{ std::min(bu, bv), std::max(bu, bv) }] += w;
    }
    // exactly cut edges from every block to the one right of it and the one below it
    std::map<std::pair<ll, ll>, u64> want;
    for (ll i = 0; i < b * b; ++i) {
        ll xx = i % b, y = i / b, rt = y * b + (xx + 1) % b, dn = ((y + 1) % b) * b + xx;
        want[{ std::min(i, rt), std::max(i, rt) }] += k;
        want[{ std::min(i, dn), std::max(i, dn) }] += k;
    }
    x.check(between == want, "edges between blocks differ from the torus");
    for (ll i = 0; i < b * b; ++i) x.check(inside[i] <= static_cast<u64>(2 * n * (4 * k + 1)), "too many edges inside a block");
    if (n >= 8) for (ll i = 0; i < b * b; ++i) x.check(inside[i] >= static_cast<u64>(n * (4 * k + 1)), "too few edges inside a block");
    // same seed, same graph
    std::string t = slurp(dir + "/gnp_" + std::to_string(n) + "_" + std::to_string(b) + "_" + std::to_string(k) + "_" + std::to_string(s));
    ok(x, d.d, "app_gnp_torus", a);
    x.check(t == slurp(dir + "/gnp_" + std::to_string(n) + "_" + std::to_string(b) + "_" + std::to_string(k) + "_" + std::to_string(s)), "the same seed gives another graph");
    x.label(std::to_string(b) + " blocks per dimension");
    x.nt();
}
static pbt::Reg g1({ "C32", "torus", gen_torus, run_torus, 600, 20000, false, 60 });

static void gen_wgt(Rng& r, Case& c) {
    gen_graph(r, c, 14, 60, 15);
    c.p["min"] = r.range(1, 20); c.p["max"] = c.P("min") + (r.chance(1, 4) ? 0 : r.range(1, 50)); c.p["multi"] = r.chance(1, 4) ? 1 : r.range(100, 1000);
}
static void run_wgt(const Case& c, Ctx& x) {
    valid(c, x);
    ll lo = c.P("min"), hi = c.P("max"), mu = c.P("multi");
    if (lo < 1 || hi < lo || mu < 1 || hi > 1000000 || mu > 100000) x.discard();
    gen::describe(c, x);
    Dir d(x);
    std::string f = d.d + "/g.metis", o = d.d + "/w.metis";
    write_graph(c, f);
    ok(x, d.d, "app_make_graph_weighted", { f, o, std::to_string(lo), std::to_string(hi), std::to_string(mu), "-s", std::to_string(c.P("seed")) });
    auto p = parse_metis(o, x, "weighted graph");
    x.eq(p.n, static_cast<u64>(c.n), "number of vertices");
    auto q = p.a; for (auto& [u, v, w] : q) w = 1;
    auto e = c.e; for (auto& y : e) y.w = 1;
    x.check(q == arcs_of(e), "the edges changed");
    x.check(c.e.empty() || p.fmt % 10 == 1, "no weights in the file");
    std::vector<char> heavy(c.n, 0), any(c.n, 0);
    u64 nh = 0, nl = 0;
    for (auto& [u, v, w] : p.a) {
        bool light = static_cast<ll>(w) >= lo && static_cast<ll>(w) <= hi;
        bool hv = w % mu == 0 && static_cast<ll>(w / mu) >= lo && static_cast<ll>(w / mu) <= hi;
        x.check(light || hv, "weight " + std::to_string(w) + " out of range");
        if (hv) heavy[u] = 1;
        any[u] = 1;
        if (mu > 1 && hv && !light) ++nh;
        if (light) ++nl;
    }
    if (mu > 1) for (uint32_t v = 0; v < c.n; ++v) if (any[v]) x.check(heavy[v], "vertex " + std::to_string(v) + " has no heavy edge");
    if (mu > 1 && lo * mu > hi) x.check(nh / 2 <= c.n, "more heavy edges than vertices");
    if (c.n > 4 && nl && nh) x.nt();
}
static pbt::Reg g2({ "C32", "weighted", gen_wgt, run_wgt, 1500, 40000, false, 60 });

static void gen_cc(Rng& r, Case& c) {
    gen_graph(r, c, 14, 60, 70);
    if (r.chance(1, 3)) c.n += r.range(1, 3);
    c.p["w"] = r.chance(1, 2);
    c.p["path"] = r.range(0, 4);
}
static void run_cc(const Case& c, Ctx& x) {
    valid(c, x);
    gen::describe(c, x);
    Dir d(x);
    fs::create_directory(d.d + "/a.b");
    static const char* P[] = { "g.metis", "./g.metis", "plain", "a.b/g", "a.b/g.metis" };
    static const char* O[] = { "g.cc", "g.cc", "plain.cc", "a.b/g.cc", "a.b/g.cc" };
    ll k = std::min<ll>(4, std::max<ll>(0, c.P("path")));
    write_graph(c, d.d + "/" + P[k]);
    std::vector<std::string> a { P[k] };
    if (c.P("w")) a.push_back("-w");
    ok(x, d.d, "app_largest_cc", a);
    auto p = parse_metis(d.d + "/" + O[k], x, std::string("largest component of ") + P[k]);
    std::vector<uint32_t> V(c.n); for (uint32_t i = 0; i < c.n; ++i) V[i] = i;
    auto cand = largest(c.e, V, c.n);
    bool match = false;
    for (auto& Q : cand) { auto ie = induced(c.e, Q, c.n); if (!c.P("w")) for (auto& e : ie) e.w = 1; match |= p.n == Q.size() && p.a == arcs_of(ie); }
    x.check(match, "file is not the largest component");
    if (c.n > 3 && p.n < c.n && p.n > 1) x.nt();
}
static pbt::Reg g3({ "C32", "largest_cc", gen_cc, run_cc, 1500, 40000, false, 60 });

static void gen_tcc(Rng& r, Case& c) {
    c.n = r.range(3, 25);
    ll k = r.range(1, c.n + 4), t = 0;
    bool ties = r.chance(1, 4);
    for (ll i = 0; i < k; ++i) {
        t += ties ? r.range(0, 1) : r.range(1, 5);
        ll u = r.range(0, c.n - 1), v = r.range(0, c.n - 1);
        if (u == v && r.chance(9, 10)) continue;
        c.ops.push_back({ u, v, r.chance(1, 4) ? -1 : r.range(1, 4), t + 1 });
    }
    // file order need not be time order
    c.p["shuffle"] = r.chance(1, 2) && !ties; c.p["seed"] = r.range(0, 1000);
}
static void run_tcc(const Case& c, Ctx& x) {
    if (c.ops.empty()) x.discard();
    Dir d(x);
    std::string f = d.d + "/t.edges", t;
    uint32_t n = 0;
    std::vector<E> e;
    ll last = 0; bool strict = true;
    for (auto& o : c.ops) {
        if (o.size() != 4 || o[0] < 0 || o[1] < 0 || o[0] > 1000 || o[1] > 1000 || o[2] == 0 || o[3] < last || o[3] < 1) x.discard();
        if (o[3] == last) strict = false;
        last = o[3];
        n = std::max<uint32_t>(n, std::max(o[0], o[1]) + 1);
        if (o[0] != o[1]) e.push_back({ static_cast<uint32_t>(o[0]), static_cast<uint32_t>(o[1]), 1 });
    }
    auto ord = c.ops;
    if (c.P("shuffle") && strict) { Rng q(c.P("seed")); q.shuffle(ord); }
    for (auto& o : ord) t += std::to_string(o[0] + 1) + " " + std::to_string(o[1] + 1) + " " + (o[2] > 0 ? "+" : "") + std::to_string(o[2]) + " " + std::to_string(o[3]) + "\n";
    put(f, t);
    ok(x, d.d, "app_temporal_largest_cc", { f });
    std::vector<uint32_t> V(n); for (uint32_t i = 0; i < n; ++i) V[i] = i;
    auto cand = largest(e, V, n);
    std::string got = slurp(f + ".cc");
    x.check(access((f + ".cc").c_str(), R_OK) == 0, "no file written");
    bool match = false;
    for (auto& Q : cand) {
        std::vector<ll> pos(n, -1); for (size_t i = 0; i < Q.size(); ++i) pos[Q[i]] = i + 1;
        std::string w;
        for (auto& o : c.ops) if (pos[o[0]] > 0) w += std::to_string(pos[o[0]]) + " " + std::to_string(pos[o[1]]) + " " + std::to_string(o[2]) + " " + std::to_string(o[3]) + "\n";
        match |= w == got;
    }
    x.check(match, "file is not the updates of the largest component");
    if (cand[0].size() < n && cand[0].size() > 2) x.nt();
}
static pbt::Reg g4({ "C32", "temporal_largest_cc", gen_tcc, run_tcc, 1500, 40000, false, 60 });

// create_augment_edges: sequence of insertions and deletions
static void gen_aug(Rng& r, Case& c) {
    gen_graph(r, c, 16, 30, 5);
    std::vector<ll> dg(c.n, 0); for (auto& e : c.e) { ++dg[e.u]; ++dg[e.v]; }
    ll free = c.n - 2 - *std::max_element(dg.begin(), dg.end());
    if (free < 4) { ll more = r.range(6, 14) - free; for (ll i = 0; i < more; ++i) { c.e.push_back({ static_cast<uint32_t>(r.range(0, c.n - 1)), c.n, static_cast<u64>(r.range(1, 5)) }); ++c.n; } free = c.n - 2 - *std::max_element(dg.begin(), dg.end()); }
    c.p["ins"] = r.range(1, std::max<ll>(1, std::min<ll>(12, free - 1))); c.p["del"] = r.chance(1, 3) ? 0 : r.range(0, c.P("ins"));
    c.p["par"] = r.chance(1, 4);
    if (c.P("par")) small_weights(c);
}
static void run_aug(const Case& c, Ctx& x) {
    valid(c, x);
    ll ins = c.P("ins"), del = c.P("del");
    if (ins < 1 || del < 0 || del > ins || ins > 30) x.discard();
    // every vertex keeps a vertex that is not its neighbour
    std::vector<u64> dg(c.n, 0); for (auto& e : c.e) { ++dg[e.u]; ++dg[e.v]; }
    for (auto y : dg) if (y + ins + 1 >= c.n) x.discard();
    gen::describe(c, x);
    Dir d(x);
    std::string f = d.d + "/g.metis";
    write_graph(c, f);
    std::vector<std::string> a { f, "-i", std::to_string(ins), "-d", std::to_string(del), "-r", std::to_string(c.P("seed")) };
    ok(x, d.d, c.P("par") ? "app_create_augment_edges_par" : "app_create_augment_edges", a);
    std::string of = f + "." + std::to_string(ins) + "." + std::to_string(del) + "." + std::to_string(c.P("seed"));
    std::ifstream in(of);
    x.check(static_cast<bool>(in), "no file written");
    std::set<std::pair<ll, ll> > have, added;
    for (auto& e : c.e) have.insert({ std::min(e.u, e.v), std::max(e.u, e.v) });
    std::string line; ll i = 0, ni = 0, nd = 0;
    while (std::getline(in, line)) {
        std::istringstream is(line); ll u, v, t; std::string w, more;
        x.check(static_cast<bool>(is >> u >> v >> w >> t) && !(is >> more), "bad line: " + line);
        x.check(u >= 1 && v >= 1 && u <= c.n && v <= c.n && u != v, "vertex out of range: " + line);
        x.eq(t, i++, "time of an update");
        auto key = std::make_pair(std::min(u, v) - 1, std::max(u, v) - 1);
        if (w == "+1") { ++ni; x.check(have.insert(key).second, "inserted edge exists: " + line); added.insert(key); }
        else { x.eq(w, std::string("-1"), "weight of a deletion"); ++nd; x.check(added.erase(key) && have.erase(key), "deleted edge was not inserted before: " + line); }
    }
    x.eq(ni, ins, "number of insertions"); x.eq(nd, del, "number of deletions");
    if (del > 0 && ins > 2) x.nt();
}
static pbt::Reg g5({ "C32", "augment", gen_aug, run_aug, 1500, 30000, false, 60 });

// decremental_gnp: static and dynamic runs agree, and end at the cut of the graph
typedef std::vector<std::pair<u64, u64> > Changes;   // (updates so far, cut)
static Changes dec_changes(const Out& o, Ctx& x) {
    Changes r;
    std::string rest;
    for (auto& l : lines(o.text)) if (starts(l, "cut changed to ", &rest)) {
        std::istringstream is(rest); u64 v, k; std::string t, s, a;
        x.check(static_cast<bool>(is >> v >> a >> t >> s >> k), "bad line: " + l);
        r.push_back({ k, v });
    }
    return r;
}
static void gen_dec(Rng& r, Case& c) {
    gen::GOpt o; o.nmin = 20; o.nmax = 36; o.disc_pct = 5; o.mmax = 60;
    gen::graph(r, c, o);
    c.p["fmt1"] = 1; c.p["seed"] = r.range(0, 5000); c.p["e"] = r.range(1, 2); c.p["par"] = r.chance(1, 4);
    if (c.P("par")) small_weights(c);
}
static void run_dec(const Case& c, Ctx& x) {
    valid(c, x);
    ll ev = c.P("e");
    if (c.n < 16 || ev < 0 || ev > 2) x.discard();
    if (c.P("par")) need_small(c, x);
    std::vector<u64> dg(c.n, 0); for (auto& e : c.e) { ++dg[e.u]; ++dg[e.v]; }
    for (auto y : dg) if (y + 12 > c.n) x.discard();
    gen::describe(c, x);
    Dir d(x);
    std::string f = d.d + "/g.metis";
    write_graph(c, f);
    std::string app = c.P("par") ? "app_decremental_gnp_par" : "app_decremental_gnp";
    std::vector<std::string> a { "-i", f, "-e", std::to_string(ev), "-r", std::to_string(c.P("seed")) };
    auto o1 = ok(x, d.d, app, a);
    a.push_back("-s");
    auto o2 = ok(x, d.d, app, a);
    auto c1 = dec_changes(o1, x), c2 = dec_changes(o2, x);
    x.check(c1 == c2, "static and dynamic run report different cuts");
    u64 lam = lambda_of(c.n, c.e);
    if (!c1.empty()) x.eq(c1.back().second, lam, "cut after all deletions");
    for (size_t i = 1; i < c1.size(); ++i) x.check(c1[i].second < c1[i - 1].second && c1[i].first > c1[i - 1].first, "cut grows when edges are deleted");
    for (auto& [k, v] : c1) x.check(k >= 1 && k <= c.n * ev, "more updates than edges");
    // another seed gives another sequence: the option has an effect
    if (ev > 0) {
        bool differs = false;
        a.pop_back();
        for (ll s = 1; s <= 12 && !differs; ++s) { a.back() = std::to_string(c.P("seed") + s); differs = dec_changes(ok(x, d.d, app, a), x) != c1; }
        x.check(differs || c1.size() < 2, "the seed has no effect");
    }
    x.label(std::to_string(std::min<size_t>(4, c1.size())) + " changes");
    if (c1.size() >= 2) x.nt();
}
static pbt::Reg g6({ "C32", "decremental", gen_dec, run_dec, 500, 10000, false, 90 });

// dynmc_from_static: static and dynamic run of one seed report the same cuts
static void gen_dfs(Rng& r, Case& c) {
    gen_graph(r, c, 20, 60, 5);
    c.p["ins"] = r.range(0, 6); c.p["del"] = r.range(0, 6); c.p["m"] = r.chance(1, 5);
    c.p["frac"] = r.chance(1, 3);
    if (r.chance(1, 5)) { c.p["del"] = 0; c.p["ins"] = r.range(1, 8); }
    c.p["b"] = r.chance(1, 2) ? 1 : r.range(2, 6);
}
static Changes dfs_changes(const Out& o, Ctx& x, u64 total) {
    Changes r;
    std::string rest;
    for (auto& l : lines(o.text)) {
        if (starts(l, "after ", &rest)) { std::istringstream is(rest); u64 k, v; x.check(static_cast<bool>(is >> k >> v), "bad line: " + l); r.push_back({ k, v }); }
        if (starts(l, "at end, cut ", &rest)) r.push_back({ total, strtoull(rest.c_str(), nullptr, 10) });
    }
    return r;
}
static void run_dfs(const Case& c, Ctx& x) {
    valid(c, x);
    ll ins = c.P("ins"), del = c.P("del"), M = c.e.size();
    if (ins < 0 || del < 0 || ins + del == 0) x.discard();
    // edges whose end vertices keep another edge
    std::vector<ll> dg(c.n, 0); for (auto& e : c.e) { ++dg[e.u]; ++dg[e.v]; }
    ll good = 0; for (auto& e : c.e) good += dg[e.u] >= 2 && dg[e.v] >= 2;
    std::string is = std::to_string(ins), ds = std::to_string(del);
    if (c.P("frac")) { is = "0.0" + std::to_string(ins); ds = "0.0" + std::to_string(del); ins = std::floor(strtod(is.c_str(), nullptr) * static_cast<double>(2 * M) * 0.5); del = std::floor(strtod(ds.c_str(), nullptr) * static_cast<double>(2 * M) * 0.5); }
    if (c.P("need") ? false : good < 3 * (ins + del) + 2) x.discard();
    gen::describe(c, x);
    Dir d(x);
    std::string f = d.d + "/g.metis";
    write_graph(c, f);
    std::vector<std::string> a { "-g", f, "-i", is, "-r", ds, "-x", std::to_string(c.P("seed")) };
    if (c.P("m")) a.push_back("-m");
    auto o1 = ok(x, d.d, "app_dynmc_from_static", a);
    a.push_back("-s");
    auto o2 = ok(x, d.d, "app_dynmc_from_static", a);
    for (auto* o : { &o1, &o2 }) {
        auto res = results(o->text);
        x.eq(res.size(), static_cast<size_t>(1), "number of RESULT lines");
        x.eq(num(res[0], "insert", x), ins, "insert="); x.eq(num(res[0], "delete", x), del, "delete=");
        x.eq(num(res[0], "timed_out", x), 0ll, "timed_out=");
        x.eq(num(res[0], "seed", x), c.P("seed"), "seed=");
        bool done = false;
        std::vector<std::string> L = lines(o->text);
        for (auto& l : L) if (l == std::to_string(ins) + " " + std::to_string(del)) done = true;
        x.check(done, "not all updates were performed");
    }
    auto c1 = dfs_changes(o1, x, ins + del), c2 = dfs_changes(o2, x, ins + del);
    x.check(c1 == c2, "static and dynamic run report different cuts");
    x.eq(num(results(o1.text)[0], "cutchange", x), num(results(o2.text)[0], "cutchange", x), "cutchange= of the static run");
    // all edges are there again at the end if none is removed
    if (del == 0 && !c1.empty()) { x.eq(c1.back().second, lambda_of(c.n, c.e), "cut after all edges are inserted"); x.label("final cut known"); }
    ll b = std::max<ll>(1, c.P("b", 1)), N = ins + del;
    x.eq(num(results(o2.text)[0], "runs_static_alg", x), N ? N + 1 : 2, "runs of the static algorithm");
    if (b > 1 && N > 0) {   // batches: the same cuts, seen after every b updates and at the end
        a.push_back("-b"); a.push_back(std::to_string(b));
        auto o3 = ok(x, d.d, "app_dynmc_from_static", a);
        x.eq(num(results(o3.text).at(0), "runs_static_alg", x), 2 + (N - 1) / b, "runs of the static algorithm with batches");
        for (auto& [k, v] : dfs_changes(o3, x, N)) {
            x.check(static_cast<ll>(k) == N || k % b == 0, "cut reported within a batch");
            u64 want = 0; bool known = false;
            for (auto& [k1, v1] : c1) if (k1 <= k) { want = v1; known = true; }
            x.check(known, "batched run reports a change before the first change");
            x.eq(v, want, "cut after " + std::to_string(k) + " updates in batches");
        }
        x.label("batches");
    }
    x.label(std::to_string(std::min<size_t>(4, c1.size())) + " changes");
    if (c1.size() >= 1 && ins + del >= 3) x.nt();
}
static pbt::Reg g7({ "C32", "from_static", gen_dfs, run_dfs, 1200, 30000, false, 60 });

// balanced_small_cut: sequence of graphs and their minimum cuts
static void gen_bal(Rng& r, Case& c) {
    gen_graph(r, c, 14, 40, 0);
    c.p["mode"] = r.chance(1, 2) ? 0 : r.range(1, 2); c.p["par"] = r.chance(1, 3); c.p["cond"] = r.chance(1, 6); c.p["thr"] = r.range(1, 4); if (c.P("par")) small_weights(c);
}
static void run_bal(const Case& c, Ctx& x) {
    valid(c, x);
    if (!oracle::connected(c.n, c.e)) x.discard();
    gen::describe(c, x);
    Dir d(x);
    std::string f = d.d + "/g.metis";
    write_graph(c, f);
    std::vector<std::string> a { f, "-o", "-p", std::to_string(std::min<ll>(8, std::max<ll>(1, c.P("thr", 1)))) };
    if (c.P("mode") == 1) a.push_back("-a");
    if (c.P("mode") == 2) a.push_back("-b");
    if (c.P("cond")) a.push_back("-c");
    // with -a and -b the weights of cut edges grow for ever: stop after some rounds
    ll mode = c.P("mode"), rounds = 5;
    auto o = ok(x, d.d, c.P("par") ? "app_balanced_small_cut_par" : "app_balanced_small_cut", a, 30, mode ? f + "_" + std::to_string(rounds) : "");
    std::vector<u64> cuts, sizes;
    std::string rest;
    for (auto& l : lines(o.text)) {
        if (starts(l, "Minimum cut ", &rest)) cuts.push_back(strtoull(rest.c_str(), nullptr, 10));
        if (starts(l, "Next graph: G=(", &rest)) sizes.push_back(strtoull(rest.c_str(), nullptr, 10));
    }
    if (o.stopped) { cuts.resize(std::min<size_t>(cuts.size(), rounds)); sizes.resize(std::min(cuts.size(), sizes.size())); cuts.resize(sizes.size()); x.label("stopped"); if (cuts.empty()) x.discard(); }
    x.check(!cuts.empty() && cuts.size() == sizes.size(), "no minimum cut printed");
    x.eq(cuts[0], lambda_of(c.n, c.e), "first minimum cut");
    Parsed pv; pv.n = c.n; pv.a = arcs_of(c.e);
    for (size_t i = 0; i < cuts.size(); ++i) {
        auto p = parse_metis(f + "_" + std::to_string(i), x, "graph " + std::to_string(i));
        x.eq(p.n, sizes[i], "vertices of the written graph");
        x.check(p.n <= pv.n, "graph grows");
        bool augmented = mode && cuts[i] > 1;
        if (!augmented) {
            x.check(p.n < pv.n, "graph does not get smaller");
            // the remaining vertices are blocks: no edge of a graph gets heavier by contraction alone
            u64 a0 = 0, a1 = 0; for (auto& [u, v, w] : pv.a) a0 += w; for (auto& [u, v, w] : p.a) a1 += w;
            x.check(a1 < a0, "weight of the edges does not get smaller");
        }
        // contraction keeps, and heavier edges increase, the weight of every cut
        if (p.n > 1) x.check(lambda_of(p.n, p.e()) >= cuts[i], "minimum cut of graph " + std::to_string(i) + " is smaller than that of the graph before");
        if (i + 1 < cuts.size()) x.eq(cuts[i + 1], lambda_of(p.n, p.e()), "minimum cut of graph " + std::to_string(i));
        pv = p;
    }
    if (!o.stopped) x.eq(sizes.back(), static_cast<u64>(1), "vertices of the last graph");
    x.label("mode " + std::to_string(mode));
    x.label(std::to_string(std::min<size_t>(5, cuts.size())) + " rounds");
    if (cuts.size() >= 2) x.nt();
}
static pbt::Reg g8({ "C32", "balanced", gen_bal, run_bal, 1000, 20000, false, 60 });

int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
