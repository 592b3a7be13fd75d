// pbt.h - small property-based testing framework for the VieCut harnesses.
//
// * every random choice comes from Rng, seeded by (VERIF_SEED, subcheck, index)
// * a generated input is a Case: plain data, (de)serialisable = replay file
// * cases run in forked workers; crash / exit() / hang of the code under test
//   is a failure of that case
// * failures are shrunk generically on the Case and replayed in fresh processes
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace pbt {
typedef long long ll;
typedef unsigned long long ull;

inline uint64_t mix64(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix64(h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed ^ 0xabcdef1234567ull)) { }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    // uniform in [lo, hi]
    ll range(ll lo, ll hi) {
        if (hi <= lo) return lo;
        uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1;
        if (span == 0) return static_cast<ll>(next());
        return lo + static_cast<ll>(next() % span);
    }
    bool chance(int num, int den) { return static_cast<int>(next() % den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    ll pick(std::initializer_list<ll> l) { return *(l.begin() + next() % l.size()); }
    const char* picks(std::initializer_list<const char*> l) { return *(l.begin() + next() % l.size()); }
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
    }
};

struct E { uint32_t u, v; uint64_t w; };

struct Case {
    std::string sub;                        // subcheck name
    std::map<std::string, ll> p;            // numeric parameters
    std::map<std::string, std::string> s;   // string parameters / text
    uint32_t n = 0;                         // vertices of the graph
    std::vector<E> e;                       // undirected edges (or arcs)
    std::vector<ll> lab;                    // per-vertex label (optional)
    std::vector<std::vector<ll> > ops;      // operation history (optional)

    ll P(const std::string& k, ll d = 0) const { auto i = p.find(k); return i == p.end() ? d : i->second; }
    std::string S(const std::string& k, const std::string& d = "") const { auto i = s.find(k); return i == s.end() ? d : i->second; }

    static std::string esc(const std::string& t) {
        std::string o;
        char b[8];
        for (unsigned char c : t) {
            if (c <= 32 || c == '%' || c >= 127) { snprintf(b, sizeof b, "%%%02x", c); o += b; } else { o += c; }
        }
        return o.empty() ? "%" : o;
    }
    static std::string unesc(const std::string& t) {
        if (t == "%") return "";
        std::string o;
        for (size_t i = 0; i < t.size(); ++i) {
            if (t[i] == '%' && i + 2 < t.size()) { o += static_cast<char>(strtol(t.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; } else { o += t[i]; }
        }
        return o;
    }
    std::string str() const {
        std::ostringstream o;
        o << "sub " << sub << "\n";
        for (auto& [k, v] : p) o << "p " << k << " " << v << "\n";
        for (auto& [k, v] : s) o << "s " << k << " " << esc(v) << "\n";
        if (n || !e.empty()) o << "n " << n << "\n";
        for (auto& x : e) o << "e " << x.u << " " << x.v << " " << x.w << "\n";
        if (!lab.empty()) { o << "l"; for (ll x : lab) o << " " << x; o << "\n"; }
        for (auto& x : ops) { o << "o"; for (ll y : x) o << " " << y; o << "\n"; }
        return o.str();
    }
    static Case parse(std::istream& in) {
        Case c;
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream ls(line);
            std::string t;
            if (!(ls >> t) || t[0] == '#') continue;
            if (t == "sub") { ls >> c.sub; }
            else if (t == "p") { std::string k; ll v; ls >> k >> v; c.p[k] = v; }
            else if (t == "s") { std::string k, v; ls >> k >> v; c.s[k] = unesc(v); }
            else if (t == "n") { ls >> c.n; }
            else if (t == "e") { E x; ls >> x.u >> x.v >> x.w; c.e.push_back(x); }
            else if (t == "l") { ll v; while (ls >> v) c.lab.push_back(v); }
            else if (t == "o") { std::vector<ll> o; ll v; while (ls >> v) o.push_back(v); c.ops.push_back(o); }
        }
        return c;
    }
    uint64_t hash() const { return hash_str(str()); }
};

struct Failure { std::string msg; };
struct Discard { };

// Context of one case execution
struct Ctx {
    bool nontrivial = false;
    std::vector<std::string> labels;
    std::string scratch;      // per-worker scratch directory
    bool replaying = false;
    bool known = false;       // case belongs to a listed known finding: counted, not checked
    void label(const std::string& l) { labels.push_back(l); }
    void nt() { nontrivial = true; }
    [[noreturn]] void fail(const std::string& m) { throw Failure { m }; }
    [[noreturn]] void discard() { throw Discard { }; }
    void check(bool b, const std::string& m) { if (!b) fail(m); }
    template <class A, class B> void eq(const A& got, const B& want, const std::string& what) {
        if (!(got == want)) { std::ostringstream o; o << what << ": got " << got << ", expected " << want; fail(o.str()); }
    }
};

struct Sub {
    std::string prop;   // property id
    std::string name;   // unique subcheck name within the binary
    std::function<void(Rng&, Case&)> gen;
    std::function<void(const Case&, Ctx&)> run;
    ll quick, thorough;         // number of cases
    bool concurrent = false;    // outcome may depend on the schedule
    int cpu_limit = 20;         // CPU seconds for one case
    int quick_workers = 0;      // 0 = all
    bool fresh = false;         // every case in a process that ran no case before
};
inline std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }
inline std::function<void()>& reset_hook() { static std::function<void()> f; return f; }
struct Reg { explicit Reg(Sub s) { subs().push_back(s); } };

// ---------------------------------------------------------------- execution
enum Outcome { PASS = 0, FAILED = 1, DISCARD = 2 };

struct RunResult { Outcome o; std::string msg; };

inline RunResult run_case(const Sub& sb, const Case& c, Ctx& ctx) {
    if (reset_hook()) reset_hook()();
    try {
        sb.run(c, ctx);
    } catch (const Failure& f) {
        return { FAILED, f.msg };
    } catch (const Discard&) {
        return { DISCARD, "" };
    } catch (const std::exception& x) {
        return { FAILED, std::string("exception: ") + x.what() };
    }
    return { PASS, "" };
}

struct Slot {               // shared between parent and one worker
    volatile ll sub, idx;   // case in progress
    volatile ll done;       // completed cases in total
    volatile int state;     // 0 running, 1 finished, 2 failure found (msg), 3 hang
    volatile ll start_ms;
    char msg[4096];
};

inline ll now_ms() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

inline Slot*& cur_slot() { static Slot* s = nullptr; return s; }
inline void on_prof(int) {
    if (cur_slot()) { cur_slot()->state = 3; strcpy(cur_slot()->msg, "hang: CPU time limit for one case exceeded"); }
    _exit(77);
}
inline void arm(int cpu_s) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = cpu_s;
    setitimer(ITIMER_PROF, &t, nullptr);
}
inline double cpu_of(pid_t pid) {
    char path[64]; snprintf(path, sizeof path, "/proc/%d/stat", static_cast<int>(pid));
    std::ifstream f(path);
    std::string l; std::getline(f, l);
    auto p = l.rfind(')');
    if (p == std::string::npos) return -1;
    std::istringstream is(l.substr(p + 2));
    std::string t; unsigned long ut = 0, st = 0;
    for (int i = 0; i < 11; ++i) is >> t;
    is >> ut >> st;
    return (ut + st) / static_cast<double>(sysconf(_SC_CLK_TCK));
}
inline void quiet() {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1); dup2(fd, 2); close(fd);
}
inline void rmtree(const std::string& d);

struct Options {
    std::string prop, tier = "quick", outfile, replaydir = ".", replay, scratch = "/tmp";
    ull seed = 1; int workers = 8; double time_cap = 200, scale = 1; bool list = false, verbose = false;
    std::string only;
};

// run one case in a fresh child; returns outcome
inline RunResult run_isolated(const Sub& sb, const Case& c, const std::string& scratch, bool loud = false) {
    Slot* sl = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    sl->state = 0; sl->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        if (!loud) quiet();
        cur_slot() = sl;
        signal(SIGPROF, on_prof);
        arm(sb.cpu_limit);
        Ctx ctx; ctx.scratch = scratch; ctx.replaying = true;
        auto r = run_case(sb, c, ctx);
        strncpy(sl->msg, r.msg.c_str(), sizeof(sl->msg) - 1);
        sl->state = r.o == PASS ? 1 : (r.o == DISCARD ? 4 : 2);
        _exit(0);
    }
    ll t0 = now_ms();
    int st = 0;
    RunResult res { PASS, "" };
    while (true) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (now_ms() - t0 > 60000 && cpu_of(pid) < 3.0) {
            kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0);
            sl->state = 3; strcpy(sl->msg, "deadlock: no progress");
            break;
        }
        usleep(now_ms() - t0 < 50 ? 200 : 5000);
    }
    if (sl->state == 1) res = { PASS, "" };
    else if (sl->state == 4) res = { DISCARD, "" };
    else if (sl->state == 2 || sl->state == 3) res = { FAILED, sl->msg };
    else {
        std::ostringstream o;
        if (WIFSIGNALED(st)) {
            if (WTERMSIG(st) == SIGKILL) { res = { DISCARD, "killed" }; munmap(sl, sizeof(Slot)); return res; }
            o << "crash: signal " << WTERMSIG(st);
        } else { o << "crash: process exited with status " << WEXITSTATUS(st); }
        res = { FAILED, o.str() };
    }
    munmap(sl, sizeof(Slot));
    return res;
}

// ---------------------------------------------------------------- shrinking
inline bool still_fails(const Sub& sb, const Case& c, const std::string& scratch, int tries, std::string* msg) {
    for (int i = 0; i < tries; ++i) {
        auto r = run_isolated(sb, c, scratch);
        if (r.o == FAILED) { *msg = r.msg; return true; }
        if (r.o == DISCARD) return false;
    }
    return false;
}

template <class Vec, class Try>
inline bool ddmin(Vec v, Try attempt) {
    // removes chunks as long as attempt(candidate) keeps failing; attempt updates state itself
    bool any = false;
    size_t chunk = std::max<size_t>(1, v.size() / 2);
    while (true) {
        bool removed = false;
        for (size_t i = 0; i < v.size(); ) {
            Vec c;
            for (size_t j = 0; j < v.size(); ++j) if (j < i || j >= i + chunk) c.push_back(v[j]);
            if (c.size() < v.size() && attempt(c)) { v = c; removed = any = true; } else { i += chunk; }
        }
        if (chunk == 1 && !removed) break;
        if (!removed || chunk > v.size()) chunk = std::max<size_t>(1, chunk / 2);
        if (v.empty()) break;
    }
    return any;
}

inline Case drop_vertex(const Case& c, uint32_t x) {
    Case d = c;
    d.e.clear();
    for (auto& a : c.e) {
        if (a.u == x || a.v == x) continue;
        E b = a; if (b.u > x) --b.u; if (b.v > x) --b.v;
        d.e.push_back(b);
    }
    d.n = c.n - 1;
    if (c.lab.size() == c.n) d.lab.erase(d.lab.begin() + x);
    return d;
}

inline Case shrink(const Sub& sb, Case c, const std::string& scratch, std::string* msg, double budget_s, int* steps) {
    ll end = now_ms() + static_cast<ll>(budget_s * 1000);
    int tries = sb.concurrent ? 12 : 1;
    auto ok = [&](const Case& d) {
        if (now_ms() > end) return false;
        ++*steps;
        return still_fails(sb, d, scratch, tries, msg);
    };
    bool progress = true;
    while (progress && now_ms() < end) {
        progress = false;
        if (!c.ops.empty())
            progress |= ddmin(c.ops, [&](const std::vector<std::vector<ll> >& o) { Case d = c; d.ops = o; if (ok(d)) { c = d; return true; } return false; });
        if (c.n > 1 && c.P("noshrink_n") == 0) {
            // big blocks of vertices first, then singles
            for (uint32_t blk = c.n / 2; blk >= 1; blk /= 2) {
                for (uint32_t x = 0; x + blk <= c.n && c.n > 1; ) {
                    Case d = c;
                    for (uint32_t k = 0; k < blk; ++k) d = drop_vertex(d, x);
                    if (d.n >= 1 && ok(d)) { c = d; progress = true; } else { x += blk; }
                    if (now_ms() > end) break;
                }
                if (now_ms() > end) break;
            }
        }
        if (!c.e.empty())
            progress |= ddmin(c.e, [&](const std::vector<E>& o) { Case d = c; d.e = o; if (ok(d)) { c = d; return true; } return false; });
        // weights: all to one, then individually
        {
            Case d = c; bool diff = false;
            for (auto& x : d.e) if (x.w > 1) { x.w = 1; diff = true; }
            if (diff && ok(d)) { c = d; progress = true; }
            for (size_t i = 0; i < c.e.size() && now_ms() < end; ++i) {
                for (ull cand : { 1ull, (ull)c.e[i].w / 2, (ull)c.e[i].w - 1 }) {
                    if (cand >= 1 && cand < c.e[i].w) { d = c; d.e[i].w = cand; if (ok(d)) { c = d; progress = true; break; } }
                }
            }
        }
        for (auto& kv : std::map<std::string, ll>(c.p)) {
            for (ll cand : { 0ll, 1ll, kv.second / 2, kv.second - 1 }) {
                ll cur = c.p[kv.first];
                if (cand >= 0 && cand < cur) { Case d = c; d.p[kv.first] = cand; if (ok(d)) { c = d; progress = true; break; } }
            }
        }
        for (size_t i = 0; i < c.lab.size() && now_ms() < end; ++i)
            for (ll cand : { -1ll, 0ll }) if (c.lab[i] > cand) { Case d = c; d.lab[i] = cand; if (ok(d)) { c = d; progress = true; break; } }
        for (size_t i = 0; i < c.ops.size() && now_ms() < end; ++i)
            for (size_t j = 1; j < c.ops[i].size(); ++j)
                for (ll cand : { 0ll, 1ll, c.ops[i][j] / 2 }) if (c.ops[i][j] > cand) { Case d = c; d.ops[i][j] = cand; if (ok(d)) { c = d; progress = true; break; } }
        for (auto& kv : std::map<std::string, std::string>(c.s)) {
            if (kv.first.compare(0, 4, "text") != 0 || kv.second.empty()) continue;
            // by lines, then by characters
            std::vector<std::string> lines; std::string cur;
            for (char ch : kv.second) { cur += ch; if (ch == '\n') { lines.push_back(cur); cur.clear(); } }
            if (!cur.empty()) lines.push_back(cur);
            auto join = [](const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += x; return r; };
            progress |= ddmin(lines, [&](const std::vector<std::string>& o) { Case d = c; d.s[kv.first] = join(o); if (ok(d)) { c = d; return true; } return false; });
            std::vector<char> chars(c.s[kv.first].begin(), c.s[kv.first].end());
            if (chars.size() < 400)
                progress |= ddmin(chars, [&](const std::vector<char>& o) { Case d = c; d.s[kv.first] = std::string(o.begin(), o.end()); if (ok(d)) { c = d; return true; } return false; });
        }
    }
    return c;
}

// ---------------------------------------------------------------- main loop
inline std::string jesc(const std::string& t) {
    std::string o; char b[8];
    for (unsigned char c : t) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline Case generate(const Sub& sb, ull seed, ll idx) {
    Rng r(mix64(seed) ^ hash_str(sb.prop + "/" + sb.name) ^ mix64(static_cast<uint64_t>(idx) * 7919 + 13));
    Case c; c.sub = sb.name;
    sb.gen(r, c);
    return c;
}

// one case in a child of this process, which itself never ran a case; labels come back through a file
inline RunResult run_fresh(const Sub& sb, const Case& c, Ctx& ctx, Slot* sl) {
    std::string f = ctx.scratch + "/fresh.out";
    unlink(f.c_str());
    pid_t pid = fork();
    if (pid < 0) return { DISCARD, "" };
    if (pid == 0) {
        arm(sb.cpu_limit);
        auto r = run_case(sb, c, ctx);
        strncpy(sl->msg, r.msg.c_str(), sizeof(sl->msg) - 1);
        std::ofstream o(f, std::ios::binary);
        o << static_cast<int>(r.o) << " " << ctx.nontrivial << " " << ctx.known << "\n";
        for (auto& l : ctx.labels) o << l << "\n";
        o.close();
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if (WIFSIGNALED(st)) return { FAILED, "crash: signal " + std::to_string(WTERMSIG(st)) };
    std::ifstream i(f, std::ios::binary);
    int o = -1;
    if (!(i >> o >> ctx.nontrivial >> ctx.known)) return { FAILED, sl->state == 3 ? std::string(sl->msg) : "crash: process exited with status " + std::to_string(WEXITSTATUS(st)) };
    std::string l;
    std::getline(i, l);
    while (std::getline(i, l)) ctx.labels.push_back(l);
    return { static_cast<Outcome>(o), o == FAILED ? std::string(sl->msg) : "" };
}

struct Stats {
    ll evals = 0, discards = 0, nontriv = 0, known = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, ll> labels;
    std::vector<std::string> samples;
};

inline void dump_stats(const std::string& file, const std::vector<Stats>& st) {
    std::ofstream f(file, std::ios::binary);
    for (size_t i = 0; i < st.size(); ++i) {
        f << "S " << i << " " << st[i].evals << " " << st[i].discards << " " << st[i].nontriv << " " << st[i].known << "\n";
        for (auto& [k, v] : st[i].labels) f << "L " << i << " " << v << " " << Case::esc(k) << "\n";
        for (auto h : st[i].distinct) f << "H " << i << " " << h << "\n";
        for (auto& s : st[i].samples) f << "X " << i << " " << Case::esc(s) << "\n";
    }
}
inline void load_stats(const std::string& file, std::vector<Stats>& st) {
    std::ifstream f(file, std::ios::binary);
    std::string t; size_t i;
    while (f >> t >> i) {
        if (i >= st.size()) break;
        if (t == "S") { ll a, b, c, d; f >> a >> b >> c >> d; st[i].evals += a; st[i].discards += b; st[i].nontriv += c; st[i].known += d; }
        else if (t == "L") { ll v; std::string k; f >> v >> k; st[i].labels[Case::unesc(k)] += v; }
        else if (t == "H") { uint64_t h; f >> h; st[i].distinct.insert(h); }
        else if (t == "X") { std::string s; f >> s; if (st[i].samples.size() < 4) st[i].samples.push_back(Case::unesc(s)); }
    }
}

inline int pbt_main(int argc, char** argv) {
    if (!getenv("OMP_WAIT_POLICY")) {   // libgomp reads it at load time
        setenv("OMP_WAIT_POLICY", "passive", 1);
        execv("/proc/self/exe", argv);
    }
    Options o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") o.prop = nx();
        else if (a == "--tier") o.tier = nx();
        else if (a == "--seed") o.seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--workers") o.workers = atoi(nx().c_str());
        else if (a == "--time") o.time_cap = atof(nx().c_str());
        else if (a == "--scale") o.scale = atof(nx().c_str());
        else if (a == "--out") o.outfile = nx();
        else if (a == "--replaydir") o.replaydir = nx();
        else if (a == "--replay") o.replay = nx();
        else if (a == "--scratch") o.scratch = nx();
        else if (a == "--only") o.only = nx();
        else if (a == "--list") o.list = true;
        else if (a == "-v") o.verbose = true;
    }
    if (o.list) { for (auto& s : subs()) printf("%s %s %lld %lld\n", s.prop.c_str(), s.name.c_str(), s.quick, s.thorough); return 0; }
    std::string scratch = o.scratch + "/pbt." + std::to_string(getpid());
    mkdir(scratch.c_str(), 0755);

    if (!o.replay.empty()) {
        std::ifstream f(o.replay);
        Case c = Case::parse(f);
        for (auto& s : subs()) if (s.name == c.sub) {
            int tries = s.concurrent ? 200 : 1;
            std::string msg;
            int rc = 0;
            RunResult last { PASS, "" };
            for (int i = 0; i < tries; ++i) {
                last = run_isolated(s, c, scratch, o.verbose);
                if (last.o == FAILED) { printf("FAIL %s\n", last.msg.c_str()); rc = 1; break; }
            }
            if (!rc) printf(last.o == DISCARD ? "DISCARD\n" : "PASS\n");
            rmtree(scratch);
            return rc;
        }
        printf("unknown subcheck %s\n", c.sub.c_str());
        rmtree(scratch);
        return 2;
    }

    std::vector<const Sub*> sel;
    for (auto& s : subs()) if ((o.prop.empty() || s.prop == o.prop) && (o.only.empty() || s.name == o.only)) sel.push_back(&s);
    std::stable_sort(sel.begin(), sel.end(), [](const Sub* a, const Sub* b) { return a->fresh > b->fresh; });
    std::vector<ll> cnt(sel.size());
    for (size_t i = 0; i < sel.size(); ++i) {
        ll base = o.tier == "thorough" ? sel[i]->thorough : sel[i]->quick;
        cnt[i] = base <= 0 ? 0 : std::max<ll>(1, static_cast<ll>(base * o.scale));
    }
    ll t0 = now_ms();
    int W = o.workers;
    Slot* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pids(W, -1);
    std::vector<int> incarn(W, 0);
    std::vector<std::pair<ll, ll> > resume(W, { 0, 0 });
    struct Fail { ll sub, idx; std::string msg; };
    std::vector<Fail> fails;
    std::vector<std::string> statfiles;
    bool capped = false;

    auto spawn = [&](int k) {
        slots[k].state = 0; slots[k].msg[0] = 0; slots[k].sub = -1; slots[k].start_ms = now_ms();
        std::string sf = scratch + "/st." + std::to_string(k) + "." + std::to_string(incarn[k]++);
        statfiles.push_back(sf);
        pid_t pid = fork();
        if (pid) { pids[k] = pid; return; }
        setpgid(0, 0);
        quiet();
        std::string wscr = scratch + "/w" + std::to_string(k);
        mkdir(wscr.c_str(), 0755);
        cur_slot() = &slots[k];
        signal(SIGPROF, on_prof);
        std::vector<Stats> st(sel.size());
        ll last_dump = now_ms();
        for (size_t si = resume[k].first; si < sel.size(); ++si) {
            int wn = sel[si]->quick_workers ? std::min(W, sel[si]->quick_workers) : W;
            ll i0 = si == static_cast<size_t>(resume[k].first) ? resume[k].second : 0;
            if (k >= wn) continue;
            for (ll i = i0 + ((k - i0) % wn + wn) % wn; i < cnt[si]; i += wn) {
                if ((now_ms() - t0) / 1000.0 > o.time_cap) { dump_stats(sf, st); slots[k].state = 5; _exit(0); }
                Case c = generate(*sel[si], o.seed, i);
                slots[k].sub = si; slots[k].idx = i; slots[k].start_ms = now_ms();
                arm(sel[si]->cpu_limit);
                Ctx ctx; ctx.scratch = wscr;
                if (now_ms() - last_dump > 3000) { dump_stats(sf, st); last_dump = now_ms(); }
                auto r = sel[si]->fresh ? run_fresh(*sel[si], c, ctx, &slots[k]) : run_case(*sel[si], c, ctx);
                if (r.o == FAILED) {
                    arm(0);
                    ++st[si].evals;
                    dump_stats(sf, st);
                    strncpy(slots[k].msg, r.msg.c_str(), sizeof(slots[k].msg) - 1);
                    slots[k].state = 2;
                    _exit(0);
                }
                slots[k].done = slots[k].done + 1;
                auto& S = st[si];
                ++S.evals;
                if (r.o == DISCARD) { ++S.discards; continue; }
                if (ctx.known) ++S.known;
                for (auto& l : ctx.labels) ++S.labels[l];
                if (ctx.nontrivial) {
                    ++S.nontriv;
                    if (S.distinct.insert(c.hash()).second && S.samples.size() < 2 && (i * 2654435761u >> 3) % 3 == 0) {
                        auto t = c.str(); if (t.size() < 1500) S.samples.push_back(t);
                    }
                }
            }
        }
        arm(0);
        dump_stats(sf, st);
        slots[k].state = 1;
        _exit(0);
    };
    fflush(stdout);
    for (int k = 0; k < W; ++k) spawn(k);
    int active = W;
    std::vector<char> alive(W, 1);
    std::string inconclusive;
    int ninc = 0;
    std::string viol_file, viol_msg; Case viol_case; int shrink_steps = 0;
    bool violation = false;
    std::vector<std::string> notes;
    while (active > 0 && !violation) {
        bool any = false;
        for (int k = 0; k < W; ++k) {
            if (!alive[k]) continue;
            int st = 0;
            pid_t w = waitpid(pids[k], &st, WNOHANG);
            if (w == 0) {
                if (slots[k].sub >= 0 && now_ms() - slots[k].start_ms > 90000) {
                    // wall clock only decides together with an idle CPU: deadlock
                    double c1 = cpu_of(pids[k]); usleep(2000000); double c2 = cpu_of(pids[k]);
                    if (c2 - c1 < 0.05 && now_ms() - slots[k].start_ms > 90000) {
                        kill(-pids[k], SIGKILL); kill(pids[k], SIGKILL);
                        slots[k].state = 3; strcpy(slots[k].msg, "deadlock: no progress");
                    }
                }
                continue;
            }
            any = true;
            kill(-pids[k], SIGKILL);   // stray threads/children of that worker
            int state = slots[k].state;
            if (state == 1) { alive[k] = 0; --active; continue; }
            if (state == 5) { capped = true; alive[k] = 0; --active; continue; }
            std::string msg = slots[k].msg;
            if (state == 0) {
                std::ostringstream os;
                if (WIFSIGNALED(st)) os << "crash: signal " << WTERMSIG(st);
                else os << "crash: process exited with status " << WEXITSTATUS(st);
                msg = os.str();
            }
            ll si = slots[k].sub, idx = slots[k].idx;
            if (si < 0) { notes.push_back("worker died before a case: " + msg); alive[k] = 0; --active; continue; }
            // confirm in fresh processes
            const Sub& sb = *sel[si];
            Case c = generate(sb, o.seed, idx);
            int need = sb.concurrent ? 1 : 3, tries = sb.concurrent ? 60 : 3, hits = 0;
            std::string m2;
            for (int i = 0; i < tries && hits < need; ++i) {
                auto r = run_isolated(sb, c, scratch);
                if (r.o == FAILED) { ++hits; m2 = r.msg; }
                else if (!sb.concurrent) break;
            }
            if (hits >= need) {
                for (int j = 0; j < W; ++j) if (alive[j]) { kill(-pids[j], SIGKILL); kill(pids[j], SIGKILL); waitpid(pids[j], nullptr, 0); }
                violation = true; viol_msg = m2;
                std::string om = m2;
                fprintf(stderr, "[%s/%s #%lld] %s\n", sb.prop.c_str(), sb.name.c_str(), idx, m2.c_str());
                Case sc = shrink(sb, c, scratch, &m2, 60, &shrink_steps);
                // the shrunk case must fail again, otherwise keep the original
                std::string m3;
                bool okshr = still_fails(sb, sc, scratch, sb.concurrent ? 100 : 1, &m3);
                if (okshr) viol_msg = m3; else sc = c;
                viol_case = sc;
                viol_file = o.replaydir + "/" + sb.prop + "-" + sb.name + "-" + std::to_string(o.seed) + "-" + std::to_string(idx) + ".case";
                std::ofstream f(viol_file);
                std::string ml = viol_msg; std::replace(ml.begin(), ml.end(), '\n', ' ');
                f << "# property " << sb.prop << " subcheck " << sb.name << " seed " << o.seed << " index " << idx << "\n# " << ml << "\n" << sc.str();
                break;
            }
            ++ninc;
            notes.push_back("not reproduced in a fresh process: " + sb.name + " #" + std::to_string(idx) + ": " + msg);
            fprintf(stderr, "[%s/%s #%lld] NOT REPRODUCED: %s\n", sb.prop.c_str(), sb.name.c_str(), idx, msg.c_str());
            if (ninc > 40) { alive[k] = 0; --active; continue; }
            resume[k] = { si, idx + 1 };
            spawn(k);
        }
        if (!any) usleep(5000);
    }
    std::vector<Stats> tot(sel.size());
    for (auto& f : statfiles) load_stats(f, tot);
    double wall = (now_ms() - t0) / 1000.0;
    if (!o.outfile.empty()) {
        std::ofstream f(o.outfile);
        f << "{\"violation\": " << (violation ? "true" : "false") << ", \"wall_s\": " << wall << ", \"capped\": " << (capped ? "true" : "false")
          << ", \"inconclusive\": " << ninc << ", \"replay\": \"" << jesc(viol_file) << "\", \"message\": \"" << jesc(viol_msg) << "\", \"shrink_steps\": " << shrink_steps;
        f << ", \"notes\": [";
        for (size_t i = 0; i < notes.size() && i < 20; ++i) f << (i ? ", " : "") << "\"" << jesc(notes[i]) << "\"";
        f << "], \"subs\": [";
        for (size_t i = 0; i < sel.size(); ++i) {
            auto& S = tot[i];
            f << (i ? ", " : "") << "{\"name\": \"" << sel[i]->name << "\", \"planned\": " << cnt[i] << ", \"evaluations\": " << S.evals << ", \"discarded\": " << S.discards
              << ", \"nontrivial\": " << S.nontriv << ", \"known\": " << S.known << ", \"distinct_nontrivial\": " << S.distinct.size() << ", \"labels\": {";
            bool first = true;
            for (auto& [k, v] : S.labels) { f << (first ? "" : ", ") << "\"" << jesc(k) << "\": " << v; first = false; }
            f << "}, \"samples\": [";
            for (size_t j = 0; j < S.samples.size(); ++j) f << (j ? ", " : "") << "\"" << jesc(S.samples[j]) << "\"";
            f << "]}";
        }
        f << "]}\n";
    }
    if (o.verbose) {
        for (size_t i = 0; i < sel.size(); ++i) {
            auto& S = tot[i];
            printf("%-28s evals %lld/%lld discard %lld nontriv %lld distinct %zu known %lld\n", sel[i]->name.c_str(), S.evals, cnt[i], S.discards, S.nontriv, S.distinct.size(), S.known);
            for (auto& [k, v] : S.labels) printf("      %-40s %lld\n", k.c_str(), v);
        }
        printf("wall %.1f%s\n", wall, capped ? " (time cap)" : "");
    }
    rmtree(scratch);
    if (violation) {
        printf("VIOLATION %s\n%s\n", viol_file.c_str(), viol_msg.c_str());
        if (o.verbose) { auto t = viol_case.str(); if (t.size() > 1500) t = t.substr(0, 1500) + "..."; printf("%s\n", t.c_str()); }
        return 1;
    }
    return 0;
}
}  // namespace pbt

#include <dirent.h>
namespace pbt {
inline void rmtree(const std::string& d) {
    DIR* dp = opendir(d.c_str());
    if (!dp) return;
    while (auto* x = readdir(dp)) {
        std::string nm = x->d_name;
        if (nm == "." || nm == "..") continue;
        std::string p = d + "/" + nm;
        struct stat sb;
        if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) rmtree(p); else unlink(p.c_str());
    }
    closedir(dp);
    rmdir(d.c_str());
}
}
