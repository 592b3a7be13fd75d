// Minimal stand-in for tlx::CmdlineParser: short options -x VALUE / -xVALUE /
// grouped flags, long options --name VALUE / --name=VALUE, positional params.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
namespace tlx {
class CmdlineParser {
    struct Opt { char c; std::string l; bool arg; std::function<bool(const std::string&)> set; };
    std::vector<Opt> opts_;
    struct Par { std::string n; std::function<bool(const std::string&)> set; };
    std::vector<Par> params_;
    static bool num(const std::string& s) { return !s.empty(); }
    void add(char c, const std::string& l, bool arg, std::function<bool(const std::string&)> f) {
        opts_.push_back({ c, l, arg, f });
    }
    template <class T> static std::function<bool(const std::string&)> u(T& d) {
        return [&d](const std::string& s) {
            char* e; auto v = strtoull(s.c_str(), &e, 10);
            if (s.empty() || *e) return false; d = v; return true; };
    }
    template <class T> static std::function<bool(const std::string&)> i(T& d) {
        return [&d](const std::string& s) {
            char* e; auto v = strtoll(s.c_str(), &e, 10);
            if (s.empty() || *e) return false; d = v; return true; };
    }
 public:
    template <class... A> void add_bool(char c, const std::string& l, bool& d, A&&...) { add(c, l, false, [&d](const std::string&) { d = true; return true; }); }
    template <class... A> void add_flag(char c, const std::string& l, bool& d, A&&... a) { add_bool(c, l, d, a...); }
    template <class T, class... A> void add_size_t(char c, const std::string& l, T& d, A&&...) { add(c, l, true, u(d)); }
    template <class T, class... A> void add_unsigned(char c, const std::string& l, T& d, A&&...) { add(c, l, true, u(d)); }
    template <class T, class... A> void add_int(char c, const std::string& l, T& d, A&&...) { add(c, l, true, i(d)); }
    template <class... A> void add_double(char c, const std::string& l, double& d, A&&...) {
        add(c, l, true, [&d](const std::string& s) { char* e; d = strtod(s.c_str(), &e); return !s.empty() && !*e; }); }
    template <class... A> void add_string(char c, const std::string& l, std::string& d, A&&...) {
        add(c, l, true, [&d](const std::string& s) { d = s; return true; }); }
    template <class... A> void add_stringlist(char c, const std::string& l, std::vector<std::string>& d, A&&...) {
        add(c, l, true, [&d](const std::string& s) { d.push_back(s); return true; }); }
    template <class... A> void add_param_string(const std::string& n, std::string& d, A&&...) {
        params_.push_back({ n, [&d](const std::string& s) { d = s; return true; } }); }
    template <class T, class... A> void add_param_size_t(const std::string& n, T& d, A&&...) { params_.push_back({ n, u(d) }); }
    template <class... A> void add_param_stringlist(const std::string& n, std::vector<std::string>& d, A&&...) {
        params_.push_back({ n, [&d](const std::string& s) { d.push_back(s); return true; } }); }
    void set_description(const std::string&) { }
    void set_author(const std::string&) { }
    void print_result() { }
    void print_usage() { }
    bool process(int argc, const char* const* argv) {
        size_t np = 0;
        for (int k = 1; k < argc; ++k) {
            std::string a = argv[k];
            if (a.size() > 2 && a[0] == '-' && a[1] == '-') {
                std::string nm = a.substr(2), val; bool has = false;
                auto eq = nm.find('=');
                if (eq != std::string::npos) { val = nm.substr(eq + 1); nm = nm.substr(0, eq); has = true; }
                bool ok = false;
                for (auto& o : opts_) if (o.l == nm) {
                    if (o.arg && !has) { if (++k >= argc) return bad(a); val = argv[k]; }
                    if (!o.set(val)) return bad(a);
                    ok = true; break;
                }
                if (!ok) return bad(a);
            } else if (a.size() >= 2 && a[0] == '-') {
                for (size_t j = 1; j < a.size(); ++j) {
                    bool ok = false, consumed = false;
                    for (auto& o : opts_) if (o.c == a[j]) {
                        ok = true;
                        if (o.arg) {
                            std::string val = a.substr(j + 1);
                            if (val.empty()) { if (++k >= argc) return bad(a); val = argv[k]; }
                            if (!o.set(val)) return bad(a);
                            consumed = true;
                        } else { o.set(""); }
                        break;
                    }
                    if (!ok) return bad(a);
                    if (consumed) break;
                }
            } else {
                if (np >= params_.size() || !params_[np].set(a)) return bad(a);
                ++np;
            }
        }
        if (np < params_.size()) return bad("missing parameter " + params_[np].n);
        return true;
    }
    bool process(int argc, const char* const* argv, std::ostream&) { return process(argc, argv); }
 private:
    bool bad(const std::string& w) { std::cerr << "bad argument: " << w << "\n"; return false; }
};
}  // namespace tlx
