// repo.h - glue between Cases and VieCut's own types (public interface only)
#pragma once
#include <cmath>
#include <cstring>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include <omp.h>
#include "gen.h"
#include "oracle.h"
#include "pbt.h"
#include "common/configuration.h"
#include "common/definitions.h"
#include "data_structure/graph_access.h"
#include "data_structure/mutable_graph.h"
#include "tlx/logger.hpp"
#include "tools/random_functions.h"

namespace rp {
using oracle::u64;
using pbt::Case;
using pbt::Ctx;
using pbt::E;
using pbt::Rng;
using pbt::ll;

inline void reset_config() {
    auto c = configuration::getConfig();
    c->graph_filename.clear(); c->partition_file.clear(); c->output_path.clear();
    c->seed = 0; c->verbose = false;
    c->edge_selection = "heavy_vertex"; c->queue_type = "bound_sum"; c->term_strings.clear();
    c->top_k = 0; c->random_k = 0; c->bfs_size = 0; c->threads = 1; c->preset_percentage = 0; c->print_cc = 0;
    c->num_terminals = 0; c->disable_cpu_affinity = true; c->high_distance_factor = 0.9; c->high_distance_flows = 5;
    c->distant_terminals = 0; c->first_branch_path.clear(); c->write_solution = false; c->neighborhood_degrees = 50;
    c->random_flows = 5; c->removeTerminalsBeforeBranch = 0.1; c->contractionDepthAroundTerminal = 1;
    c->maximumBranchingFactor = 5; c->multibranch = true; c->inexact = false; c->runLocalSearch = true;
    c->timeoutSeconds = 600; c->ilpTime = 60.0; c->orign = 0; c->origm = 0;
    c->save_cut = false; c->algorithm.clear(); c->sampling_type = "geometric"; c->pq = "default"; c->num_iterations = 1;
    c->disable_limiting = false; c->contraction_factor = 0.0; c->find_most_balanced_cut = false;
    c->find_lowest_conductance = false; c->blacklist = true; c->set_node_in_cut = false; c->cactus_filename.clear();
    c->depthOfPartialRelabeling = 1; c->optimal = 0; c->use_ilp = false;
    random_functions::setSeed(0);
    omp_set_num_threads(1);
}
struct Init { Init() { pbt::reset_hook() = reset_config; } };
static Init init_;

// static graph with arcs sorted by insertion order of the case edges
inline graphAccessPtr make_csr(uint32_t n, const std::vector<E>& e) {
    std::vector<std::vector<std::pair<uint32_t, u64> > > adj(n);
    for (auto& x : e) { if (x.u == x.v) continue; adj[x.u].push_back({ x.v, x.w }); adj[x.v].push_back({ x.u, x.w }); }
    auto G = std::make_shared<graph_access>();
    G->start_construction(n, 2 * e.size());
    for (uint32_t i = 0; i < n; ++i) {
        NodeID v = G->new_node();
        for (auto& [t, w] : adj[i]) { EdgeID id = G->new_edge(v, t); G->setEdgeWeight(id, w); }
    }
    G->finish_construction();
    G->computeDegrees();
    return G;
}
inline mutableGraphPtr make_mut(uint32_t n, const std::vector<E>& e) {
    auto G = std::make_shared<mutable_graph>();
    G->start_construction(n);
    for (auto& x : e) { if (x.u == x.v) continue; G->new_edge_order(x.u, x.v, x.w); }
    G->finish_construction();
    return G;
}
template <class P> P make(uint32_t n, const std::vector<E>& e);
template <> inline graphAccessPtr make<graphAccessPtr>(uint32_t n, const std::vector<E>& e) { return make_csr(n, e); }
template <> inline mutableGraphPtr make<mutableGraphPtr>(uint32_t n, const std::vector<E>& e) { return make_mut(n, e); }

// all arcs (u,v,w) of a graph, sorted
template <class P> std::vector<std::tuple<uint32_t, uint32_t, u64> > arcs(P G) {
    std::vector<std::tuple<uint32_t, uint32_t, u64> > r;
    for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) r.emplace_back(v, G->getEdgeTarget(v, e), G->getEdgeWeight(v, e));
    std::sort(r.begin(), r.end());
    return r;
}
inline std::vector<std::tuple<uint32_t, uint32_t, u64> > arcs_of(const std::vector<E>& e) {
    std::vector<std::tuple<uint32_t, uint32_t, u64> > r;
    for (auto& x : e) if (x.u != x.v) { r.emplace_back(x.u, x.v, x.w); r.emplace_back(x.v, x.u, x.w); }
    std::sort(r.begin(), r.end());
    return r;
}
// undirected edges (u<v) with parallel edges merged
template <class P> std::vector<E> merged_edges(P G) {
    std::vector<E> r;
    for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) { uint32_t t = G->getEdgeTarget(v, e); if (v < t) r.push_back({ static_cast<uint32_t>(v), t, G->getEdgeWeight(v, e) }); }
    return oracle::simplify(r);
}
inline bool same_edges(const std::vector<E>& a, const std::vector<E>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].u != b[i].u || a[i].v != b[i].v || a[i].w != b[i].w) return false;
    return true;
}
inline std::string show(const std::vector<E>& a) {
    std::ostringstream o;
    for (auto& x : a) o << "(" << x.u << "," << x.v << ":" << x.w << ")";
    return o.str();
}

// structural invariants of a mutable graph
inline void check_mutable(mutableGraphPtr G, Ctx& x, const std::string& what, bool positions = true) {
    u64 cnt = 0;
    for (NodeID v : G->nodes()) {
        u64 deg = 0;
        for (EdgeID e : G->edges_of(v)) {
            ++cnt;
            NodeID t = G->getEdgeTarget(v, e);
            x.check(t < G->n(), what + ": edge target out of range");
            x.check(t != v, what + ": self loop");
            EdgeID r = G->getReverseEdge(v, e);
            x.check(r < G->get_first_invalid_edge(t), what + ": reverse edge out of range");
            x.check(G->getEdgeTarget(t, r) == v, what + ": reverse edge does not point back");
            x.check(G->getReverseEdge(t, r) == e, what + ": reverse of reverse edge is another edge");
            x.check(G->getEdgeWeight(t, r) == G->getEdgeWeight(v, e), what + ": edge weight differs between directions");
            deg += G->getEdgeWeight(v, e);
        }
        x.eq(G->getWeightedNodeDegree(v), deg, what + ": weighted degree of vertex " + std::to_string(v));
    }
    x.eq(static_cast<u64>(G->number_of_edges()), cnt, what + ": number of edges");
    if (positions) {
        std::vector<int> seen(G->getOriginalNodes(), 0);
        for (NodeID v : G->nodes()) for (auto o : G->containedVertices(v)) {
            x.check(o < seen.size(), what + ": contained vertex out of range");
            x.check(!seen[o]++, what + ": original vertex contained twice");
            x.eq(G->getCurrentPosition(o), v, what + ": current position of original vertex " + std::to_string(o));
        }
    }
}

// min cuts of a cactus as vertex sets not containing vertex 0, with structural
// checks. H: cactus
typedef oracle::Mask Mask;
// lab (optional): group of every vertex; vertices of one group must stay together
// and the cuts are sets of groups (n = number of groups)
inline std::set<Mask> cactus_cuts(mutableGraphPtr H, uint32_t n, u64 lambda, Ctx& x, const std::string& what, const std::vector<ll>* lab = nullptr) {
    uint32_t k = H->n(), nv = lab ? lab->size() : n;
    std::vector<Mask> mask(k);
    std::vector<char> all(nv, 0);
    std::vector<uint32_t> pos(n, ~0u);
    for (uint32_t v = 0; v < k; ++v) for (auto o : H->containedVertices(v)) {
        x.check(o < nv, what + ": cactus contains unknown vertex " + std::to_string(o));
        x.check(!all[o], what + ": vertex " + std::to_string(o) + " in two cactus vertices");
        uint32_t item = lab ? (*lab)[o] : o;
        all[o] = 1; mask[v].set(item);
        x.check(pos[item] == ~0u || pos[item] == v, what + ": vertices that no minimum cut separates are apart");
        pos[item] = v;
        x.eq(H->getCurrentPosition(o), v, what + ": cactus position of vertex " + std::to_string(o));
    }
    for (auto q : all) x.check(q, what + ": not every vertex is in the cactus");
    std::vector<E> e;
    for (NodeID v : H->nodes()) for (EdgeID i : H->edges_of(v)) {
        uint32_t t = H->getEdgeTarget(v, i);
        x.check(t < k && t != v, what + ": bad cactus edge");
        if (v < t) e.push_back({ static_cast<uint32_t>(v), t, H->getEdgeWeight(v, i) });
    }
    x.check(oracle::connected(k, e), what + ": cactus is not connected");
    std::set<Mask> cuts;
    auto sides = [&](size_t a, size_t b) {
        oracle::DSU d(k);
        uint32_t c = k;
        for (size_t i = 0; i < e.size(); ++i) if (i != a && i != b) c -= d.u(e[i].u, e[i].v);
        std::pair<uint32_t, Mask> r { c, Mask() };
        if (c == 2) for (uint32_t v = 0; v < k; ++v) if (d.f(v) != d.f(0)) r.second |= mask[v];
        return r;
    };
    auto dump = [&]() {
        std::ostringstream o;
        for (uint32_t v = 0; v < k; ++v) { o << " " << v << ":{"; for (auto u : H->containedVertices(v)) o << u << " "; o << "}"; }
        for (auto& q : e) o << " " << q.u << "-" << q.v << ":" << q.w;
        return o.str();
    };
    auto put = [&](Mask m) {
        if (m.has(0)) m = m.complement(n);
        if (m.empty()) x.fail(what + ": cactus cut with an empty side;" + dump());
        cuts.insert(m);
    };
    std::vector<char> bridge(e.size(), 0);
    for (size_t i = 0; i < e.size(); ++i) {
        auto [c, m] = sides(i, ~size_t(0));
        if (c == 2) {
            bridge[i] = 1;
            x.eq(static_cast<u64>(e[i].w), lambda, what + ": weight of a cactus bridge");
            put(m);
        } else {
            x.eq(static_cast<u64>(2 * e[i].w), lambda, what + ": doubled weight of a cactus cycle edge");
        }
    }
    // cactus property: cycle edges partition into edge-disjoint cycles
    std::vector<char> done(e.size(), 0);
    for (size_t i = 0; i < e.size(); ++i) {
        if (bridge[i] || done[i]) continue;
        std::vector<size_t> cyc { i };
        for (size_t j = 0; j < e.size(); ++j) {
            if (j == i || bridge[j]) continue;
            if (sides(i, j).first == 2) cyc.push_back(j);
        }
        // the edges of one cycle: every vertex touched exactly twice
        std::map<uint32_t, int> deg;
        for (auto j : cyc) { ++deg[e[j].u]; ++deg[e[j].v]; done[j] = 1; }
        for (auto& [v, d] : deg) { (void)v; x.check(d == 2, what + ": not a cactus (edge on two cycles)"); }
        for (size_t a = 0; a < cyc.size(); ++a) for (size_t b = a + 1; b < cyc.size(); ++b) {
            auto [c, m] = sides(cyc[a], cyc[b]);
            x.check(c == 2, what + ": not a cactus");
            put(m);
        }
    }
    return cuts;
}
inline std::string show(const Mask& s) {
    std::ostringstream o; o << "{";
    for (uint32_t i = 0; i < Mask::MAX; ++i) if (s.has(i)) o << " " << i;
    o << " }";
    return o.str();
}
inline void compare_cuts(const std::set<Mask>& got, const std::set<Mask>& want, Ctx& x, const std::string& what) {
    for (auto& m : want) if (!got.count(m)) x.fail(what + ": minimum cut " + show(m) + " missing, " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " represented");
    for (auto& m : got) if (!want.count(m)) x.fail(what + ": " + show(m) + " is not a minimum cut");
}
}  // namespace rp
#define PBT_MAIN int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
