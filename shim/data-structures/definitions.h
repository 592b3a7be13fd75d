// Stand-in for growt's uaGrow: a linearizable concurrent hash map with the
// handle interface VieCut uses (insert_or_update returning (iterator, inserted),
// find). Sharded, one mutex per shard.
#pragma once
#include <cstdint>
#include <memory>
#include <mutex>
#include <unordered_map>
#include <utility>
namespace growt {
template <class Hash> class uaGrow {
    struct Shard { std::mutex m; std::unordered_map<uint64_t, size_t> t; };
    static constexpr size_t S = 64;
    std::unique_ptr<Shard[]> sh_;
    Shard& shard(uint64_t k) { return sh_[Hash()(k) % S]; }
 public:
    explicit uaGrow(size_t) : sh_(new Shard[S]) { }
    class handle {
        uaGrow* g_;
     public:
        class iterator {
            std::pair<uint64_t, size_t> v_; bool ok_;
         public:
            iterator(std::pair<uint64_t, size_t> v, bool ok) : v_(v), ok_(ok) { }
            const std::pair<uint64_t, size_t>& operator * () const { return v_; }
            const std::pair<uint64_t, size_t>* operator -> () const { return &v_; }
            bool operator == (const iterator& o) const { return ok_ == o.ok_ && (!ok_ || v_.first == o.v_.first); }
            bool operator != (const iterator& o) const { return !(*this == o); }
        };
        explicit handle(uaGrow* g) : g_(g) { }
        template <class F, class... A>
        std::pair<iterator, bool> insert_or_update(uint64_t k, size_t v, F f, A&&... a) {
            auto& s = g_->shard(k);
            std::lock_guard<std::mutex> l(s.m);
            auto it = s.t.find(k);
            if (it == s.t.end()) { s.t.emplace(k, v); return { iterator({ k, v }, true), true }; }
            f(it->second, a...);
            return { iterator({ k, it->second }, true), false };
        }
        iterator find(uint64_t k) {
            auto& s = g_->shard(k);
            std::lock_guard<std::mutex> l(s.m);
            auto it = s.t.find(k);
            if (it == s.t.end()) return iterator({ 0, 0 }, false);
            return iterator({ k, it->second }, true);
        }
        iterator end() { return iterator({ 0, 0 }, false); }
    };
    handle get_handle() { return handle(this); }
};
}  // namespace growt
