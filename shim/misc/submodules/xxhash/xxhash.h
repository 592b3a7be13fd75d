#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
// stand-in for XXH64 (only its being a hash matters to the callers)
static inline uint64_t XXH64(const void* p, size_t len, uint64_t seed) {
    uint64_t h = seed ^ 0x9E3779B97F4A7C15ull;
    const unsigned char* c = static_cast<const unsigned char*>(p);
    while (len) {
        uint64_t k = 0; size_t l = len < 8 ? len : 8;
        memcpy(&k, c, l); c += l; len -= l;
        h ^= k; h ^= h >> 30; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 27; h *= 0x94d049bb133111ebull; h ^= h >> 31;
    }
    return h;
}
