#pragma once
#include <cstdint>
#include <cstddef>
namespace util {
extern unsigned hash_bits;   // fewer bits give more collisions among fingerprints
inline uint64_t hash_mix(uint64_t x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; return (x >> 20) & ((1u << hash_bits) - 1); }
template <class K> inline char hash(K k) { return (char)hash_mix((uint64_t)k); }
inline char hash(const char* s, int n) { uint64_t h = 7; for (int i = 0; i < n; ++i) h = (h ^ (unsigned char)s[i]) * 0x100000001b3ull; return (char)hash_mix(h); }
}  // namespace util
