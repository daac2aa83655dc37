#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <immintrin.h>
namespace util {
template <class T> inline T byte_swap(T v) { T r; for (size_t i = 0; i < sizeof(T); ++i) ((char*)&r)[i] = ((char*)&v)[sizeof(T) - 1 - i]; return r; }
inline int popcount(uint64_t m) { return __builtin_popcountll(m); }
inline int index_least1(uint64_t m) { return m ? __builtin_ctzll(m) : -1; }
inline int index_least0(uint64_t m) { return index_least1(~m); }
inline int countl_zero(uint64_t m) { return m ? __builtin_clzll(m) : 64; }
inline void prefetcht0(const void* p) { __builtin_prefetch(p, 0, 3); }
inline int common_prefix(const char* a, int n, const char* b, int m) { int i = 0; while (i < n && i < m && a[i] == b[i]) ++i; return i; }
inline int compare(const char* a, int n, const char* b, int m) { int c = memcmp(a, b, std::min(n, m)); return c ? c : n - m; }
inline bool aligned(const void* p, size_t n) { return (uintptr_t)p % n == 0; }
template <class T> inline T roundup(T v, T n) { return (v + n - 1) / n * n; }
inline bool branch_likely(bool b) { return __builtin_expect(b, true); }
inline bool branch_unlikely(bool b) { return __builtin_expect(b, false); }
}  // namespace util
