// FAST: a read-only search tree over sorted keys; a lookup gives the values of the last key not above the query and
// of the next one.  Reference: binary search.
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <memory>
#include <vector>
#include "FAST/fast64.h"
#include "pbt.h"
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng; using std::vector;
extern "C" { void slow64(const Fast64*, uint64_t, uint64_t*, uint64_t*); void slow32(const Fast32*, uint32_t, uint32_t*, uint32_t*); uint64_t depth64(const Fast64*); uint64_t depth32(const Fast32*); }
namespace {
const vector<std::string> kOps = {"key", "near", "random", "end"};
struct T64 { using K = uint64_t; Fast64* t; T64(const vector<K>& k, const vector<K>& v) : t(create_fast64(k.data(), k.size(), v.data(), v.size())) {} ~T64() { destroy_fast64(t); } void look(K k, K* a, K* b) { lookup_fast64(t, k, a, b); } void slow(K k, K* a, K* b) { slow64(t, k, a, b); } size_t size() { return size_fast64(t); } size_t depth() { return depth64(t); } };
struct T32 { using K = uint32_t; Fast32* t; T32(const vector<K>& k, const vector<K>& v) : t(create_fast32(k.data(), k.size(), v.data(), v.size())) {} ~T32() { destroy_fast32(t); } void look(K k, K* a, K* b) { lookup_fast32(t, k, a, b); } void slow(K k, K* a, K* b) { slow32(t, k, a, b); } size_t size() { return size_fast32(t); } size_t depth() { return depth32(t); } };
// cfg: number of keys, seed, how keys spread, first key
Case gen(Rng& r, int size) {
  Case c; static const uint64_t at[] = {1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 4095, 4096, 4097, 4104, 32768};
  uint64_t n = r.chance(1, 2) ? at[r.below(size < 50 ? 16 : 25)] + (r.chance(1, 3) ? r.below(3) : 0) : r.below(r.chance(1, 20) ? 20000 : 20 + size * 6) + 1;
  c.cfg = {n, r.next(), r.below(6), r.below(5)}; c.thr.resize(1); size_t q = 10 + r.below(40 + size); for (size_t i = 0; i < q; ++i) c.thr[0].push_back({(uint32_t)r.weighted({5, 5, 2, 1}), r.next(), r.below(5), 0}); return c;
}
template <class T> void run(const Case& c, Obs& o) {
  using K = typename T::K; if (c.thr.empty()) return; const K M = (K)~(K)0; size_t n = c.c(0) % 70000; if (!n) n = 1; Rng r(c.c(1)); vector<K> k, v; 
  auto gap = [&]() -> K { switch (c.c(2) % 6) { case 0: return 1; case 1: return (K)(1 + r.below(3)); case 2: return (K)(1 + r.below(1000)); case 3: return (K)(r.chance(1, 10) ? 1 + r.below(M / n / 2 + 1) : 1); default: return (K)(1 + r.below(M / n - 1 + 1)); } };
  K x = 0; switch (c.c(3) % 5) { case 0: x = 0; break; case 1: x = 1; break; case 2: x = (K)r.below(M / 4); break; case 3: x = (K)(M >> 1); break; default: x = (K)r.below(100); }
  for (size_t i = 0; i < n; ++i) { k.push_back(x); v.push_back((K)(Rng::mix(x) >> 7)); K g = gap(); if (g > M - x) { if (x == M) break; g = 1; } x = (K)(x + g); }
  if (c.c(3) % 5 == 3 && c.c(1) % 3 == 0 && k.back() != M) { k.push_back(M); v.push_back((K)1234567); o.mark("largest_key"); }
  n = k.size(); std::unique_ptr<T> t(new T(k, v)); vector<K> kk = k, vv = v; 
  auto ask = [&](K q) {
    size_t i = (size_t)(std::upper_bound(kk.begin(), kk.end(), q) - kk.begin()); K wa = i ? vv[i - 1] : 0, wb = i < n ? vv[i] : M, a = 77, b = 78; t->look(q, &a, &b);
    PBT_CHECK(a == wa && b == wb, "lookup of %llu among %zu keys gives %llu, %llu, not %llu, %llu (position %zu)", (unsigned long long)q, n, (unsigned long long)a, (unsigned long long)b, (unsigned long long)wa, (unsigned long long)wb, i);
    a = b = 79; t->slow(q, &a, &b); PBT_CHECK(a == wa && b == wb, "slow_lookup of %llu among %zu keys gives %llu, %llu, not %llu, %llu", (unsigned long long)q, n, (unsigned long long)a, (unsigned long long)b, (unsigned long long)wa, (unsigned long long)wb);
  };
  std::fill(k.begin(), k.end(), 0); std::fill(v.begin(), v.end(), 0); k.shrink_to_fit();  // the tree has copies of its own
  if (n <= 600) { for (K q : kk) { ask(q); if (q) ask((K)(q - 1)); if (q < M) ask((K)(q + 1)); } }
  else for (size_t i = 0; i < n; i += 1 + n / 600) { ask(kk[i]); if (kk[i] < M) ask((K)(kk[i] + 1)); }
  for (const Op& op : c.thr[0]) { K q; switch (op.k % 4) { case 0: q = kk[op.a % n]; break; case 1: q = (K)(kk[op.a % n] + (K)op.b - 2); break; case 2: q = (K)op.a; break; default: q = op.b % 2 ? M : 0; } ask(q); }
  ask(0); ask(M); ask(kk[0]); ask(kk[n - 1]); size_t per = 64 / sizeof(K), pages = (n + per - 1) / per, d = 1, sz = pages * 128; do { pages = (pages + per - 1) / per; ++d; sz += pages * 128; } while (pages > 1); PBT_CHECK(t->depth() == d, "depth %zu, not %zu, with %zu keys", t->depth(), d, n); PBT_CHECK(t->size() == sz, "size %zu, not %zu, with %zu keys", t->size(), sz, n);
  o.nontrivial(n > per && c.thr[0].size() > 0); if (d >= 4) o.mark("four_layers"); if (n % per == 0) o.mark("full_pages");
}
PBT_HARNESS(f1, {"fast64", "trees of up to 70000 ascending 64-bit keys (counts around page and layer sizes), every key and its neighbours looked up where there are at most 600; non-trivial: more than one page", kOps, gen, run<T64>, 1});
PBT_HARNESS(f2, {"fast32", "the same with 32-bit keys", kOps, gen, run<T32>, 1});
}  // namespace
