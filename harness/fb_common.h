#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstring>
#include <sstream>
#include <tuple>
#include "fbtree.h"
#include "vkeys.h"
#include "vconc.h"
namespace fb {
using conc::Pool; using util::String; using util::EpochGuard;
// a key of type K for every pool id, in the order of the pool's byte strings
template <class K> std::vector<K> keysof(const Pool& P, uint64_t how) {
  std::vector<K> r; std::vector<std::pair<uint64_t, size_t>> o; for (size_t i = 0; i < P.num.size(); ++i) o.push_back({P.num[i], i}); std::sort(o.begin(), o.end()); r.resize(o.size());
  if (sizeof(K) == 8) { for (size_t i = 0; i < r.size(); ++i) r[i] = std::is_signed_v<K> ? (K)(P.num[i] ^ (1ull << 63)) : (K)P.num[i]; return r; }
  static const uint32_t st[] = {1, 3, 251, 256, 65536, 1000003}; uint32_t step = st[how % 6]; if ((uint64_t)step * o.size() > 0xffffffffull) step = 251; uint32_t base = how & 8 ? 0xffffffffu - step * (uint32_t)o.size() : how & 16 ? 0x80000000u - step * (uint32_t)o.size() / 2 : 0;
  for (size_t i = 0; i < o.size(); ++i) { uint32_t v = base + step * (uint32_t)i; r[o[i].second] = (K)(std::is_signed_v<K> ? v ^ 0x80000000u : v); }
  return r;
}
// the interface over integer keys and over string keys (T is String or std::string), by pool id
template <class K> struct Api {
  using T = FeatureBTree::FBTree<K, uint64_t>; using KV = typename T::KVPair; T t; std::vector<K> k;
  Api(const Pool& P, uint64_t how) : k(keysof<K>(P, how)) {}
  KV* upsert(uint64_t id, uint64_t v) { const uint64_t c = v; return v & 1 ? t.upsert(k[id], c) : t.upsert(k[id], uint64_t(v)); }
  KV* update(uint64_t id, uint64_t v) { const uint64_t c = v; return v & 1 ? t.update(k[id], c) : t.update(k[id], uint64_t(v)); }
  KV* remove(uint64_t id) { return t.remove(k[id]); } KV* lookup(uint64_t id) { return t.lookup(k[id]); }
  typename T::iterator lower(uint64_t id) { return t.lower_bound(k[id]); } typename T::iterator upper(uint64_t id) { return t.upper_bound(k[id]); }
  bool is(KV* kv, uint64_t id) { return kv->key == k[id]; }
};
template <class TK> struct SApi {
  using T = FeatureBTree::FBTree<TK, uint64_t>; using KV = typename T::KVPair; T t; const std::vector<std::string>& k; uint64_t how;
  SApi(const Pool& P, uint64_t h) : k(P.key), how(h) {}
  char* p(uint64_t id) { return (char*)k[id].data(); } int n(uint64_t id) { return (int)k[id].size(); }
  KV* upsert(uint64_t id, uint64_t v) { const uint64_t c = v; return v & 1 ? (v & 2 ? t.upsert(k[id], c) : t.upsert(k[id], uint64_t(v))) : v & 2 ? t.upsert(p(id), n(id), c) : t.upsert(p(id), n(id), uint64_t(v)); }
  KV* update(uint64_t id, uint64_t v) { const uint64_t c = v; return v & 1 ? (v & 2 ? t.update(k[id], c) : t.update(k[id], uint64_t(v))) : v & 2 ? t.update(p(id), n(id), c) : t.update(p(id), n(id), uint64_t(v)); }
  KV* remove(uint64_t id) { return id & 1 ? t.remove(k[id]) : t.remove(p(id), n(id)); } KV* lookup(uint64_t id) { return id & 1 ? t.lookup(k[id]) : t.lookup(p(id), n(id)); }
  typename T::iterator lower(uint64_t id) { return id & 1 ? t.lower_bound(k[id]) : t.lower_bound(p(id), n(id)); } typename T::iterator upper(uint64_t id) { return id & 1 ? t.upper_bound(k[id]) : t.upper_bound(p(id), n(id)); }
  bool is(KV* kv, uint64_t id) { return (size_t)kv->key.len == k[id].size() && !memcmp(kv->key.str, k[id].data(), k[id].size()); }
};
}  // namespace fb
