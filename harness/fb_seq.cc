// FBTree: sequential histories over integer and string keys.
#include "fb_common.h"
#include "vmap.h"
using namespace seqmap;
static const bool kEmpty = keys::allow_empty = true;
struct Quiet { std::stringstream s; std::streambuf* b = std::cout.rdbuf(s.rdbuf()); ~Quiet() { std::cout.rdbuf(b); } };
template <class A> struct Ad : Base {
  const Pool& P; A a; uint64_t ops = 0; std::map<uint64_t, uint64_t> val; std::unique_ptr<util::EpochGuard> g; uint64_t span;
  Ad(const Case& c, const Pool& p) : P(p), a(p, c.c(6)) { util::hash_bits = c.c(7) % 9; span = 1 + c.c(8) % 5; }
  // one guard covers one to five operations
  void step() { if (!g || ops++ % span == 0) { g.reset(); g.reset(new util::EpochGuard(a.t.get_epoch())); } }
  void had(uint64_t id, typename A::KV* kv, const char* what) { if (!kv) return; auto i = val.find(id); PBT_CHECK(i != val.end(), "%s hands back a pair for an absent key", what); PBT_CHECK(a.is(kv, id), "%s hands back a pair of another key", what); PBT_CHECK(kv->value == i->second, "%s hands back the value %llu, not %llu", what, (unsigned long long)kv->value, (unsigned long long)i->second); g->retire(kv); }
  int put(uint64_t id, uint64_t v) { step(); auto* o = a.upsert(id, v); had(id, o, "upsert"); val[id] = v; return o ? 1 : 0; }
  bool upd(uint64_t id, uint64_t v) { step(); auto* o = a.update(id, v); had(id, o, "update"); if (o) val[id] = v; return o; }
  int del(uint64_t id) { step(); auto* o = a.remove(id); had(id, o, "remove"); val.erase(id); return o ? 1 : 0; }
  bool get(uint64_t id, uint64_t& v) { step(); auto* o = a.lookup(id); if (o) { PBT_CHECK(a.is(o, id), "lookup gives a pair of another key"); v = o->value; } return o; }
  static std::string keyof(const util::String& k) { return std::string(k.str, k.len); }
  template <class K> std::string keyof(const K& k) { for (auto i = std::find(a.k.begin(), a.k.end(), k); i != a.k.end();) return P.key[i - a.k.begin()]; return "(a key never stored)"; }
  void scan(uint64_t id, size_t n, std::vector<KV>& out) {
    step(); if (!n) return; auto it = n % 3 ? a.lower(id) : a.upper(id);
    if (n % 3 == 0) if (auto* o = a.lookup(id)) out.push_back({P.key[id], o->value});
    for (; !it.end() && out.size() < n; it.advance()) out.push_back({keyof(it->key), (*it).value});
  }
  void full(std::vector<KV>& out) { step(); auto it = a.t.begin(); for (; !it.end(); it.advance()) { auto j = it; out.push_back({keyof(j->key), j->value}); if (out.size() > P.key.size()) return; } }
  void check(const std::map<std::string, uint64_t>& m) {
    g.reset(); std::string s; { Quiet q; a.t.statistics(); a.t.node_parameter(); s = q.s.str(); } auto at = s.find("kv pair num: "); PBT_CHECK(at != std::string::npos && strtod(s.c_str() + at + 13, nullptr) == (double)m.size(), "the statistics count %s pairs of %zu", at == std::string::npos ? "no" : s.substr(at + 13, 8).c_str(), m.size());
  }
};
static Caps caps(bool str, unsigned pool) { Caps c; c.upd = c.del = true; c.strings = str; c.nul = true; c.maxkey = 700; c.max_pool = pool; c.max_ops = pool > 1000 ? 9000 : 3000;
#ifdef SCANS
  c.scan = c.full = true; c.scan_weight = 4;
#endif
  return c; }
#ifndef FB_CFG
#define POOL 5000
#else
#define POOL 1500
#endif
// waves: (nearly) the whole pool is stored in some order, then (nearly) all of it is removed in some order, and again
static Case waves(Rng& r, int s, bool str) {
  Case c; auto cp = caps(str, POOL); uint64_t pool = r.range(20, r.chance(1, 3) ? POOL : 60 + 10 * s); c.cfg = {0, 0, 0, r.below(8), r.below(1000), pool, r.below(64), r.chance(1, 2) ? 8 : r.below(9), r.below(5)}; c.thr.resize(1); auto& v = c.thr[0];
  for (int n = (int)r.range(1, 4); n--;) for (int del = 0; del < 2; ++del) {
    uint64_t at = r.below(pool), gap = r.chance(1, 2) ? 0 : r.range(2, 60), far = r.chance(1, 2) ? pool : r.range(1, pool); unsigned dir = r.below(5), other = r.chance(1, 2) ? 0 : (unsigned)r.range(1, 10);
    for (uint64_t i = 0; i < far; ++i) { uint64_t a = dir == 0 ? i : dir == 1 ? pool - 1 - i : dir == 2 ? (at + i) % pool : dir == 3 ? (i & 1 ? i / 2 : pool - 1 - i / 2) : r.below(pool); if (gap && a % gap == at % gap) continue; v.push_back({(uint32_t)(del ? DEL : PUT), a, 0, 0});
      if (other && r.below(100) < other) v.push_back({r.chance(1, 2) && cp.scan ? SCAN : r.chance(1, 2) ? (uint32_t)(del ? PUT : DEL) : (uint32_t)GET, r.below(pool), r.below(pool), r.range(1, 100)}); }
    v.push_back({(uint32_t)(cp.full && r.chance(1, 2) ? FULL : SWEEP), 0, 0, 0}); }
  v.push_back({SWEEP, 0, 0, 0}); if (cp.full) v.push_back({FULL, 0, 0, 0}); return c;
}
static Case mk(Rng& r, int s, bool str) { if (r.chance(1, 5)) return waves(r, s, str); return gen(r, s, caps(str, r.chance(1, 4) ? POOL : 400), {r.below(64), r.chance(1, 2) ? 8 : r.below(9), r.below(5)}); }
#define GI [](Rng& r, int s) { return mk(r, s, false); }
#define GS [](Rng& r, int s) { return mk(r, s, true); }
#ifdef STR
PBT_HARNESS(a, {"string", SEQ_RULE, kOpNames, GS, [](const Case& c, Obs& o) { run<Ad<fb::SApi<util::String>>>(c, o, caps(true, 0)); }, 3});
PBT_HARNESS(b, {"std_string", SEQ_RULE, kOpNames, GS, [](const Case& c, Obs& o) { run<Ad<fb::SApi<std::string>>>(c, o, caps(true, 0)); }, 1});
#else
PBT_HARNESS(a, {"u64", SEQ_RULE, kOpNames, GI, [](const Case& c, Obs& o) { run<Ad<fb::Api<uint64_t>>>(c, o, caps(false, 0)); }, 2});
PBT_HARNESS(b, {"i64", SEQ_RULE, kOpNames, GI, [](const Case& c, Obs& o) { run<Ad<fb::Api<int64_t>>>(c, o, caps(false, 0)); }, 1});
PBT_HARNESS(d, {"u32", SEQ_RULE, kOpNames, GI, [](const Case& c, Obs& o) { run<Ad<fb::Api<uint32_t>>>(c, o, caps(false, 0)); }, 1});
PBT_HARNESS(e, {"i32", SEQ_RULE, kOpNames, GI, [](const Case& c, Obs& o) { run<Ad<fb::Api<int32_t>>>(c, o, caps(false, 0)); }, 1});
#endif
