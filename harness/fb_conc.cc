// FBTree: concurrent histories over integer and string keys.
#include "fb_common.h"
using namespace conc;
template <class A> struct Ad {
  static constexpr bool kDelByValue = false;
  const Pool& P; A a;
  Ad(const Case& c, const Pool& p) : P(p), a(p, c.c(6)) { util::hash_bits = c.c(7) % 9; }
  void tbegin(int) {} void tend(int) {} void quiesce() {}
#define G util::EpochGuard g(a.t.get_epoch())
  void fill(uint64_t id, uint64_t v) { G; PBT_CHECK(!a.upsert(id, v), "upsert of a new key hands back a pair"); }
  // the pair an operation hands back is the one it replaced
  void old(uint64_t id, typename A::KV* o, lin::Ev& e, util::EpochGuard& g) { e.ok = o; e.oldknown = e.retknown = true; if (o) { PBT_CHECK(a.is(o, id), "a modification of key %llu hands back a pair of another key", (unsigned long long)id); e.ret = o->value; g.retire(o); } }
  void put(uint64_t id, uint64_t v, lin::Ev& e) { G; old(id, a.upsert(id, v), e, g); }
  bool ins(uint64_t, uint64_t) { return false; }
  bool upd(uint64_t id, uint64_t v) { G; auto* o = a.update(id, v); if (o) { PBT_CHECK(a.is(o, id), "update of key %llu hands back a pair of another key", (unsigned long long)id); g.retire(o); } return o; }
  int del(uint64_t id, uint64_t) { G; auto* o = a.remove(id); if (o) { PBT_CHECK(a.is(o, id), "remove of key %llu hands back a pair of another key", (unsigned long long)id); g.retire(o); } return o ? 1 : 0; }
  bool get(uint64_t id, uint64_t& v) { G; auto* o = a.lookup(id); if (o) { PBT_CHECK(a.is(o, id), "lookup of key %llu gives a pair of another key", (unsigned long long)id); v = o->value; } return o; }
  void scan(ScanRes& s) {
    G; auto it = a.lower(s.start);
    for (; !it.end() && s.out.size() < s.limit; it.advance()) { uint64_t v = it->value, id = (v >> 24) - 1; PBT_CHECK(id < P.key.size(), "a scan met the value %llu, which was never stored", (unsigned long long)v); PBT_CHECK(a.is(&*it, id), "a scan met the value of key %llu under another key", (unsigned long long)id); s.out.push_back({id, v}); }
    s.to_end = it.end();
  }
};
static Caps caps(bool str) { Caps c; c.upd = c.del = c.scan = true; c.strings = str; c.nul = str; c.maxkey = 300; c.growth = 15; return c; }
// waves: a full pool is removed and stored again key by key, by several threads in their own order, while others look on
static Case waves(Rng& r, int s, bool sched, bool str) {
  uint64_t pool = r.range(30, 200 + 8 * s); Case c; c.cfg = {sched ? 1u : 0u, r.next() & 0xffffffff, r.below(32), r.below(8), r.below(1000), pool, r.below(64), r.chance(1, 2) ? 8 : r.below(9)}; int nt = (int)r.range(2, 4); c.thr.resize(1 + nt);
  uint64_t skip = r.chance(1, 2) ? 0 : r.range(2, 9); for (uint64_t i = 0; i < pool; ++i) if (!skip || i % skip) c.thr[0].push_back({O_PUT, i, 0, 0});
  uint64_t lo = r.below(pool), len = r.chance(1, 2) ? pool : r.range(1, pool);
  for (int t = 1; t <= nt; ++t) { unsigned role = t == 1 ? 0 : r.below(4), dir = r.below(4); size_t n = role == 3 ? r.range(5, 40) : role == 2 ? r.range(20, 200) : len;
    for (size_t i = 0; i < n; ++i) { uint64_t a = (lo + (dir == 0 ? i : dir == 1 ? len - 1 - i % len : dir == 2 ? i * 7 % len : r.below(len))) % pool; unsigned other = r.below(20);
      int k = role == 0 ? O_DEL : role == 1 ? O_PUT : role == 2 ? (r.chance(1, 2) ? O_GET : O_UPD) : O_SCAN; if (!other) k = (int)r.weighted({1, 0, 1, 1, 1, 1}); c.thr[t].push_back({(uint32_t)k, a, r.below(pool), r.range(1, 60)}); }
    if (role < 2 && r.chance(1, 2)) for (size_t i = 0; i < n; ++i) c.thr[t].push_back({(uint32_t)(role ? O_DEL : O_PUT), c.thr[t][i].a, 0, 0}); }
  return c;
}
static Case mk(Rng& r, int s, bool sched, bool str) { if (r.chance(1, 5)) return waves(r, s, sched, str); return gen(r, s, sched, caps(str), {r.below(64), r.chance(1, 2) ? 8 : r.below(9)}); }
#ifdef STR
PBT_HARNESS(a, {"sched_str", CONC_RULE, kOpNames, [](Rng& r, int s) { return mk(r, s, true, true); }, [](const Case& c, Obs& o) { run<Ad<fb::SApi<util::String>>>(c, o, caps(true)); }, 8});
PBT_HARNESS(d, {"free_str", CONC_RULE, kOpNames, [](Rng& r, int s) { return mk(r, s, false, true); }, [](const Case& c, Obs& o) { run<Ad<fb::SApi<util::String>>>(c, o, caps(true)); }, 1, true, 60});
#else
PBT_HARNESS(a, {"sched_u64", CONC_RULE, kOpNames, [](Rng& r, int s) { return mk(r, s, true, false); }, [](const Case& c, Obs& o) { run<Ad<fb::Api<uint64_t>>>(c, o, caps(false)); }, 6});
PBT_HARNESS(b, {"sched_i32", CONC_RULE, kOpNames, [](Rng& r, int s) { return mk(r, s, true, false); }, [](const Case& c, Obs& o) { run<Ad<fb::Api<int32_t>>>(c, o, caps(false)); }, 2});
PBT_HARNESS(d, {"free_u64", CONC_RULE, kOpNames, [](Rng& r, int s) { return mk(r, s, false, false); }, [](const Case& c, Obs& o) { run<Ad<fb::Api<uint64_t>>>(c, o, caps(false)); }, 1, true, 60});
#endif
