// BTreeOLC (both leaf layouts): concurrent histories.
#ifdef CHILD
#include "BTreeOLC_child_layout.h"
#else
#include "BTreeOLC.h"
#endif
#include "vconc.h"
using namespace conc;
template <unsigned PAD> struct Fat { uint64_t k; char pad[PAD]; bool operator<(const Fat& o) const { return k < o.k; } bool operator>(const Fat& o) const { return k > o.k; } bool operator==(const Fat& o) const { return k == o.k; } };
template <class K> K mk(uint64_t v) { K k; memset((void*)&k, 0x5a, sizeof k); k.k = v; return k; }
template <> uint64_t mk<uint64_t>(uint64_t v) { return v; }
template <class K> struct Ad {
  static constexpr bool kDelByValue = false;
  using T = btreeolc::BTree<K, uint64_t>; const Pool& P; T* t = new T();
  Ad(const Case&, const Pool& p) : P(p) {}
  void tbegin(int) {} void tend(int) {} void quiesce() {}
  void fill(uint64_t id, uint64_t v) { t->insert(mk<K>(P.num[id]), v); }
  void put(uint64_t id, uint64_t v, lin::Ev&) { fill(id, v); }
  bool ins(uint64_t, uint64_t) { return false; } bool upd(uint64_t, uint64_t) { return false; } int del(uint64_t, uint64_t) { return -1; }
  bool get(uint64_t id, uint64_t& v) { uint64_t r = 0; bool f = t->lookup(mk<K>(P.num[id]), r); v = f ? r : 0; return f; }
  void scan(ScanRes& s) {
    std::vector<uint64_t> r(s.limit + 1, 0); uint64_t c = t->scan(mk<K>(P.num[s.start]), (int)s.limit, r.data());
    PBT_CHECK(c <= s.limit, "scan returned %llu values for a limit of %zu", (unsigned long long)c, s.limit);
    for (uint64_t i = 0; i < c; ++i) { uint64_t id = (r[i] >> 24) - 1; PBT_CHECK(id < P.key.size(), "scan returned %llu, which was never stored", (unsigned long long)r[i]); s.out.push_back({id, r[i]}); }
    s.to_end = false; s.first = true;   // a scan stops at a node boundary: it vouches for the span it returned, and is empty only if no key follows
  }
};
static Caps caps() { Caps c; c.scan = true; return c; }
PBT_HARNESS(a, {"sched_wide", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, true, caps()); }, [](const Case& c, Obs& o) { run<Ad<Fat<500>>>(c, o, caps()); }, 6});
PBT_HARNESS(b, {"sched_u64", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, true, caps()); }, [](const Case& c, Obs& o) { run<Ad<uint64_t>>(c, o, caps()); }, 2});
PBT_HARNESS(d, {"free_wide", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, false, caps()); }, [](const Case& c, Obs& o) { run<Ad<Fat<500>>>(c, o, caps()); }, 1, true, 60});
