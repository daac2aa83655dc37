// BLinkTree: concurrent histories, both latches.
#include "b_link_tree.h"
#include "vconc.h"
using namespace conc;
template <class L> struct Ad {
  static constexpr bool kDelByValue = false;
  using T = BLinkTree<uint64_t, uint64_t, L>; const Pool& P; std::unique_ptr<T> t;
  Ad(const Case& c, const Pool& p) : P(p) { static const double th[] = {0.5, 0.6, 0.75, 0.9, 1.0}; t.reset(new T((int)c.c(6, 8), (int)c.c(7, 8), th[c.c(8) % 5], 0.25, th[c.c(9) % 5], 0.25)); }
  void tbegin(int) {} void tend(int) {} void quiesce() {}
  void fill(uint64_t id, uint64_t v) { PBT_CHECK(t->Insert(P.num[id], v), "insert of a new key returned false"); }
  void put(uint64_t, uint64_t, lin::Ev&) {}
  bool ins(uint64_t id, uint64_t v) { return t->Insert(P.num[id], v); }
  bool upd(uint64_t id, uint64_t v) { return t->Update(P.num[id], v); }
  int del(uint64_t, uint64_t) { return -1; }
  bool get(uint64_t id, uint64_t& v) { return t->Search(P.num[id], v); }
  void scan(ScanRes& s) {
    std::vector<std::pair<uint64_t, uint64_t>> r; t->ScanFixed(P.num[s.start], (int)s.limit, r);
    for (auto& x : r) { auto it = P.ids.find(keys::be64(x.first)); PBT_CHECK(it != P.ids.end(), "a scan returned key %llu, which was never inserted", (unsigned long long)x.first); s.out.push_back({it->second, x.second}); }
    s.to_end = r.size() < s.limit;
  }
};
static std::vector<uint64_t> extra(Rng& r) { return {r.range(6, 14), r.range(6, 14), r.below(5), r.below(5)}; }
static Caps caps() { Caps c; c.put = false; c.ins = c.upd = c.scan = true; return c; }
PBT_HARNESS(a, {"sched_mutex", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, true, caps(), extra(r)); }, [](const Case& c, Obs& o) { run<Ad<StandardSharedMutex>>(c, o, caps()); }, 4});
PBT_HARNESS(b, {"sched_spin", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, true, caps(), extra(r)); }, [](const Case& c, Obs& o) { run<Ad<RSpinSharedLatch>>(c, o, caps()); }, 4});
PBT_HARNESS(d, {"free_mutex", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, false, caps(), extra(r)); }, [](const Case& c, Obs& o) { run<Ad<StandardSharedMutex>>(c, o, caps()); }, 1, true, 60});
PBT_HARNESS(e, {"free_spin", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, false, caps(), extra(r)); }, [](const Case& c, Obs& o) { run<Ad<RSpinSharedLatch>>(c, o, caps()); }, 1, true, 60});
