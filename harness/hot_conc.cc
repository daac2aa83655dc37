// HOT (ROWEX): concurrent histories.
#include "hot_common.h"
#include "vconc.h"
using namespace conc;
template <class T> struct Ad {
  static constexpr bool kDelByValue = false;
  using R = typename T::Rec; const Pool& P; typename T::Tree t; std::vector<R*> recs[16]; static thread_local int tls;
  Ad(const Case&, const Pool& p) : P(p) {}
  ~Ad() { for (auto& v : recs) for (auto* r : v) free(r); }
  void tbegin(int i) { tls = i; } void tend(int) {} void quiesce() {}
  R* mk(uint64_t id, uint64_t v) { recs[tls].push_back(T::make(P, id, v)); return recs[tls].back(); }
  void fill(uint64_t id, uint64_t v) { PBT_CHECK(t.insert(mk(id, v)), "insert of a new key returned false"); }
  void put(uint64_t id, uint64_t v, lin::Ev& e) { auto r = t.upsert(mk(id, v)); e.oldknown = e.retknown = true; e.ok = r.mIsValid; if (e.ok) { PBT_CHECK(r.mValue->id == id, "upsert of key %llu hands back the record of key %llu", (unsigned long long)id, (unsigned long long)r.mValue->id); e.ret = r.mValue->val; } }
  bool ins(uint64_t id, uint64_t v) { return t.insert(mk(id, v)); }
  bool upd(uint64_t, uint64_t) { return false; }
  int del(uint64_t, uint64_t) { return -1; }
  bool get(uint64_t id, uint64_t& v) { auto r = t.lookup(T::key(P, id)); if (r.mIsValid) { PBT_CHECK(r.mValue->id == id, "lookup of key %llu gives the record of key %llu", (unsigned long long)id, (unsigned long long)r.mValue->id); v = r.mValue->val; } return r.mIsValid; }
  void scan(ScanRes& s) {
    auto end = t.end(); auto it = t.lower_bound(T::key(P, s.start));
    for (; it != end && s.out.size() < s.limit; ++it) s.out.push_back({(*it)->id, (*it)->val});
    s.to_end = it == end;
  }
};
template <class T> thread_local int Ad<T>::tls = 0;
static Caps caps(bool str) { Caps c; c.ins = c.scan = true; c.strings = str; c.maxkey = 254; c.growth = 15; return c; }
PBT_HARNESS(a, {"sched_int", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, true, caps(false)); }, [](const Case& c, Obs& o) { run<Ad<IntT>>(c, o, caps(false)); }, 4});
PBT_HARNESS(b, {"sched_str", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, true, caps(true)); }, [](const Case& c, Obs& o) { run<Ad<StrT>>(c, o, caps(true)); }, 4});
PBT_HARNESS(d, {"free_int", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, false, caps(false)); }, [](const Case& c, Obs& o) { run<Ad<IntT>>(c, o, caps(false)); }, 1, true, 60});
PBT_HARNESS(e, {"free_str", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, false, caps(true)); }, [](const Case& c, Obs& o) { run<Ad<StrT>>(c, o, caps(true)); }, 1, true, 60});
