// OptiQL/latches: one lock family per build.  FAM: 0 MCS, 1 OMCS, 2 OMCS with opportunistic reads (queue-node
// ids), 3 MCSRW, 4 OMCS with queue-node ids, 5/6 centralised reader-writer lock (writer/reader preference), 7 STDRW
#include <cstdlib>
#include <memory>
#include "vlock.h"
#if FAM == 0
#define LOG(x) std::cerr
#include "latches/MCS.h"
#elif FAM == 1
#define OMCS_LOCK
#include "latches/OMCS.h"
#elif FAM == 2 || FAM == 4
#define OMCS_LOCK
#define OMCS_OFFSET
#if FAM == 2
#define OMCS_OP_READ
#endif
#include "latches/OMCSOffset.h"
#include "latches/OMCS.h"
#elif FAM == 3
#include <iostream>
#define LOG(x) std::cerr
#define MCSRW_LOCK
#define MCSRW_LOCK_ONLY
#include "latches/MCSRW.h"
#elif FAM == 5 || FAM == 6
#include <iostream>
#define LOG(x) std::cerr
#if FAM == 5
#define RWLOCK_WRITER_PREFERENCE
#else
#define RWLOCK_READER_PREFERENCE
#endif
#define MCSRW_LOCK_CENTRALIZED
#include "latches/MCSRW.h"
#else
#include <cstdint>
#include "latches/STDRW.h"
#endif
using namespace lk;
#if FAM == 0
struct Ad {
  using Q = mcs::MCSQNode; struct Tok { std::unique_ptr<Q> q{new Q}; }; mcs::MCSLock l[3];
  Ad(const Case&, int) {}
  static const std::vector<Kind>& kinds() { static const std::vector<Kind> k = {{"lock", EXCL, false}, {"try_lock", EXCL, true}}; return k; }
  bool acquire(int k, const Op&, int i, Tok& t) { if (k) return l[i].try_lock(t.q.get()); l[i].lock(t.q.get()); return true; }
  void release(int i, int, Tok& t) { l[i].unlock(t.q.get()); }
  template <class F> bool read(int, int, F) { return false; }
  bool idle(int i) { Tok a, b; if (!l[i].try_lock(a.q.get())) return false; bool no = !l[i].try_lock(b.q.get()); l[i].unlock(a.q.get()); return no && l[i].try_lock(b.q.get()); }
#elif FAM == 1 || FAM == 2 || FAM == 4
// a lock is used either with queue nodes or without, never both (as the trees do)
template <bool QUEUE> struct AdT {
  using Q = omcs_impl::OMCSQNode; struct Tok { Q* q = nullptr; uint64_t v = 0; int how = 0;
#if FAM == 1
    ~Tok() { delete q; }
#endif
  }; OMCSLock l[3];
#if FAM == 1
  AdT(const Case&, int) {}
  static Q* node() { return new Q; }
  void tbegin(int) {} void tend(int) {}
#else
  static inline thread_local unsigned nxt = 0;
  AdT(const Case&, int) { if (!offset::base_qnode) offset::init_qnodes(); offset::next_node = 0; }
  static Q* node() { return offset::get_qnode(nxt++ % 4); }
  void tbegin(int) { offset::reset_tls_qnodes(); } void tend(int) {}
#endif
  static const std::vector<Kind>& kinds() {
    static const std::vector<Kind> q = {{"begin_read..validate", OPT, false}, {"readLockOrRestart..readUnlockOrRestart", OPT, false}, {"writeLock(queue)", EXCL, false}, {"lock with callback", EXCL, false},
#if FAM == 2
      {"writeLockBegin, writeLockTurnOffOpRead", EXCL, false}
#else
      {"upgrade(queue)", EXCL, true}
#endif
    }, w = {{"begin_read..validate", OPT, false}, {"readLockOrRestart..readUnlockOrRestart", OPT, false}, {"writeLock()", EXCL, false}, {"writeLock(), unlock(version)", EXCL, false}, {"upgrade()", EXCL, true}};
    return QUEUE ? q : w; }
  bool acquire(int k, const Op&, int i, Tok& t) {
    auto& L = l[i]; t.how = 0;
    switch (k + (QUEUE ? 0 : 10)) {
      case 2: t.q = node(); L.writeLock(t.q); return true;
      case 3: { t.q = node(); bool called = false; L.lock.lock(t.q, [&] { PBT_CHECK(!called, "the callback ran twice"); called = true; }); PBT_CHECK(called, "the callback did not run"); return true; }
#if FAM == 2
      case 4: t.q = node(); if (L.writeLockBegin(t.q)) L.writeLockTurnOffOpRead(); return true;
#else
      case 4: { t.q = node(); bool rs = false; uint64_t v = L.readLockOrRestart(rs); if (rs) return false; PBT_CHECK(v >> 63 == 0, "a version with the locked bit"); L.upgradeToWriteLockOrRestart(v, t.q, rs); return !rs; }
#endif
      case 12: t.how = 1; t.v = L.writeLock(); return true;
      case 13: t.how = 2; t.v = L.writeLock(); return true;
      default: { t.how = 1; bool rs = false; uint64_t v = L.readLockOrRestart(rs); if (rs) return false; L.upgradeToWriteLockOrRestart(v, rs); return !rs; }
    }
  }
  void release(int i, int, Tok& t) { auto& L = l[i]; PBT_CHECK(L.isLocked(), "isLocked is false during an exclusive hold"); if (t.how == 0) L.writeUnlock(t.q); else if (t.how == 1) L.writeUnlock(); else L.writeUnlock(t.v); }
  template <class F> bool read(int k, int i, F f) {
    auto& L = l[i];
    if (k == 0) { uint64_t v = L.readLock(); f(); return L.lock.validate_read(v); }
    bool rs = false; uint64_t v; do v = L.readLockOrRestart(rs); while (rs); f(); L.checkOrRestart(v, rs); bool rs2 = rs; if (!rs) L.readUnlockOrRestart(v, rs2); return !rs && !rs2;
  }
  bool idle(int i) { auto& L = l[i]; if (L.isLocked()) return false; uint64_t v = L.readLock(), w = v; bool rs = true; L.upgradeToWriteLockOrRestart(v, rs); if (rs || !L.isLocked()) return false; L.writeUnlock(); if (L.isLocked() || L.lock.validate_read(w)) return false; bool r2 = false; L.upgradeToWriteLockOrRestart(w, r2); return r2; }
  void downgrade(int, Tok&) {}
};
#define TWO
using Ad = AdT<true>;
#else
struct Ad {
#if FAM == 3 || FAM == 5 || FAM == 6
  using Q = mcsrw::MCSRWQNode; mcsrw::MCSRWLock l[3];
#else
  using Q = uint64_t; std_lock::STDRWLock l[3];
#endif
  struct Tok { std::unique_ptr<Q> q{new Q()}; };
  Ad(const Case&, int) {}
  static const std::vector<Kind>& kinds() { static const std::vector<Kind> k = {{"read_lock", SHARED, false}, {"lock", EXCL, false}}; return k; }
  bool acquire(int k, const Op&, int i, Tok& t) { if (k) l[i].lock(t.q.get()); else l[i].read_lock(t.q.get()); return true; }
  void release(int i, int m, Tok& t) { if (m == EXCL) l[i].unlock(t.q.get()); else l[i].read_unlock(t.q.get()); }
  template <class F> bool read(int, int, F) { return false; }
  bool idle(int i) { Tok a, b; Op op{}; acquire(1, op, i, a); release(i, EXCL, a); acquire(0, op, i, a); acquire(0, op, i, b); release(i, SHARED, b); release(i, SHARED, a); acquire(1, op, i, a); release(i, EXCL, a); return true; }
#endif
#ifndef TWO
  void tbegin(int) {} void tend(int) {}
  void downgrade(int, Tok&) {}
};
#endif
#define S1(x) #x
#define S2(x) S1(x)
namespace {
PBT_HARNESS(a, {"sched_" S2(FNAME), kRule, names(Ad::kinds()), [](Rng& r, int s) { return gen(r, s, true, Ad::kinds().size()); }, [](const Case& c, Obs& o) { run<Ad>(c, o); }, 39, false, 30});
PBT_HARNESS(b, {"free_" S2(FNAME), kRule, names(Ad::kinds()), [](Rng& r, int s) { return gen(r, s, false, Ad::kinds().size()); }, [](const Case& c, Obs& o) { run<Ad>(c, o); }, 1, true, 30});
#if FAM == 1 || FAM == 4
PBT_HARNESS(d, {"schedw_" S2(FNAME), kRule, names(AdT<false>::kinds()), [](Rng& r, int s) { return gen(r, s, true, 5); }, [](const Case& c, Obs& o) { run<AdT<false>>(c, o); }, 3, false, 30});
PBT_HARNESS(e, {"freew_" S2(FNAME), kRule, names(AdT<false>::kinds()), [](Rng& r, int s) { return gen(r, s, false, 5); }, [](const Case& c, Obs& o) { run<AdT<false>>(c, o); }, 1, true, 30});
#endif
}
