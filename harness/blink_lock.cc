// BLinkTree/latch.h: both latches.
#include "latch.h"
#include "vlock.h"
using namespace lk;
template <class L> struct Ad {
  struct Tok {}; alignas(64) L l[3];
  Ad(const Case&, int) {}
  static const std::vector<Kind>& kinds() { static const std::vector<Kind> k = {{"latch_shared", SHARED, false}, {"latch_exclusive", EXCL, false}}; return k; }
  void tbegin(int) {} void tend(int) {}
  bool acquire(int k, const Op&, int i, Tok&) { if (k) l[i].latch_exclusive(); else l[i].latch_shared(); return true; }
  void downgrade(int, Tok&) {}
  void release(int i, int m, Tok&) { if (m == EXCL) l[i].unlatch_exclusive(); else l[i].unlatch_shared(); }
  template <class F> bool read(int, int, F) { return false; }
  bool idle(int i) { l[i].latch_exclusive(); l[i].unlatch_exclusive(); l[i].latch_shared(); l[i].latch_shared(); l[i].unlatch_shared(); l[i].unlatch_shared(); return true; }
};
struct SpinCfg : Ad<RSpinSharedLatch> { SpinCfg(const Case& c, int n) : Ad<RSpinSharedLatch>(c, n) { for (auto& x : l) { x.~RSpinSharedLatch(); new (&x) RSpinSharedLatch(c.c(4) & 1, (int)c.c(5), (int)c.c(6)); } } };
static std::vector<uint64_t> ex(Rng& r) { return {r.below(2), r.below(6), r.below(6)}; }
#define H(id, name, A, ctl) PBT_HARNESS(id, {name, kRule, names(A::kinds()), [](Rng& r, int s) { return gen(r, s, ctl, A::kinds().size(), ex(r)); }, [](const Case& c, Obs& o) { run<A>(c, o); }, ctl ? 4u : 1u, !ctl, 30})
H(a, "sched_mutex", Ad<StandardSharedMutex>, true); H(b, "sched_spin", SpinCfg, true); H(d, "free_mutex", Ad<StandardSharedMutex>, false); H(e, "free_spin", SpinCfg, false);
