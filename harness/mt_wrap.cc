// MassTreeWrapper: concurrent upserts and searches, values stored in place or as pointers handed to the epoch.
#include <memory>
#include "mt_common.h"
#include "MassTreeWrapper.h"
#include "vconc.h"
using namespace conc;
struct Box { uint64_t magic, v; };
static const uint64_t kMagic = 0x5afe5afe12345678ull;
template <bool PTR> struct Ad {
  static constexpr bool kDelByValue = false; using V = std::conditional_t<PTR, Box*, uint64_t>;
  const Pool& P; std::unique_ptr<MassTreeWrapper<V>> t; uint64_t every, own; std::vector<uint64_t> n;
  static inline thread_local int me = 0;
  static std::vector<threadinfo*>& all() { static std::vector<threadinfo*> v; return v; }
  Ad(const Case& c, const Pool& p) : P(p), every(1 + c.c(7) % 5), own(c.c(8)), n(16) { setenv("_", "valgrind", 1); while (all().size() < 9) all().push_back(threadinfo::make(all().empty() ? threadinfo::TI_MAIN : threadinfo::TI_PROCESS, (int)all().size())); mass_thd_info = all()[0]; t.reset(new MassTreeWrapper<V>()); }
  void tbegin(int i) { me = i; mass_thd_info = own % 8 == 0 && i ? nullptr : all()[i]; t->thread_init(i); PBT_CHECK(mass_thd_info, "thread_init leaves the thread without its state"); }
  void tend(int) {}
  void quiesce() {}
  void step() { if (me && ++n[me] % every == 0 && me == 1) mt::tick(); }
  static V make(uint64_t v) { if constexpr (PTR) { Box* b = (Box*)malloc(sizeof(Box)); b->magic = kMagic; b->v = v; return b; } else return v; }
  bool ups(uint64_t id, uint64_t v) { const std::string& k = P.key[id]; if (v & 1) { mt::PK p(k); return t->upsert(const_cast<char*>(p.s()), p.n, make(v)); } if (v & 2) { std::string s = k; s.reserve(64); bool r = t->upsert(s, make(v)); PBT_CHECK(s == k, "upsert changes its key"); return r; } return t->upsert(std::string(k), make(v)); }
  void fill(uint64_t id, uint64_t v) { PBT_CHECK(ups(id, v), "upsert of a new key says it existed"); }
  void put(uint64_t id, uint64_t v, lin::Ev& e) { step(); e.oldknown = true; e.ok = !ups(id, v); }
  bool ins(uint64_t, uint64_t) { return false; } bool upd(uint64_t, uint64_t) { return false; } int del(uint64_t, uint64_t) { return 0; } void scan(ScanRes&) {}
  bool get(uint64_t id, uint64_t& v) {
    step(); const std::string& k = P.key[id]; MassEpochGuard g; V x{}; bool r; mt::PK p(k); std::string s = k; if (n[me] % 3 == 0) r = t->search(const_cast<char*>(p.s()), p.n, x); else if (n[me] % 3 == 1) r = t->search(s, x); else r = t->search(std::string(k), x); if (!r) return false;
    if constexpr (PTR) { for (int i = 0; i < 3; ++i) { sched::yield_point(); PBT_CHECK(x->magic == kMagic, "a value found inside a guard has been freed"); } v = x->v; } else v = x; return true;
  }
};
static Caps caps(bool str) { Caps c; c.put = true; c.strings = str; c.nul = str; c.maxkey = 60; c.growth = 15; return c; }
static std::vector<uint64_t> ex(Rng& r) { return {r.below(8), r.below(5), r.below(24)}; }
template <bool S> static Case G1(Rng& r, int s) { return gen(r, s, true, caps(S), ex(r)); }
template <bool S> static Case G0(Rng& r, int s) { return gen(r, s, false, caps(S), ex(r)); }
template <bool PTR, bool S> static void R(const Case& c, Obs& o) { run<Ad<PTR>>(c, o, caps(S)); }
PBT_HARNESS(a, {"sched_values", CONC_RULE, kOpNames, G1<true>, R<false, true>, 3});
PBT_HARNESS(b, {"sched_pointers", CONC_RULE, kOpNames, G1<true>, R<true, true>, 4});
PBT_HARNESS(d, {"sched_int_pointers", CONC_RULE, kOpNames, G1<false>, R<true, false>, 2});
PBT_HARNESS(e, {"free_pointers", CONC_RULE, kOpNames, G0<true>, R<true, true>, 1, true, 60});
