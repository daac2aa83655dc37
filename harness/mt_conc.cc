// MassTree: concurrent histories; one thread also plays the timer that advances the reclamation epoch.
#include <memory>
#include "mt_common.h"
#include "vconc.h"
using namespace conc;
template <class P> struct Ad {
  static constexpr bool kDelByValue = false;
  const Pool& Po; std::vector<threadinfo*> ti; std::unique_ptr<mt::Table<P>> t; std::vector<uint64_t> n; uint64_t ticker, every, hold, aborts;
  static inline thread_local int me = 0;
  static std::vector<threadinfo*>& all() { static std::vector<threadinfo*> v; return v; }
  static bool& wiped() { static bool w; return w; }
  Ad(const Case& c, const Pool& p) : Po(p), n(16), ticker(1 + c.c(6) % (c.thr.size() > 1 ? c.thr.size() - 1 : 1)), every(1 + c.c(7) % 5), hold(c.c(8)), aborts(c.c(9)) {
    setenv("_", "valgrind", 1); while (all().size() < 9) all().push_back(threadinfo::make(all().empty() ? threadinfo::TI_MAIN : threadinfo::TI_PROCESS, (int)all().size()));
    ti = all(); ti[0]->rcu_start(); t.reset(new mt::Table<P>(*ti[0])); ti[0]->rcu_stop();
  }
  void drain(int rounds) { for (auto* x : ti) x->rcu_stop(); for (int i = 0; i < rounds; ++i) { mt::tick(); for (auto* x : ti) { x->rcu_quiesce(); x->rcu_stop(); } } }
  // what the threads still have to clean up refers to the table, so it goes first (128 entries per thread and round)
  ~Ad() { drain(40); ti[0]->rcu_start(); t->t.destroy(*ti[0]); drain(5); }
  // the main thread, idle while the others run, must not hold back reclamation
  void tbegin(int i) { me = i; if (i) ti[i]->rcu_start(); }
  void tend(int) { if (me) ti[me]->rcu_stop(); }
  void quiesce() {}
  struct On {
    Ad& a; threadinfo& t; On(Ad& x) : a(x), t(*x.ti[me]) { auto k = ++a.n[me]; if ((uint64_t)me == a.ticker && k % a.every == 0) mt::tick(); if (!me) { t.rcu_start(); return; } if (a.hold && k % a.hold) return; if (k & 1) t.rcu_quiesce(); else { t.rcu_stop(); t.rcu_start(); } }
    ~On() { if (!me) t.rcu_stop(); } };
  bool drop() { return aborts && n[me] % aborts == 0; }
  void fill(uint64_t id, uint64_t v) { On o(*this); t->put(Po.key[id], v, o.t); }
  void put(uint64_t id, uint64_t v, lin::Ev&) { On o(*this); t->put(Po.key[id], v, o.t); }
  bool ins(uint64_t id, uint64_t v) { On o(*this); if (drop()) t->give_up(Po.key[id], o.t); return t->ins(Po.key[id], v, o.t); }
  bool upd(uint64_t id, uint64_t v) { On o(*this); return t->upd(Po.key[id], v, o.t); }
  int del(uint64_t id, uint64_t) { On o(*this); return t->del(Po.key[id], o.t); }
  bool get(uint64_t id, uint64_t& v) { On o(*this); return t->get(Po.key[id], v, o.t, n[me]); }
  void scan(ScanRes& s) {
    On o(*this); std::vector<std::pair<std::string, uint64_t>> got; t->scan(Po.key[s.start], true, s.limit, s.rev, got, o.t);
    for (auto& x : got) { auto f = Po.ids.find(x.first); PBT_CHECK(f != Po.ids.end(), "a scan returned key %s, which was never stored", keys::hex(x.first).c_str()); s.out.push_back({f->second, x.second}); }
    s.to_end = got.size() < s.limit;
  }
};
// Keys that agree in their first 8 bytes padded with NUL stay in one leaf: with NUL bytes in keys there can be 10, more than a leaf of 3 holds.
static Caps caps(bool str, bool nul) { Caps c; c.nul = nul; c.put = c.ins = c.upd = c.del = c.scan = c.rscan = true; c.strings = str; c.maxkey = 60; c.growth = 15; return c; }
static std::vector<uint64_t> ex(Rng& r) { return {r.below(8), r.below(5), r.below(6), r.chance(1, 4) ? r.range(2, 9) : 0}; }
template <bool S, bool N = false> static Case G1(Rng& r, int s) { return gen(r, s, true, caps(S, N), ex(r)); }
template <bool S, bool N = false> static Case G0(Rng& r, int s) { return gen(r, s, false, caps(S, N), ex(r)); }
template <class P, bool S, bool N = false> static void R(const Case& c, Obs& o) { run<Ad<P>>(c, o, caps(S, N)); }
using P15 = mt::Params<15, 15>; using P3 = mt::Params<3, 3>;
PBT_HARNESS(a, {"sched_int15", CONC_RULE, kOpNames, G1<false>, R<P15, false>, 3});
PBT_HARNESS(b, {"sched_str15", CONC_RULE, kOpNames, G1<true, true>, R<P15, true, true>, 4});
PBT_HARNESS(d, {"sched_int3", CONC_RULE, kOpNames, G1<false>, R<P3, false>, 3});
PBT_HARNESS(e, {"sched_str3", CONC_RULE, kOpNames, G1<true>, R<P3, true>, 4});
PBT_HARNESS(f, {"free_str3", CONC_RULE, kOpNames, G0<true>, R<P3, true>, 1, true, 60});
PBT_HARNESS(g, {"free_int15", CONC_RULE, kOpNames, G0<false>, R<P15, false>, 1, true, 60});
