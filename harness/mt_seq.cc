// MassTree: sequential histories over string and integer keys.  -DSCANS: forward and reverse scans.
#include <memory>
#include "mt_common.h"
#include "vmap.h"
using namespace seqmap;
template <class P> struct Ad : Base {
  const Pool& Po; threadinfo* ti; std::unique_ptr<mt::Table<P>> t; uint64_t n = 0; uint64_t aborts, every;
  Ad(const Case& c, const Pool& p) : Po(p), aborts(c.c(6)), every(c.c(7, 1)) { setenv("_", "valgrind", 1); ti = threadinfo::make(threadinfo::TI_MAIN, -1); ti->rcu_start(); t.reset(new mt::Table<P>(*ti)); ti->rcu_stop(); }
  ~Ad() { ti->rcu_start(); t->t.destroy(*ti); ti->rcu_stop(); for (int i = 0; i < 3; ++i) { mt::tick(); ti->rcu_quiesce(); } ti->rcu_stop(); }
  struct On { Ad& a; On(Ad& x) : a(x) { if (++a.n % (a.every + 1) == 0) mt::tick(); a.ti->rcu_start(); } ~On() { a.ti->rcu_stop(); } };
  int put(uint64_t id, uint64_t v) { On o(*this); if (aborts && v % aborts == 0) t->give_up(Po.key[id], *ti); return t->put(Po.key[id], v, *ti); }
  bool ins(uint64_t id, uint64_t v) { On o(*this); if (aborts && v % aborts == 0) { t->give_up(Po.key[(id + 1) % Po.key.size()], *ti); } return t->ins(Po.key[id], v, *ti); }
  bool upd(uint64_t id, uint64_t v) { On o(*this); return t->upd(Po.key[id], v, *ti); }
  int del(uint64_t id) { On o(*this); uint64_t old = 0, want = 0; bool h = t->get(Po.key[id], want, *ti, n); bool r = t->del(Po.key[id], *ti, &old); PBT_CHECK(!r || (h && old == want), "the value seen when removing %s differs from the stored one", keys::hex(Po.key[id]).c_str()); return r; }
  bool get(uint64_t id, uint64_t& v) { On o(*this); return t->get(Po.key[id], v, *ti, n); }
  void walk(uint64_t id, size_t lim, bool rev, std::vector<KV>& out) {
    On o(*this); std::string k = Po.key[id]; std::vector<KV> incl, excl; int c1 = t->scan(k, true, lim, rev, incl, *ti); PBT_CHECK(c1 == (int)incl.size(), "the scan from %s returned %d, it visited %zu", keys::hex(k).c_str(), c1, incl.size());
    bool here = !incl.empty() && incl[0].first == k; t->scan(k, false, here ? lim - 1 : lim, rev, excl, *ti);
    PBT_CHECK(std::vector<KV>(incl.begin() + here, incl.end()) == excl, "%s scan behind %s: exclusive and inclusive start disagree:%s versus%s", rev ? "reverse" : "forward", keys::hex(k).c_str(), showkvs(excl).c_str(), showkvs(incl).c_str()); out = incl;
  }
  void scan(uint64_t id, size_t lim, std::vector<KV>& out) { walk(id, lim, false, out); }
  void rscan(uint64_t id, size_t lim, std::vector<KV>& out) { walk(id, lim, true, out); }
  void full(std::vector<KV>& out) {
    On o(*this); t->scan("", true, 1 << 30, false, out, *ti); std::vector<KV> r; t->scan(std::string(255, (char)255), true, 1 << 30, true, r, *ti); std::reverse(r.begin(), r.end());
    SM_EQ(r, out, "the reverse traversal differs from the forward one");
  }
};

// Keys that agree in their first 8 bytes padded with NUL stay in one leaf: with NUL bytes in keys there can be 10, so the narrow leaves get keys without.
static Caps caps(bool str, int width) {
  Caps c; c.strings = str; c.maxkey = 255; c.nul = width >= 10; c.ins = c.upd = c.del = true; c.max_pool = 1500; c.max_ops = 3000;
#ifdef SCANS
  c.scan = c.rscan = c.full = true;
#endif
  return c;
}
static std::vector<uint64_t> ex(Rng& r) { return {r.chance(1, 3) ? r.range(2, 30) : 0, r.below(6)}; }
#define H(id, name, P, str, w) PBT_HARNESS(id, {name, SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(str, P::leaf_width), ex(r)); }, [](const Case& c, Obs& o) { run<Ad<P>>(c, o, caps(str, P::leaf_width)); }, w})
using P15 = mt::Params<15, 15>; using P3 = mt::Params<3, 3>; using P7 = mt::Params<7, 4, bound_method_linear>; using PN = mt::Params<15, 15, bound_method_binary, false>;
H(a, "int15", P15, false, 2); H(b, "str15", P15, true, 4); H(d, "int3", P3, false, 2); H(e, "str3", P3, true, 3); H(f, "str7_linear", P7, true, 1); H(g, "str15_single", PN, true, 1);
