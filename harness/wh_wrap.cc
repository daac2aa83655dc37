// The WormHole class: pointers under byte-string, 32-bit and 64-bit keys, each thread with a reference of its own.
#include <csignal>
#include <memory>
#include "wormhole.h"
#include "vconc.h"
using namespace conc;
// KIND 0: byte strings, 1: 64-bit integers (as such and as their eight big-endian bytes), 2: 32-bit integers
template <int KIND> struct Ad {
  static constexpr bool kDelByValue = false;
  const Pool& P; std::unique_ptr<WormHole> t; std::vector<uint64_t> n;
  Ad(const Case&, const Pool& p) : P(p), n(16) { for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL); t.reset(new WormHole()); }
  static inline thread_local int me = 0;
  void tbegin(int i) { me = i; t->thread_init(); PBT_CHECK(whref, "thread_init takes no reference"); }
  void tend(int) { if (me == 0) sweep(); t->thread_end(); }
  void quiesce() {}
  static void* ptr(uint64_t v) { return (void*)(v * 8 + 4096); }
  uint32_t n32(uint64_t id) const { return (uint32_t)P.num[id]; }
  // 64-bit integers whose halves differ only above share one 32-bit key: those pools fold into the low half (see caps)
  bool bytes(uint64_t v) const { return KIND == 0 || v % 3 == 0; }
  std::string raw(uint64_t id) const { return KIND == 2 ? P.key[id].substr(4) : P.key[id]; }
  bool ups(uint64_t id, uint64_t v) { std::string k = raw(id); if (bytes(v)) return t->upsert(k.data(), (int)k.size(), ptr(v)); return KIND == 1 ? t->upsert((uint64_t)P.num[id], ptr(v)) : t->upsert(n32(id), ptr(v)); }
  void fill(uint64_t id, uint64_t v) { PBT_CHECK(ups(id, v), "upsert failed"); }
  void put(uint64_t id, uint64_t v, lin::Ev&) { PBT_CHECK(ups(id, v), "upsert failed"); }
  bool ins(uint64_t, uint64_t) { return false; } bool upd(uint64_t, uint64_t) { return false; }
  int del(uint64_t id, uint64_t v) { std::string k = raw(id); if (bytes(++n[me])) return t->remove(k.data(), (int)k.size()); return KIND == 1 ? t->remove((uint64_t)P.num[id]) : t->remove(n32(id)); }
  bool get(uint64_t id, uint64_t& v) { std::string k = raw(id); void* x = nullptr; bool r = bytes(++n[me]) ? t->search(k.data(), (int)k.size(), x) : KIND == 1 ? t->search((uint64_t)P.num[id], x) : t->search(n32(id), x); if (r) { PBT_CHECK((uint64_t)x >= 4096 && (uint64_t)x % 8 == 0, "a search gives pointer %p", x); v = ((uint64_t)x - 4096) / 8; } return r; }
  void scan(ScanRes&) {}
  // at the end: the records in the order of the index; integers ascend
  static void rk(kv* c, void* p) { if (c) ((std::string*)p)->assign((const char*)kv_kptr_c(c), c->klen); }
  void sweep() { auto* it = wh_iter_create(whref); wh_iter_seek(it, nullptr, 0); std::string last, k; bool first = true; for (; wh_iter_valid(it); wh_iter_skip1(it)) { wh_iter_inp(it, rk, &k); PBT_CHECK(first || last < k, "records out of order"); if (KIND) PBT_CHECK(k.size() == (KIND == 1 ? 8 : 4), "an integer key of %zu bytes", k.size()); uint64_t x = 0; for (unsigned char ch : k) x = x << 8 | ch; if (KIND) { void* y; PBT_CHECK(KIND == 1 ? t->search((uint64_t)x, y) : t->search((uint32_t)x, y), "integer %llu is in the index but not found", (unsigned long long)x); } last = k; first = false; } wh_iter_destroy(it); }
};
static Caps caps(bool str) { Caps c; c.put = c.del = true; c.strings = str; c.nul = str; c.maxkey = 60; c.growth = 15; return c; }
template <int K> static Case G(Rng& r, int s, bool ctl) { Case c = gen(r, s, ctl, caps(K == 0)); if (K == 2) c.cfg[3] %= 2; return c; }
template <int K> static Case G1(Rng& r, int s) { return G<K>(r, s, true); }
template <int K> static Case G0(Rng& r, int s) { return G<K>(r, s, false); }
template <int K> static void R(const Case& c, Obs& o) { if (K == 2) { Pool p(c, caps(false)); std::map<uint32_t, int> seen; for (auto x : p.num) if (seen[(uint32_t)x]++) return; } run<Ad<K>>(c, o, caps(K == 0)); }
PBT_HARNESS(a, {"sched_bytes", CONC_RULE, kOpNames, G1<0>, R<0>, 3});
PBT_HARNESS(b, {"sched_u64", CONC_RULE, kOpNames, G1<1>, R<1>, 3});
PBT_HARNESS(d, {"sched_u32", CONC_RULE, kOpNames, G1<2>, R<2>, 2});
PBT_HARNESS(e, {"free_u64", CONC_RULE, kOpNames, G0<1>, R<1>, 1, true, 60});
