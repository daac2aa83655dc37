// ART with optimistic lock coupling (ARTOLC/ or OptiQL/): concurrent histories.
#ifdef OPTIQL
#include "Tree.cpp"
#include "../ARTOLC/Epoche.cpp"
namespace art = ART_OLC_OptiQL;
#else
#include "Tree.cpp"
namespace art = ART_OLC;
#endif
#include "vconc.h"
#include <memory>
using namespace conc;

static const Pool* g_pool; static bool g_str;
static std::string bytes_of(uint64_t id) { std::string s = g_pool->key[id]; if (g_str) s.push_back('\0'); return s; }
static void setKey(Key& k, const std::string& s) { k.setKeyLen(s.size()); memcpy(&k[0], s.data(), s.size()); }
static void loadKey(TID tid, Key& key) {
  uint64_t id = (tid >> 24) - 1;
  if (id >= g_pool->key.size()) pbt::fail("the tree asked for the key of a record it was never given: %llu", (unsigned long long)tid);
  setKey(key, bytes_of(id));
}
static void removeNode(void*) {}
template <bool STR> struct Ad {
  static constexpr bool kDelByValue = true;
#ifdef OPTIQL
  art::Tree tree{loadKey, removeNode};
#else
  std::unique_ptr<art::Tree> tp{new art::Tree(loadKey)}; art::Tree& tree = *tp;
  std::unique_ptr<ART::ThreadInfo> ti[16];
#endif
  Ad(const Case&, const Pool& p) { g_pool = &p; g_str = STR;
#ifdef OPTIQL
    offset::init_qnodes();
#endif
  }
  ~Ad() { }
  int me() { return tls; }
  static thread_local int tls;
  void tbegin(int t) { tls = t;
#ifdef OPTIQL
    offset::reset_tls_qnodes();
#else
    ti[t].reset(new ART::ThreadInfo(tree.getThreadInfo()));
#endif
  }
  void tend(int t) {
#ifndef OPTIQL
    ti[t].reset();
#endif
    (void)t;
  }
  void quiesce() {}
  void fill(uint64_t id, uint64_t v) { Key k; setKey(k, bytes_of(id));
#ifdef OPTIQL
    PBT_CHECK(tree.insert(k, v), "insert of a new key returned false");
#else
    tree.insert(k, v, *ti[tls]);
#endif
  }
  void put(uint64_t id, uint64_t v, lin::Ev&) { fill(id, v); }
  bool ins(uint64_t id, uint64_t v) { Key k; setKey(k, bytes_of(id));
#ifdef OPTIQL
    return tree.insert(k, v);
#else
    (void)v; return false;
#endif
  }
  bool upd(uint64_t id, uint64_t v) { Key k; setKey(k, bytes_of(id));
#ifdef OPTIQL
    return tree.update(k, v);
#else
    (void)v; return false;
#endif
  }
  int del(uint64_t id, uint64_t v) { Key k; setKey(k, bytes_of(id));
#ifdef OPTIQL
    return tree.remove(k, v);
#else
    tree.remove(k, v, *ti[tls]); return -1;
#endif
  }
  bool get(uint64_t id, uint64_t& v) { Key k; setKey(k, bytes_of(id));
#ifdef OPTIQL
    v = tree.lookup(k);
#else
    v = tree.lookup(k, *ti[tls]);
#endif
    return v != 0;
  }
  void scan(ScanRes&) {}
};
template <bool STR> thread_local int Ad<STR>::tls = 0;
static Caps caps(bool str) {
  Caps c; c.strings = str; c.del = true;
#ifdef OPTIQL
  c.put = false; c.ins = c.upd = true;
#endif
  return c;
}
PBT_HARNESS(a, {"sched_int", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, true, caps(false)); }, [](const Case& c, Obs& o) { run<Ad<false>>(c, o, caps(false)); }, 4});
PBT_HARNESS(b, {"sched_str", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, true, caps(true)); }, [](const Case& c, Obs& o) { run<Ad<true>>(c, o, caps(true)); }, 4});
PBT_HARNESS(d, {"free_int", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, false, caps(false)); }, [](const Case& c, Obs& o) { run<Ad<false>>(c, o, caps(false)); }, 1, true, 60});
PBT_HARNESS(e, {"free_str", CONC_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, false, caps(true)); }, [](const Case& c, Obs& o) { run<Ad<true>>(c, o, caps(true)); }, 1, true, 60});
