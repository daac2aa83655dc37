// MassTree: a table of 64-bit values and its thread states.
#pragma once
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "kvthread.hh"
#include "masstree.hh"
#include "masstree_struct.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "masstree_stats.hh"
#include "masstree_print.hh"
extern volatile mrcu_epoch_type globalepoch;
namespace mt {
using lcdf::Str;
template <int LW, int IW, int BOUND = bound_method_binary, bool CONC = true> struct Params : Masstree::nodeparams<LW, IW> {
  typedef uint64_t value_type; typedef Masstree::value_print<value_type> value_print_type; typedef threadinfo threadinfo_type;
  static constexpr int bound_method = BOUND; static constexpr bool concurrent = CONC;
};
// make_comparable_sloppy and equals_sloppy require readable bytes around a key (string_slice.hh); the bytes there are not the key's, so they are noise.
struct PK { char b[16 + 256 + 16]; int n; explicit PK(const std::string& k) : n((int)k.size()) { memset(b, 0x5a ^ (n * 37), sizeof b); memcpy(b + 16, k.data(), n); } const char* s() const { return b + 16; } operator Str() const { return Str(s(), n); } };
inline void tick() { globalepoch = globalepoch + 2; active_epoch = threadinfo::min_active_epoch(); }   // what mttest's timer does
template <class P> struct Scanner {
  size_t left; std::vector<std::pair<std::string, uint64_t>>& out; bool bad = false;
  template <typename S, typename K> void visit_leaf(const S&, const K&, threadinfo&) {}
  bool visit_value(Str key, uint64_t v, threadinfo&) { out.push_back({std::string(key.s, key.len), v}); return --left > 0; }
};
template <class P> struct Table {
  typedef Masstree::basic_table<P> T; typedef Masstree::tcursor<P> C; typedef Masstree::unlocked_tcursor<P> U; T t;
  explicit Table(threadinfo& ti) { t.initialize(ti); }
  // 1 replaced, 0 new
  int put(const std::string& k, uint64_t v, threadinfo& ti) { PK p(k); C lp(t, p.s(), p.n); bool f = lp.find_insert(ti); lp.value() = v; lp.finish(1, ti); return f; }
  bool ins(const std::string& k, uint64_t v, threadinfo& ti) { PK p(k); C lp(t, p.s(), p.n); bool f = lp.find_insert(ti); if (f) { lp.finish(0, ti); return false; } lp.value() = v; fence(); lp.finish(1, ti); return true; }
  bool upd(const std::string& k, uint64_t v, threadinfo& ti) { PK p(k); C lp(t, p.s(), p.n); bool f = lp.find_locked(ti); if (f) lp.value() = v; lp.finish(f ? 1 : 0, ti); return f; }
  bool del(const std::string& k, threadinfo& ti, uint64_t* old = nullptr) { PK p(k); C lp(t, p.s(), p.n); bool f = lp.find_locked(ti); if (f && old) *old = lp.value(); lp.finish(f ? -1 : 0, ti); return f; }
  void give_up(const std::string& k, threadinfo& ti) { PK p(k); C lp(t, p.s(), p.n); lp.find_insert(ti); lp.finish(0, ti); }
  bool get(const std::string& k, uint64_t& v, threadinfo& ti, unsigned how) { PK p(k);
    if (how % 3 == 0) return t.get(p, v, ti);
    if (how % 3 == 1) { U lp(t, p.s(), p.n); bool f = lp.find_unlocked(ti); if (f) v = lp.value(); return f; }
    C lp(t, p.s(), p.n); bool f = lp.find_locked(ti); if (f) v = lp.value(); lp.finish(0, ti); return f;
  }
  int scan(const std::string& k, bool eq, size_t n, bool rev, std::vector<std::pair<std::string, uint64_t>>& out, threadinfo& ti) {
    if (!n) return 0; PK p(k); Scanner<P> s{n, out}; return rev ? t.rscan(p, eq, s, ti) : t.scan(p, eq, s, ti);
  }
};
}  // namespace mt
