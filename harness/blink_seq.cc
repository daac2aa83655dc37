// BLinkTree: sequential histories against an ordered map.  -DSCANS adds the scans.
#include "b_link_tree.h"
#include "vmap.h"
using namespace seqmap;
template <class K> struct Conv;
template <> struct Conv<uint64_t> { static uint64_t to(const Pool& p, uint64_t id) { return p.num[id]; } static std::string from(uint64_t k) { return keys::be64(k); } };
template <> struct Conv<int64_t> { static int64_t to(const Pool& p, uint64_t id) { return (int64_t)(p.num[id] ^ (1ull << 63)); } static std::string from(int64_t k) { return keys::be64((uint64_t)k ^ (1ull << 63)); } };
template <> struct Conv<std::string> { static std::string to(const Pool& p, uint64_t id) { return p.key[id]; } static std::string from(const std::string& k) { return k; } };
template <class K, class L> struct Ad : Base {
  using T = BLinkTree<K, uint64_t, L>; const Pool& P; std::unique_ptr<T> t; std::map<std::string, uint64_t> vals;
  Ad(const Case& c, const Pool& p) : P(p) {
    static const double th[] = {0.5, 0.6, 0.75, 0.9, 1.0};
    if (c.c(8) == 7) t.reset(new T());
    else t.reset(new T((int)c.c(6, 8), (int)c.c(7, 8), th[c.c(8) % 5], 0.25, th[c.c(9) % 5], 0.25));
  }
  K k(uint64_t id) { return Conv<K>::to(P, id); }
  bool ins(uint64_t id, uint64_t v) { return t->Insert(k(id), v); }
  bool upd(uint64_t id, uint64_t v) { return t->Update(k(id), v); }
  bool get(uint64_t id, uint64_t& v) {
    uint64_t a = 0, b = 0; bool f = t->Search(k(id), a), g = t->SearchUnsafe(k(id), b);
    PBT_CHECK(f == g && a == b, "the latched and the unlatched search disagree: %d %llu / %d %llu", f, (unsigned long long)a, g, (unsigned long long)b);
    v = a; return f;
  }
  void put_out(std::vector<std::pair<K, uint64_t>>& r, std::vector<KV>& out) { for (auto& x : r) out.push_back({Conv<K>::from(x.first), x.second}); }
  void scan(uint64_t id, size_t n, std::vector<KV>& out) { std::vector<std::pair<K, uint64_t>> r; bool any = t->ScanFixed(k(id), (int)n, r); put_out(r, out); PBT_CHECK(any || r.empty(), "the scan says there is nothing but returns %zu", r.size()); }
  void range(uint64_t a, uint64_t b, std::vector<KV>& out) { std::vector<std::pair<K, uint64_t>> r; bool any = t->ScanRange(k(a), k(b), r); put_out(r, out); PBT_CHECK(any || r.empty(), "the scan says there is nothing but returns %zu", r.size()); }
  void full(std::vector<KV>& out) { std::vector<std::pair<K, uint64_t>> r; t->ScanLeaf(r); put_out(r, out); }
  void check(const std::map<std::string, uint64_t>& m) { int d = t->GetTreeDepth(); PBT_CHECK(d >= 1 && (m.size() > 1 || d == 1), "tree depth %d for %zu keys", d, m.size()); }
};
static std::vector<uint64_t> extra(Rng& r) {
  // node sizes small enough for several levels; a node must hold two items before it splits
  uint64_t big = r.chance(1, 8);
  return {big ? r.range(20, 80) : r.range(6, 16), big ? r.range(20, 80) : r.range(6, 16), r.chance(1, 20) ? 7 : r.below(5), r.below(5)};
}
static Caps caps(bool str) {
  Caps c; c.strings = str; c.put = false; c.ins = c.upd = true;
#ifdef SCANS
  c.scan = c.range = c.full = true;
#endif
  return c;
}
PBT_HARNESS(a, {"u64", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(false), extra(r)); }, [](const Case& c, Obs& o) { run<Ad<uint64_t, StandardSharedMutex>>(c, o, caps(false)); }, 2});
PBT_HARNESS(b, {"i64_spin", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(false), extra(r)); }, [](const Case& c, Obs& o) { run<Ad<int64_t, RSpinSharedLatch>>(c, o, caps(false)); }, 1});
PBT_HARNESS(d, {"str", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(true), extra(r)); }, [](const Case& c, Obs& o) { run<Ad<std::string, RSpinSharedLatch>>(c, o, caps(true)); }, 1});
