// BTreeOLC (both leaf layouts): sequential histories.
#ifdef CHILD
#include "BTreeOLC_child_layout.h"
#else
#include "BTreeOLC.h"
#endif
#include "vmap.h"
using namespace seqmap;
// a wide key gives a small fan-out, hence several levels with few keys
template <unsigned PAD> struct Fat { uint64_t k; char pad[PAD]; bool operator<(const Fat& o) const { return k < o.k; } bool operator>(const Fat& o) const { return k > o.k; } bool operator==(const Fat& o) const { return k == o.k; } };
template <class K> K mk(uint64_t v) { K k; memset((void*)&k, 0x5a, sizeof k); k.k = v; return k; }
template <> uint64_t mk<uint64_t>(uint64_t v) { return v; }
template <> int64_t mk<int64_t>(uint64_t v) { return (int64_t)(v ^ (1ull << 63)); }
template <unsigned PAD> struct FatV { uint64_t v; char pad[PAD]; };
template <class V> V mv(uint64_t v) { V r; memset((void*)&r, 0x33, sizeof r); r.v = v; return r; }
template <> uint64_t mv<uint64_t>(uint64_t v) { return v; }
static uint64_t gv(uint64_t v) { return v; }
template <unsigned PAD> static uint64_t gv(const FatV<PAD>& v) { for (char c : v.pad) PBT_CHECK(c == 0x33, "a value was returned with foreign bytes in it"); return v.v; }

template <class K, class V> struct Ad : Base {
  using T = btreeolc::BTree<K, V>; const Pool& P; T* t = new T(); std::map<uint64_t, uint64_t> byval;
  Ad(const Case&, const Pool& p) : P(p) {}
  int put(uint64_t id, uint64_t v) { byval[v] = id; t->insert(mk<K>(P.num[id]), mv<V>(v)); return -1; }
  bool get(uint64_t id, uint64_t& v) { V r = mv<V>(0); bool f = t->lookup(mk<K>(P.num[id]), r); v = f ? gv(r) : 0; return f; }
  size_t partial = 0;
  // the interface promises at most `n` values in key order from the first key >= start; it stops at a node boundary,
  // so the answer is a prefix of the ideal one, empty only if that is
  void scan(uint64_t id, size_t n, std::vector<KV>& out) {
    std::vector<V> r(n + 1); for (auto& x : r) x = mv<V>(~0ull);
    uint64_t c = t->scan(mk<K>(P.num[id]), (int)n, r.data());
    PBT_CHECK(c <= n, "scan returned %llu values for a limit of %zu", (unsigned long long)c, n);
    PBT_CHECK(gv(r[c]) == ~0ull, "scan wrote beyond the values it reports");
    for (uint64_t i = 0; i < c; ++i) { uint64_t v = gv(r[i]); auto it = byval.find(v); PBT_CHECK(it != byval.end(), "scan returned %llu, which was never stored", (unsigned long long)v); out.push_back({P.key[it->second], v}); }
  }
};
// scans compare as prefixes, so this harness has its own loop over the shared one
template <class K, class V> struct Ad2 : Ad<K, V> {
  std::map<std::string, uint64_t> m;   // mirror, for the prefix rule
  using B = Ad<K, V>; Ad2(const Case& c, const Pool& p) : B(c, p) {}
  int put(uint64_t id, uint64_t v) { m[B::P.key[id]] = v; return B::put(id, v); }
  void scan(uint64_t id, size_t n, std::vector<KV>& out) {
    std::vector<KV> got, want; B::scan(id, n, got);
    for (auto i = m.lower_bound(B::P.key[id]); i != m.end() && want.size() < n; ++i) want.push_back(*i);
    PBT_CHECK(!got.empty() || want.empty(), "scan from %s returned nothing although %s follows", keys::hex(B::P.key[id]).c_str(), keys::hex(want[0].first).c_str());
    std::vector<KV> w2 = want; if (w2.size() > got.size()) w2.resize(got.size());
    SM_EQ(got, w2, "scan from %s limit %zu is not a prefix of the ordered contents", keys::hex(B::P.key[id]).c_str(), n);
    out = want;
  }
};
static Caps caps(unsigned pool) { Caps c; c.scan = true; c.max_pool = pool; c.max_ops = 6000; return c; }
PBT_HARNESS(a, {"u64", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(5000)); }, [](const Case& c, Obs& o) { run<Ad2<uint64_t, uint64_t>>(c, o, caps(5000)); }, 2});
PBT_HARNESS(b, {"i64", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(2000)); }, [](const Case& c, Obs& o) { run<Ad2<int64_t, uint64_t>>(c, o, caps(2000)); }, 1});
PBT_HARNESS(d, {"wide_key", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(1500)); }, [](const Case& c, Obs& o) { run<Ad2<Fat<248>, uint64_t>>(c, o, caps(1500)); }, 3});
PBT_HARNESS(e, {"wide_value", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(1500)); }, [](const Case& c, Obs& o) { run<Ad2<Fat<120>, FatV<200>>>(c, o, caps(1500)); }, 2});
