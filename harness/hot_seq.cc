// HOT (ROWEX): sequential histories.  -DSCANS adds iterators.
#include "hot_common.h"
#include "vmap.h"
using namespace seqmap;
template <class T> struct Ad : Base {
  using R = typename T::Rec; const Pool& P; typename T::Tree t; std::vector<R*> recs;
  Ad(const Case&, const Pool& p) : P(p) {}
  ~Ad() { for (auto* r : recs) free(r); }
  R* mk(uint64_t id, uint64_t v) { recs.push_back(T::make(P, id, v)); return recs.back(); }
  int put(uint64_t id, uint64_t v) {
    uint64_t old; bool had = get(id, old); R* r = mk(id, v); auto res = t.upsert(r);
    if (res.mIsValid) { PBT_CHECK(res.mValue != r, "upsert of %s hands back the new record as the replaced one", keys::hex(P.key[id]).c_str()); PBT_CHECK(!had || res.mValue->val == old, "upsert of %s hands back %llu as replaced, the old record was %llu", keys::hex(P.key[id]).c_str(), (unsigned long long)res.mValue->val, (unsigned long long)old); }
    return res.mIsValid;
  }
  bool ins(uint64_t id, uint64_t v) { return t.insert(mk(id, v)); }
  bool get(uint64_t id, uint64_t& v) { auto r = t.lookup(T::key(P, id)); if (r.mIsValid) { PBT_CHECK(r.mValue->id == id, "lookup of %s gives the record of %s", keys::hex(P.key[id]).c_str(), keys::hex(P.key[r.mValue->id]).c_str()); v = r.mValue->val; } return r.mIsValid; }
#ifdef SCANS
  KV kv(R* r) { return {P.key[r->id], r->val}; }
  void scan(uint64_t id, size_t n, std::vector<KV>& out) {
    auto k = T::key(P, id); auto it = t.lower_bound(k), end = t.end(); auto save = it; uint64_t v; bool here = get(id, v);
    auto f = t.find(k); PBT_CHECK((f != end) == here, "find of %s: %d, the key is %s", keys::hex(P.key[id]).c_str(), f != end, here ? "present" : "absent");
    if (here) PBT_CHECK((*f)->id == id && f == it, "find of %s gives another record than lower_bound", keys::hex(P.key[id]).c_str());
    for (size_t i = 0; i < n && it != end; ++i, ++it) out.push_back(kv(*it));
    auto s = t.scan(k, n);
    if (it == end) PBT_CHECK(!s.mIsValid, "scan of %zu from %s gives a record although the data ends before", n, keys::hex(P.key[id]).c_str());
    else PBT_CHECK(s.mIsValid && s.mValue == *it, "scan of %zu from %s gives another record than stepping there", n, keys::hex(P.key[id]).c_str());
    auto u = t.upper_bound(k); if (here) ++save;
    PBT_CHECK(u == save, "upper_bound of %s gives %s, expected %s", keys::hex(P.key[id]).c_str(), u == end ? "end" : keys::hex(P.key[(*u)->id]).c_str(), save == end ? "end" : keys::hex(P.key[(*save)->id]).c_str());
    if (here) for (int i = 0; i < 3 && f != end; ++i) { PBT_CHECK(i || (*f)->id == id, "find"); auto c = f; ++c; if (i == 0) PBT_CHECK(c == u, "the successor of find(%s) is not upper_bound", keys::hex(P.key[id]).c_str()); f = c; }
  }
  void full(std::vector<KV>& out) { auto end = t.end(); for (auto it = t.begin(); it != end; ++it) out.push_back(kv(*it)); }
  void check(const std::map<std::string, uint64_t>& m) {
    if (m.empty()) return;
    auto s = t.getStatistics(); PBT_CHECK(s.second["numberValues"] == (double)m.size(), "statistics count %g values, expected %zu", s.second["numberValues"], m.size());
  }
#endif
};
// the wrapper the repository offers on top
template <class K> struct Wrap : Base {
  const Pool& P; HotTree<K, uint64_t> t; Wrap(const Case&, const Pool& p) : P(p) {}
  int put(uint64_t id, uint64_t v) { if constexpr (std::is_same<K, std::string>::value) { std::string k = P.key[id]; return !((v & 1) ? t.upsert(k, v) : t.upsert(k.data(), (int)k.size(), v)); } else return !t.upsert((K)P.num[id], v); }
  bool get(uint64_t id, uint64_t& v) { if constexpr (std::is_same<K, std::string>::value) { std::string k = P.key[id]; return (id & 1) ? t.search(k, v) : t.search(k.data(), v); } else return t.search((K)P.num[id], v); }
};
static Caps caps(bool str, bool wrap = false) {
  Caps c; c.strings = str; c.maxkey = 254; c.ins = !wrap; c.max_pool = 3000; c.max_ops = 4000;
#ifdef SCANS
  c.scan = c.full = true;
#endif
  return c;
}
PBT_HARNESS(a, {"u64", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(false)); }, [](const Case& c, Obs& o) { run<Ad<IntT>>(c, o, caps(false)); }, 2});
PBT_HARNESS(b, {"str", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(true)); }, [](const Case& c, Obs& o) { run<Ad<StrT>>(c, o, caps(true)); }, 2});
#ifndef SCANS
PBT_HARNESS(d, {"wrap_u64", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(false, true)); }, [](const Case& c, Obs& o) { run<Wrap<uint64_t>>(c, o, caps(false, true)); }, 1});
PBT_HARNESS(e, {"wrap_str", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(true, true)); }, [](const Case& c, Obs& o) { run<Wrap<std::string>>(c, o, caps(true, true)); }, 1});
PBT_HARNESS(f, {"wrap_i64", SEQ_RULE, kOpNames, [](Rng& r, int s) { return gen(r, s, caps(false, true)); }, [](const Case& c, Obs& o) { run<Wrap<int64_t>>(c, o, caps(false, true)); }, 1});
#endif
