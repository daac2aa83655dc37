// ART with optimistic lock coupling (ARTOLC/ or OptiQL/): sequential histories against an ordered map.
#include "pbt.h"
#include "vkeys.h"
#include <map>
#include <memory>
#include <string>
#include <vector>
#ifdef OPTIQL
#include "Tree.cpp"
#include "../ARTOLC/Epoche.cpp"
namespace art = ART_OLC_OptiQL;
#else
#include "Tree.cpp"
namespace art = ART_OLC;
#endif
using pbt::Case; using pbt::Op; using pbt::Obs; using pbt::Rng;

static std::vector<std::string> g_rec;                 // tid-1 -> key bytes
static void loadKey(TID tid, Key& key) {
  PBT_CHECK(tid >= 1 && tid <= g_rec.size(), "the tree asked for the key of a record it was never given: %llu", (unsigned long long)tid);
  const std::string& s = g_rec[tid - 1]; key.setKeyLen(s.size()); memcpy(&key[0], s.data(), s.size());
}
static void setKey(Key& k, const std::string& s) { k.setKeyLen(s.size()); memcpy(&k[0], s.data(), s.size()); }

#ifdef OPTIQL
static void removeNode(void*) {}
struct Tree {
  art::Tree t{loadKey, removeNode};
  Tree() { offset::init_qnodes(); offset::reset_tls_qnodes(); }
  TID lookup(const Key& k) { return t.lookup(k); }
  // the unified operation: update, else insert
  void put(const Key& k, TID tid, bool present) {
    bool r = t.insert(k, tid);
    PBT_CHECK(r == !present, "insert returned %d for a key that is %s", r, present ? "present" : "absent");
    if (!r) { bool u = t.update(k, tid); PBT_CHECK(u, "update of a present key returned false"); }
  }
  bool update(const Key& k, TID tid) { return t.update(k, tid); }
  int remove(const Key& k, TID tid) { return t.remove(k, tid); }
  bool range(const Key& s, const Key& e, Key& c, TID* r, size_t n, size_t& f) { return t.lookupRange(s, e, c, r, n, f); }
  void from(const Key& s, TID* r, size_t n, size_t& f) { t.lookupRange(s, r, n, f); }
};
#else
struct Tree {
  art::Tree t{loadKey};
  ART::ThreadInfo ti{t.getThreadInfo()};
  TID lookup(const Key& k) { return t.lookup(k, ti); }
  void put(const Key& k, TID tid, bool) { t.insert(k, tid, ti); }
  int remove(const Key& k, TID tid) { t.remove(k, tid, ti); return -1; }
  bool range(const Key& s, const Key& e, Key& c, TID* r, size_t n, size_t& f) { return t.lookupRange(s, e, c, r, n, f, ti); }
};
#endif

enum { PUT, GET, DEL, DELW, RANGE, UPD, SWEEP, FROM, HOT };

static std::string key_of(const Case& c, uint64_t i) {
  i %= c.c(3, 1) ? c.c(3, 1) : 1;
  if (c.c(0) == 0) return keys::be64(keys::ikey(c.c(1), c.c(2), i));
  std::string s = keys::skey(c.c(1), c.c(2), i, 200); s.push_back('\0'); return s;
}

static Case gen(Rng& r, int size, bool ranges, bool strs) {
  Case c;
  uint64_t pool = r.chance(1, 4) ? r.range(2, 12) : r.chance(1, 2) ? r.range(10, 80) : r.range(50, 600);
  c.cfg = {strs ? 1u : 0u, r.below(8), r.below(1000), pool};
  size_t n = r.range(2, 20 + (size_t)size * size * (ranges ? 1 : 3) / 10);
  c.thr.resize(1);
  int phase = 0; size_t left = 0;
  for (size_t i = 0; i < n; ++i) {
    if (!left) { phase = r.weighted({5, 3, 2}); left = r.range(5, 200); }
    --left;
    uint64_t a = r.chance(1, 3) ? (i * (1 + pool / 97)) % pool : r.below(pool);
    int k;
    if (ranges && r.chance(1, 4)) k = r.chance(1, 3) ? FROM : RANGE;
    else if (phase == 0) k = r.weighted({12, 4, 1, 1, 0, 1});
    else if (phase == 1) k = r.weighted({2, 4, 10, 1, 0, 1});
    else k = r.weighted({4, 4, 4, 1, 0, 1});
    if (!ranges && k == 4) k = GET;
    c.thr[0].push_back({(uint32_t)k, a, r.below(pool), r.chance(1, 3) ? r.range(1, 6) : r.range(1, 400)});
  }
#ifdef OPTIQL
  if (r.chance(1, 6) && n > 4) for (int q = 0; q < 2; ++q) { size_t at = r.range(3, c.thr[0].size() - 1); c.thr[0].insert(c.thr[0].begin() + at, Op{HOT, c.thr[0][r.below(at)].a, 0, 0}); }
#endif
  if (!ranges) for (int q = 0; q < 2; ++q) c.thr[0].push_back({SWEEP, 0, 0, 0});
  return c;
}

static void run(const Case& c, Obs& o) {
  g_rec.clear(); g_rec.reserve(c.size() + 16);
  Tree* tree = new Tree();
  std::map<std::string, TID> m; std::map<std::string, uint64_t> updates;
  size_t maxn = 0; uint64_t dels = 0, hits = 0, rg = 0, rgfull = 0, cont = 0;
  auto sweep = [&] {
    for (uint64_t i = 0; i < c.c(3); ++i) {
      std::string ks = key_of(c, i); Key k; setKey(k, ks);
      TID got = tree->lookup(k); auto it = m.find(ks); TID want = it == m.end() ? 0 : it->second;
      PBT_CHECK(got == want, "lookup of %s gives record %llu, expected %llu (sweep)", keys::hex(ks).c_str(), (unsigned long long)got, (unsigned long long)want);
    }
  };
  for (auto& op : c.thr.empty() ? pbt::Ops{} : c.thr[0]) {
    std::string ks = key_of(c, op.a); Key k; setKey(k, ks); auto it = m.find(ks); bool present = it != m.end();
    switch (op.k) {
      case PUT: { g_rec.push_back(ks); TID t = g_rec.size(); tree->put(k, t, present); m[ks] = t; break; }
      case GET: {
        TID got = tree->lookup(k), want = present ? it->second : 0; hits += present;
        PBT_CHECK(got == want, "lookup of %s gives record %llu, expected %llu", keys::hex(ks).c_str(), (unsigned long long)got, (unsigned long long)want);
        break;
      }
      case DEL: {
        TID t = present ? it->second : 0;
        if (!present) { g_rec.push_back(ks); t = g_rec.size(); }   // a record for this key that the tree does not hold
        int r = tree->remove(k, t);
        PBT_CHECK(r < 0 || r == (int)present, "remove of %s returned %d, key was %s", keys::hex(ks).c_str(), r, present ? "present" : "absent");
        if (present) { m.erase(it); ++dels; }
        Key k2; setKey(k2, ks); TID got = tree->lookup(k2);
        PBT_CHECK(got == 0, "key %s is still found (record %llu) after its removal", keys::hex(ks).c_str(), (unsigned long long)got);
        break;
      }
      case DELW: {  // remove naming another record for the same key: must not remove
        if (!present) break;
        g_rec.push_back(ks); TID t = g_rec.size();
        int r = tree->remove(k, t);
        PBT_CHECK(r <= 0, "remove of %s with a record it does not hold returned true", keys::hex(ks).c_str());
        TID got = tree->lookup(k);
        PBT_CHECK(got == it->second, "remove with another record changed key %s: %llu, expected %llu", keys::hex(ks).c_str(), (unsigned long long)got, (unsigned long long)it->second);
        break;
      }
      case UPD: {
#ifdef OPTIQL
        g_rec.push_back(ks); TID t = g_rec.size();
        bool r = tree->update(k, t); PBT_CHECK(r == present, "update of %s returned %d, key was %s", keys::hex(ks).c_str(), r, present ? "present" : "absent");
        if (present) it->second = t;
#endif
        break;
      }
      case SWEEP: sweep(); break;
      case HOT: {   // many updates of one key: the contention-driven expansion of its node
#ifdef OPTIQL
        if (!present) break;
        for (int q = 0; q < 13000; ++q) {
          if (q < 2) g_rec.push_back(ks);
          TID t = g_rec.size() - (q & 1); bool r = tree->update(k, t); PBT_CHECK(r, "update of present key %s returned false", keys::hex(ks).c_str()); it->second = t;
        }
        o.mark("hot_keys");
#endif
        break;
      }
      case RANGE: {
        std::string es = key_of(c, op.b); if (es < ks) std::swap(ks, es);
        Key s, e; setKey(s, ks); setKey(e, es); size_t lim = op.c; if (!lim) lim = 1;
        std::vector<TID> want; auto i2 = m.lower_bound(ks);
        for (; i2 != m.end() && i2->first < es && want.size() < lim; ++i2) want.push_back(i2->second);
        bool more = i2 != m.end() && i2->first < es;
        std::vector<TID> got(lim + 1, 0); size_t f = 0; Key ck;
        bool r = tree->range(s, e, ck, got.data(), lim, f);
        PBT_CHECK(f <= lim, "range returned %zu results for a limit of %zu", f, lim);
        got.resize(f); ++rg; rgfull += !want.empty();
        if (got != want) {
          std::string t = "range [" + keys::hex(ks) + ", " + keys::hex(es) + ") limit " + std::to_string(lim) + " of " + std::to_string(m.size()) + " keys returned"; 
          for (size_t q = 0; q < got.size() && q < 20; ++q) t += " " + keys::hex(g_rec[got[q] - 1]); t += "; expected"; for (size_t q = 0; q < want.size() && q < 20; ++q) t += " " + keys::hex(g_rec[want[q] - 1]);
          pbt::fail("%s", t.c_str());
        }
        PBT_CHECK(r == more, "range reported more=%d, expected %d", r, more);
        if (more) { std::string cs((char*)&ck[0], ck.getKeyLen()); PBT_CHECK(cs == i2->first, "continuation key is %s, expected %s", keys::hex(cs).c_str(), keys::hex(i2->first).c_str()); ++cont; }
        break;
      }
      case FROM: {
#ifdef OPTIQL
        Key s; setKey(s, ks); size_t lim = op.c ? op.c : 1;
        std::vector<TID> want; for (auto i2 = m.lower_bound(ks); i2 != m.end() && want.size() < lim; ++i2) want.push_back(i2->second);
        std::vector<TID> got(lim + 1, 0); size_t f = 0; tree->from(s, got.data(), lim, f); ++rg; rgfull += !want.empty();
        PBT_CHECK(f <= lim, "scan returned %zu results for a limit of %zu", f, lim);
        got.resize(f);
        if (got != want) {
          std::string t = "scan from " + keys::hex(ks) + " limit " + std::to_string(lim) + " of " + std::to_string(m.size()) + " keys returned"; 
          for (size_t q = 0; q < got.size() && q < 20; ++q) t += " " + keys::hex(g_rec[got[q] - 1]); t += "; expected"; for (size_t q = 0; q < want.size() && q < 20; ++q) t += " " + keys::hex(g_rec[want[q] - 1]);
          pbt::fail("%s", t.c_str());
        }
#endif
        break;
      }
    }
    maxn = std::max(maxn, m.size());
  }
  o.mark("gets_hit", hits); o.mark("removals", dels); o.mark("ranges", rg); o.mark("ranges_nonempty", rgfull); o.mark("ranges_continued", cont);
  if (maxn > 48) o.mark("cases_over_48_keys");
  if (maxn > 256) o.mark("cases_over_256_keys");
#ifdef RANGES
  o.nontrivial(rgfull >= 1);
#else
  o.nontrivial(maxn >= 5 && dels >= 1 && hits >= 1);
#endif
  delete tree;
}
#ifdef RANGES
#define RULE "histories of insert/update/remove with range queries between them over a pool of keys (8 key shapes); non-trivial: at least one range query with a non-empty answer"
PBT_HARNESS(i, {"ranges_int", RULE, {"put", "get", "del", "del_other", "range", "upd", "sweep", "from", "hot"}, [](Rng& r, int s) { return gen(r, s, true, false); }, run});
PBT_HARNESS(s, {"ranges_str", RULE, {"put", "get", "del", "del_other", "range", "upd", "sweep", "from", "hot"}, [](Rng& r, int s) { return gen(r, s, true, true); }, run});
#else
#define RULE "histories of insert/overwrite/lookup/remove in insert-heavy and remove-heavy phases over a pool of keys (8 key shapes); non-trivial: at least 5 keys at once, a removal and a hit"
PBT_HARNESS(i, {"map_int", RULE, {"put", "get", "del", "del_other", "range", "upd", "sweep", "from", "hot"}, [](Rng& r, int s) { return gen(r, s, false, false); }, run});
PBT_HARNESS(s, {"map_str", RULE, {"put", "get", "del", "del_other", "range", "upd", "sweep", "from", "hot"}, [](Rng& r, int s) { return gen(r, s, false, true); }, run});
#endif
