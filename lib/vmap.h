// Sequential histories of an ordered-map-like index: generation and comparison with a reference map.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "pbt.h"
#include "vconc.h"
#include "vkeys.h"

namespace seqmap {
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng; using conc::Pool;
enum OpKind { PUT, INS, UPD, DEL, GET, SCAN, RSCAN, RANGE, SWEEP, FULL, BULK };
static const std::vector<std::string> kOpNames = {"put", "insert", "update", "remove", "get", "scan", "rscan", "range", "sweep", "full", "bulk"};
using KV = std::pair<std::string, uint64_t>;

struct Caps {
  bool put = true, ins = false, upd = false, del = false, scan = false, rscan = false, range = false, full = false;
  bool strings = false; size_t maxkey = 100; bool nul = false;
  unsigned scan_weight = 2; unsigned max_pool = 800; unsigned max_ops = 3000;
};
inline conc::Caps poolcaps(const Caps& c) { conc::Caps p; p.strings = c.strings; p.maxkey = c.maxkey; p.nul = c.nul; return p; }

// cfg: 0-2 unused, 3 key mode, 4 key seed, 5 pool, 6.. adapter
inline Case gen(Rng& r, int size, const Caps& cp, std::vector<uint64_t> extra = {}) {
  Case c;
  uint64_t pool = r.chance(1, 4) ? r.range(2, 12) : r.chance(1, 2) ? r.range(10, 80) : r.range(50, cp.max_pool);
  c.cfg = {0, 0, 0, r.below(8), r.below(1000), pool};
  for (auto x : extra) c.cfg.push_back(x);
  size_t n = r.range(2, std::min<uint64_t>(cp.max_ops, 20 + (size_t)size * size * 3 / 10));
  c.thr.resize(1); auto& v = c.thr[0];
  unsigned sc = cp.scan || cp.range ? cp.scan_weight : 0;
  int phase = 0, dir = 0; size_t left = 0; uint64_t cur = 0;
  if (pool > 300 ? r.chance(2, 3) : r.chance(1, 3)) { // bulk prefix, kept as one operation per key so that it shrinks
    uint64_t m = std::min<uint64_t>(cp.max_ops, r.chance(1, 2) ? r.range(1, pool) : r.range(pool / 3 + 1, pool)); int d = r.weighted({1, 1, 2});
    for (uint64_t i = 0; i < m; ++i) v.push_back({(uint32_t)(cp.put ? PUT : INS), d == 0 ? i : d == 1 ? pool - 1 - i : r.below(pool), 0, 0});
  }
  for (size_t i = 0; i < n; ++i) {
    if (!left) { phase = r.weighted({5, cp.del ? 3u : 0u, 2}); dir = r.weighted({3, 2, 2, 1}); left = r.range(5, 200); cur = r.below(pool); }
    --left;
    uint64_t a = dir == 0 ? r.below(pool) : dir == 1 ? (cur + 1) % pool : dir == 2 ? (cur + pool - 1) % pool : (cur + 1 + pool / 7) % pool; cur = a;
    unsigned p = cp.put, in = cp.ins, u = cp.upd, d = cp.del; int k;
    unsigned s = sc * cp.scan, rs = sc * cp.rscan, rg = sc * cp.range;
    if (phase == 0) k = r.weighted({6 * p, 6 * in, 2 * u, d, 4, s, rs, rg});
    else if (phase == 1) k = r.weighted({p, in, u, 12 * d, 4, s, rs, rg});
    else k = r.weighted({4 * p, 4 * in, 3 * u, 4 * d, 4, s, rs, rg});
    v.push_back({(uint32_t)k, a, r.below(pool), r.chance(1, 3) ? r.range(1, 6) : r.range(1, 200)});
    if (r.chance(1, 400)) v.push_back({(uint32_t)(cp.full && r.chance(1, 2) ? FULL : SWEEP), 0, 0, 0});
  }
  v.push_back({SWEEP, 0, 0, 0}); if (cp.full) v.push_back({FULL, 0, 0, 0});
  return c;
}

inline std::string showkvs(const std::vector<KV>& v, size_t n = 12) {
  std::string s; for (size_t i = 0; i < v.size() && i < n; ++i) s += " " + keys::hex(v[i].first) + "=" + std::to_string(v[i].second); if (v.size() > n) s += " ...(" + std::to_string(v.size()) + ")"; return s.empty() ? " nothing" : s;
}
#define SM_EQ(got, want, ...) do { if ((got) != (want)) { char b_[600]; snprintf(b_, sizeof b_, __VA_ARGS__); pbt::fail("%s: got%s; expected%s", b_, seqmap::showkvs(got).c_str(), seqmap::showkvs(want).c_str()); } } while (0)

// A(const Case&, const Pool&): put(id,v) ->int (1 replaced, 0 new, -1 unknown), ins, upd, del, get(id,&v), scan(id,n,out), rscan(id,n,out), range(id1,id2,out), full(out), check(model)
// Everything works on pool ids; outputs are (key bytes, value).
template <class A> void run(const Case& c, Obs& o, const Caps& cp) {
  Pool P(c, poolcaps(cp));
  A ad(c, P);
  std::map<std::string, uint64_t> m; uint64_t uniq = 1, dels = 0, hits = 0, scans = 0, sfull = 0; size_t maxn = 0;
  auto S = [&](uint64_t id) { return keys::hex(P.key[id]); };
  auto look = [&](uint64_t id, const char* when) {
    uint64_t v = 0; bool f = ad.get(id, v); auto it = m.find(P.key[id]);
    PBT_CHECK(f == (it != m.end()), "%s of %s: found=%d but the key is %s", when, S(id).c_str(), f, it != m.end() ? "present" : "absent");
    if (f) { ++hits; PBT_CHECK(v == it->second, "%s of %s gives %llu, expected %llu", when, S(id).c_str(), (unsigned long long)v, (unsigned long long)it->second); }
  };
  for (auto& op : c.thr.empty() ? pbt::Ops{} : c.thr[0]) {
    uint64_t id = P.id(op.a), v = uniq++; const std::string& ks = P.key[id]; auto it = m.find(ks); bool present = it != m.end();
    switch (op.k) {
      case PUT: { int r = ad.put(id, v); PBT_CHECK(r < 0 || r == (int)present, "put of %s says replaced=%d, key was %s", S(id).c_str(), r, present ? "present" : "absent"); m[ks] = v; break; }
      case INS: { bool r = ad.ins(id, v); PBT_CHECK(r == !present, "insert of %s returned %d, key was %s", S(id).c_str(), r, present ? "present" : "absent"); if (r) m[ks] = v; else look(id, "lookup after a refused insert"); break; }
      case UPD: { bool r = ad.upd(id, v); PBT_CHECK(r == present, "update of %s returned %d, key was %s", S(id).c_str(), r, present ? "present" : "absent"); if (r) m[ks] = v; break; }
      case DEL: { int r = ad.del(id); PBT_CHECK(r < 0 || r == (int)present, "remove of %s returned %d, key was %s", S(id).c_str(), r, present ? "present" : "absent"); if (present) { m.erase(it); ++dels; } look(id, "lookup after removal"); break; }
      case GET: look(id, "lookup"); break;
      case SCAN: {
        std::vector<KV> got, want; size_t lim = op.c; ad.scan(id, lim, got); ++scans;
        for (auto i = m.lower_bound(ks); i != m.end() && want.size() < lim; ++i) want.push_back(*i);
        sfull += !want.empty(); SM_EQ(got, want, "scan from %s limit %zu of %zu keys", S(id).c_str(), lim, m.size()); break;
      }
      case RSCAN: {
        std::vector<KV> got, want; size_t lim = op.c; ad.rscan(id, lim, got); ++scans;
        auto i = m.upper_bound(ks); while (i != m.begin() && want.size() < lim) { --i; want.push_back(*i); }
        sfull += !want.empty(); SM_EQ(got, want, "reverse scan from %s limit %zu of %zu keys", S(id).c_str(), lim, m.size()); break;
      }
      case RANGE: {
        uint64_t id2 = P.id(op.b); std::vector<KV> got, want; ad.range(id, id2, got); ++scans;
        for (auto i = m.lower_bound(ks); i != m.end() && i->first < P.key[id2]; ++i) want.push_back(*i);
        sfull += !want.empty(); SM_EQ(got, want, "range [%s, %s) of %zu keys", S(id).c_str(), S(id2).c_str(), m.size()); break;
      }
      case SWEEP: for (uint64_t i = 0; i < P.key.size(); ++i) look(i, "lookup (sweep)"); break;
      case FULL: { std::vector<KV> got, want(m.begin(), m.end()); ad.full(got); SM_EQ(got, want, "full traversal of %zu keys", m.size()); break; }
    }
    maxn = std::max(maxn, m.size());
  }
  ad.check(m);
  o.mark("lookups_hit", hits); o.mark("removals", dels); o.mark("scans", scans); o.mark("scans_nonempty", sfull);
  if (maxn > 64) o.mark("cases_over_64_keys"); if (maxn > 300) o.mark("cases_over_300_keys");
  o.nontrivial(maxn >= 5 && hits >= 1 && (!cp.del || dels >= 1) && (!(cp.scan || cp.range) || sfull >= 1));
}
// defaults for what an index does not offer
struct Base {
  int put(uint64_t, uint64_t) { return -1; } bool ins(uint64_t, uint64_t) { return false; } bool upd(uint64_t, uint64_t) { return false; } int del(uint64_t) { return -1; }
  void scan(uint64_t, size_t, std::vector<KV>&) {} void rscan(uint64_t, size_t, std::vector<KV>&) {} void range(uint64_t, uint64_t, std::vector<KV>&) {} void full(std::vector<KV>&) {}
  void check(const std::map<std::string, uint64_t>&) {}
};
#define SEQ_RULE "operation histories over a pool of keys (8 key shapes; ascending, descending, random and strided phases; insert-heavy, remove-heavy and mixed) compared with a reference ordered map after every operation; non-trivial: at least 5 keys at once and at least one hit, plus a removal and a non-empty scan where the interface has them"
}  // namespace seqmap
