// Concurrent histories of a map-like index: generation, execution under a generated schedule (or in real
// parallelism), and the oracle: per-key linearizability plus scan rules.
#pragma once
#include <algorithm>
#include <map>
#include <string>
#include <vector>
#include "pbt.h"
#include "vkeys.h"
#include "vlin.h"
#include "vsched.h"

namespace conc {
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng;

enum OpKind { O_PUT, O_INS, O_UPD, O_DEL, O_GET, O_SCAN, O_RSCAN };
static const std::vector<std::string> kOpNames = {"put", "insert", "update", "remove", "get", "scan", "rscan"};

struct ScanRes { uint64_t inv, res; uint64_t start; size_t limit; bool rev = false; std::vector<std::pair<uint64_t, uint64_t>> out; bool to_end = true; bool first = false; int thread = 0; };  // first: nothing returned means nothing was there  // out: (key id, value)

struct Caps { bool put = true, ins = false, upd = false, del = false, scan = false, rscan = false; bool strings = false; size_t maxkey = 100; bool nul = false; unsigned max_ops = 300; unsigned growth = 0; unsigned deep = 8; };

// cfg: 0 controlled, 1 schedule seed, 2 style, 3 key mode, 4 key seed, 5 pool, 6.. adapter
inline Case gen(Rng& r, int size, bool controlled, const Caps& cp, std::vector<uint64_t> extra = {}) {
  Case c; bool small = r.chance(1, 2);
  uint64_t pool = small ? r.range(1, 10) : r.range(8, 30 + (uint64_t)size * 12);
  c.cfg = {controlled ? 1u : 0u, r.next() & 0xffffffff, r.below(32), r.below(8), r.below(1000), pool};
  for (auto x : extra) c.cfg.push_back(x);
  int nt = controlled ? (int)r.range(2, 4) : (int)r.range(2, 6);
  c.thr.resize(1 + nt);
  unsigned pre = r.weighted({2, 2, 3}) * 50;
  for (uint64_t i = 0; i < pool; ++i) if (r.chance(pre, 100)) c.thr[0].push_back({O_PUT, i, 0, 0});
  if (r.chance(1, 2)) for (size_t i = c.thr[0].size(); i > 1; --i) std::swap(c.thr[0][i - 1], c.thr[0][r.below(i)]);
  if (cp.growth && r.chance(cp.growth, 100)) {
    // growth: one or two threads store key after key (nodes are replaced all the time), the others look on
    pool = r.range(60, 1200); c.cfg[5] = pool; unsigned writers = nt > 2 && r.chance(1, 2) ? 2 : 1; uint64_t step = r.chance(1, 2) ? 1 : 2 * r.below(pool) + 1; c.thr[0].clear();
    for (uint64_t i = 0; i < pool / 8; ++i) c.thr[0].push_back({O_PUT, r.below(pool), 0, 0});
    for (int t = 1; t <= nt; ++t) {
      size_t n = t <= (int)writers ? r.range(50, pool) : r.range(10, 200);
      for (size_t i = 0; i < n; ++i) {
        int k = t <= (int)writers ? (cp.put ? (cp.ins && r.chance(1, 3) ? O_INS : O_PUT) : O_INS) : O_GET;
        if (t > (int)writers && cp.scan && r.chance(1, 4)) k = O_SCAN;
        if (t > (int)writers && cp.rscan && r.chance(1, 4)) k = O_RSCAN;
        c.thr[t].push_back({(uint32_t)k, t <= (int)writers ? (i * step + t * 7) % pool : r.below(pool), r.below(pool), r.range(1, 60)});
      }
    }
    return c;
  }
  if (cp.deep && r.chance(cp.deep, 100)) {
    // deep: a large prefilled structure with regular gaps; the threads fill gaps next to each other (and remove a little)
    uint64_t g = r.range(2, 6), hole = r.below(g), n = r.range(40, 4000 / g), w = r.below(n); bool apart = r.chance(1, 4); unsigned dl = cp.del && r.chance(1, 2) ? r.below(6) : 0;
    pool = g * n; c.cfg[5] = pool; c.thr[0].clear();
    for (uint64_t j = 0; j < g; ++j) if (j != hole) c.thr[0].push_back({O_PUT, j, g, n});
    if (r.chance(1, 2)) for (size_t i = c.thr[0].size(); i > 1; --i) std::swap(c.thr[0][i - 1], c.thr[0][r.below(i)]);
    for (int t = 1; t <= nt; ++t) {
      size_t m = std::min<size_t>(r.range(3, controlled ? 40 : 120), cp.max_ops); uint64_t at = apart ? r.below(n) : w;
      for (size_t i = 0; i < m; ++i) {
        uint64_t a = hole + g * ((at + (apart ? i : i * nt + t)) % n); int k = cp.put && (!cp.ins || r.chance(1, 2)) ? O_PUT : cp.ins ? O_INS : O_PUT;
        if (dl && r.below(10) < dl) { k = O_DEL; if (r.chance(2, 3)) a = (a + r.below(2 * g)) % pool; }
        else if (r.chance(1, 12)) { k = cp.scan && r.chance(1, 3) ? O_SCAN : cp.rscan && r.chance(1, 3) ? O_RSCAN : O_GET; a = r.below(4) ? a : r.below(pool); }
        c.thr[t].push_back({(uint32_t)k, a, r.below(pool), r.range(1, 40)});
      }
    }
    return c;
  }
  if (cp.del && r.chance(1, 10)) {
    // churn: one or two threads add and remove a few keys again and again (nodes are created, folded and
    // reclaimed), the others keep looking at them
    uint64_t few = r.range(1, pool < 5 ? pool : 5), at = r.below(pool); unsigned churners = nt > 2 && r.chance(1, 2) ? 2 : 1;
    for (int t = 1; t <= nt; ++t) {
      size_t n = t <= (int)churners ? r.range(100, 900) : r.range(20, 300);
      for (size_t i = 0; i < n; ++i) {
        uint64_t a = (at + r.below(few)) % pool;
        int k = t <= (int)churners ? (i & 1 ? O_DEL : cp.put ? O_PUT : O_INS) : O_GET;
        if (t <= (int)churners && (i & 1) && r.chance(9, 10)) a = c.thr[t].back().a;
        if (t > (int)churners && cp.scan && r.chance(1, 10)) k = O_SCAN;
        if (t > (int)churners && cp.rscan && r.chance(1, 10)) k = O_RSCAN;
        c.thr[t].push_back({(uint32_t)k, a, r.below(pool), r.range(1, 40)});
      }
    }
    return c;
  }
  for (int t = 1; t <= nt; ++t) {
    // a role per thread: mixed, reader, writer of fresh keys, remover
    int role = r.weighted({4, 2, 2, cp.del ? 2u : 0u});
    size_t n = small ? r.range(1, controlled ? 14 : 40) : r.range(5, controlled ? 10 + size : 40 + size * 4);
    if (n > cp.max_ops) n = cp.max_ops;
    uint64_t cursor = r.below(pool), step = r.chance(1, 2) ? 1 : r.range(1, 17);
    for (size_t i = 0; i < n; ++i) {
      uint64_t a = role && !small && r.chance(2, 3) ? (cursor += step) % pool : r.below(pool);
      unsigned wp = cp.put, wi = cp.ins, wu = cp.upd, wd = cp.del, ws = cp.scan, wr = cp.rscan;
      int k;
      if (role == 0) k = r.weighted({4 * wp, 3 * wi, 2 * wu, 3 * wd, 5, ws, wr});
      else if (role == 1) k = r.weighted({0, 0, 0, 0, 6, 2 * ws, 2 * wr});
      else if (role == 2) k = r.weighted({5 * wp, 5 * wi, 2 * wu, 0, 1, 0, 0});
      else k = r.weighted({wp, wi, 0, 6 * wd, 1, 0, 0});
      c.thr[t].push_back({(uint32_t)k, a, r.below(pool), r.range(1, 40)});
    }
  }
  return c;
}

struct Pool {
  std::vector<std::string> key;      // id -> key bytes (ints: big-endian 8 bytes)
  std::vector<uint64_t> num;
  std::vector<uint64_t> canon;       // index -> id
  std::map<std::string, uint64_t> ids;
  Pool(const Case& c, const Caps& cp) {
    uint64_t n = std::max<uint64_t>(1, c.c(5, 1));
    for (uint64_t i = 0; i < n; ++i) {
      uint64_t v = keys::ikey(c.c(3), c.c(4), i);
      std::string s = cp.strings ? keys::skey(c.c(3), c.c(4), i, cp.maxkey, cp.nul) : keys::be64(v);
      auto it = ids.find(s);
      if (it == ids.end()) { ids[s] = key.size(); canon.push_back(key.size()); key.push_back(s); num.push_back(v); }
      else canon.push_back(it->second);
    }
  }
  uint64_t id(uint64_t i) const { return canon[i % canon.size()]; }
};

// A: A(const Case&, const Pool&); tbegin(t), tend(t);
//    void put(id, v); bool ins(id, v); bool upd(id, v); int del(id) / via delv; bool get(id, &v); void scan(ScanRes&)
template <class A> void run(const Case& c, Obs& o, const Caps& cp) {
  Pool P(c, cp);
  A ad(c, P);
  std::map<uint64_t, uint64_t> init; std::vector<lin::Ev> all; std::vector<ScanRes> scans;
  uint64_t uniq = 1;
  auto val = [&](uint64_t id, uint64_t u) { return ((id + 1) << 24) | u; };
  ad.tbegin(0);
  if (!c.thr.empty())
    for (auto& op : c.thr[0]) for (uint64_t q = 0; q < std::max<uint64_t>(1, std::min<uint64_t>(op.c, 5000)); ++q) { uint64_t id = P.id(op.a + q * op.b), v = val(id, uniq++); if (init.count(id)) continue; ad.fill(id, v); init[id] = v; }
  int nt = c.thr.empty() ? 0 : (int)c.thr.size() - 1;
  std::vector<std::vector<lin::Ev>> hist(nt); std::vector<std::vector<ScanRes>> sh(nt);
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < nt; ++t) {
    hist[t].reserve(c.thr[t + 1].size() * 3 + 4);
    uint64_t base = uniq; uniq += c.thr[t + 1].size();
    bodies.push_back([&, t, base] {
      ad.tbegin(t + 1);
      uint64_t u = base;
      for (auto& op : c.thr[t + 1]) {
        uint64_t id = P.id(op.a), v = val(id, u++);
        lin::Ev e; e.thread = t; e.key = id; e.arg = v;
        sched::yield_point();
        switch (op.k) {
          case O_PUT: e.k = lin::PUT; e.inv = sched::stamp(); ad.put(id, v, e); e.res = sched::stamp(); break;
          case O_INS: e.k = lin::INS; e.inv = sched::stamp(); e.ok = ad.ins(id, v); e.res = sched::stamp(); break;
          case O_UPD: e.k = lin::UPD; e.inv = sched::stamp(); e.ok = ad.upd(id, v); e.res = sched::stamp(); break;
          case O_GET: e.k = lin::GET; e.arg = 0; e.inv = sched::stamp(); e.ok = ad.get(id, e.ret); e.res = sched::stamp(); break;
          case O_DEL: {
            if (A::kDelByValue) {
              lin::Ev g; g.thread = t; g.key = id; g.k = lin::GET; g.inv = sched::stamp(); g.ok = ad.get(id, g.ret); g.res = sched::stamp();
              hist[t].push_back(g);
              if (!g.ok) continue;
              e.k = lin::DELV; e.arg = g.ret;
            } else { e.k = lin::DEL; e.arg = 0; }
            e.inv = sched::stamp(); int r = ad.del(id, e.arg); e.res = sched::stamp(); e.okknown = r >= 0; e.ok = r > 0;
            break;
          }
          case O_SCAN: case O_RSCAN: {
            ScanRes s; s.start = id; s.limit = op.c; s.rev = op.k == O_RSCAN; s.thread = t; s.inv = sched::stamp(); ad.scan(s); s.res = sched::stamp(); sh[t].push_back(s);
            continue;
          }
          default: continue;
        }
        hist[t].push_back(e);
      }
      ad.tend(t + 1);
    });
  }
  sched::Stats st = sched::run(sched::plan(c.c(0) != 0, c.c(1), c.c(2)), bodies);
  o.mark("schedule_points", st.points); o.mark("context_switches", st.switches);
  ad.quiesce();
  for (auto& h : hist) for (auto& e : h) all.push_back(e);
  for (auto& s : sh) for (auto& x : s) scans.push_back(x);
  for (uint64_t id = 0; id < P.key.size(); ++id) {   // the final state
    lin::Ev e; e.k = lin::GET; e.thread = 99; e.key = id; e.inv = sched::stamp(); e.ok = ad.get(id, e.ret); e.res = sched::stamp(); all.push_back(e);
  }
  if (cp.scan) { ScanRes s; s.start = 0; for (uint64_t id = 1; id < P.key.size(); ++id) if (P.key[id] < P.key[s.start]) s.start = id; s.limit = P.key.size() + 5; s.thread = 99; s.inv = sched::stamp(); ad.scan(s); s.res = sched::stamp(); scans.push_back(s); }
  ad.tend(0);
  for (auto& e : all) if (e.k == lin::GET && e.ok && !e.wild)
    PBT_CHECK((e.ret >> 24) == e.key + 1, "lookup of key %llu returned a value never written for it (%llu)", (unsigned long long)e.key, (unsigned long long)e.ret);
  lin::check(all, init, &o);
  // scans
  std::map<uint64_t, std::vector<const lin::Ev*>> by; for (auto& e : all) by[e.key].push_back(&e);
  for (auto& s : scans) {
    o.mark("scans"); if (!s.out.empty()) o.mark("scans_nonempty");
    std::map<uint64_t, uint64_t> got;
    for (size_t i = 0; i < s.out.size(); ++i) {
      auto& kv = s.out[i]; const std::string& k = P.key[kv.first];
      PBT_CHECK(s.rev ? k <= P.key[s.start] : k >= P.key[s.start], "scan by t%d from %s returned %s, which lies outside", s.thread, keys::hex(P.key[s.start]).c_str(), keys::hex(k).c_str());
      if (i) { const std::string& pk = P.key[s.out[i - 1].first]; PBT_CHECK(s.rev ? k < pk : k > pk, "scan by t%d from %s: key %s after %s (order or duplicate)", s.thread, keys::hex(P.key[s.start]).c_str(), keys::hex(k).c_str(), keys::hex(pk).c_str()); }
      got[kv.first] = kv.second;
      // the value: written before the scan ended, not overwritten or removed before it began
      uint64_t wres = 0; bool known = false; auto it = init.find(kv.first);
      if (it != init.end() && it->second == kv.second) known = true;
      for (auto* e : by[kv.first]) if ((e->k == lin::PUT || ((e->k == lin::INS || e->k == lin::UPD) && (e->ok || !e->okknown))) && e->arg == kv.second && e->inv < s.res) { known = true; wres = e->res; }
      PBT_CHECK(known, "scan by t%d returned value %llu for key %s, which nobody had written", s.thread, (unsigned long long)kv.second, keys::hex(k).c_str());
      for (auto* e : by[kv.first]) if ((e->k == lin::PUT || ((e->k == lin::INS || e->k == lin::UPD || e->k == lin::DEL || e->k == lin::DELV) && e->okknown && e->ok)) && e->inv > wres && e->res < s.inv && e->arg != kv.second)
        pbt::fail("scan by t%d returned a stale value %llu for key %s; overwritten by %s before the scan began at %llu", s.thread, (unsigned long long)kv.second, keys::hex(k).c_str(), lin::show(*e).c_str(), (unsigned long long)s.inv);
    }
    // keys present throughout must appear (up to the last key returned when the limit was reached)
    bool full = s.out.size() >= s.limit || !s.to_end;
    for (uint64_t id = 0; id < P.key.size(); ++id) {
      const std::string& k = P.key[id];
      if (s.rev ? k > P.key[s.start] : k < P.key[s.start]) continue;
      if (full && !(s.first && s.out.empty() && s.limit) && (s.out.empty() || (s.rev ? k < P.key[s.out.back().first] : k > P.key[s.out.back().first]))) continue;
      if (got.count(id)) continue;
      // the latest modification that ended before the scan began, with nothing removing from then on
      bool removed = false; bool present = init.count(id) > 0;
      for (auto* e : by[id]) {
        if ((e->k == lin::DEL || e->k == lin::DELV) && (e->ok || !e->okknown)) removed = true;
        if ((e->k == lin::PUT || (e->k == lin::INS && e->ok)) && e->res < s.inv) present = true;
      }
      PBT_CHECK(removed || !present, "scan by t%d [%llu,%llu] from %s missed key %s, which was there throughout", s.thread, (unsigned long long)s.inv, (unsigned long long)s.res, keys::hex(P.key[s.start]).c_str(), keys::hex(k).c_str());
    }
  }
  size_t mut = 0; for (auto& e : all) mut += e.k != lin::GET;
  o.mark("operations", all.size());
  o.nontrivial(o.labels.count("keys_with_overlapping_ops") && mut > 0);
}
#define CONC_RULE "2-6 threads with generated operation lists over a shared key pool, after a generated prefill; the schedule is drawn from the case; non-trivial: some key had operations of two threads overlapping in time, one of them writing"
}  // namespace conc
