// Per-key linearizability of map histories (operations on different keys commute, so a history is
// linearizable iff each key's sub-history is).  Wing-Gong search with memoisation over per-thread progress.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "pbt.h"

namespace lin {
enum Kind { PUT, INS, UPD, DEL, GET, DELV };   // upsert, insert-if-absent, update-if-present, remove, lookup, remove-if-value
struct Ev {
  Kind k; uint64_t key, arg = 0;         // arg: value written
  uint64_t inv = 0, res = 0;
  bool ok = false;                       // INS: inserted; UPD: updated; DEL: removed; GET: found; PUT: see retk
  uint64_t ret = 0;                      // GET: value;  (values are never 0)
  int thread = 0;
  bool okknown = true;                   // false: the API does not say whether it took effect on a present key
  bool wild = false;                     // GET ok with an unspecified value
  bool oldknown = false, retknown = false;   // PUT: ok says whether a value was replaced; ret is that value
};
inline std::string show(const Ev& e) {
  static const char* n[] = {"put", "insert", "update", "remove", "get", "remove-if-value"};
  char b[200];
  snprintf(b, sizeof b, "[%llu,%llu] t%d %s(key %llu%s%llu)%s%s %llu", (unsigned long long)e.inv, (unsigned long long)e.res, e.thread, n[e.k], (unsigned long long)e.key,
           e.k == GET || e.k == DEL ? "; " : ", ", (unsigned long long)e.arg, e.k == PUT ? (!e.oldknown ? "" : e.ok ? " -> replaced" : " -> new") : e.okknown ? (e.ok ? " -> true" : " -> false") : "", e.k == GET && e.ok ? " value" : "", (unsigned long long)e.ret);
  return b;
}
// state: 0 = absent, else the value
inline bool apply(const Ev& e, uint64_t& st) {
  switch (e.k) {
    case PUT: if (e.oldknown && e.ok != (st != 0)) return false; if (e.retknown && e.ok && e.ret != st) return false; st = e.arg; return true;
    case INS: if (e.okknown && e.ok != (st == 0)) return false; if (st == 0) st = e.arg; return true;
    case UPD: if (e.okknown && e.ok != (st != 0)) return false; if (st != 0) st = e.arg; return true;
    case DEL: if (e.okknown && e.ok != (st != 0)) return false; st = 0; return true;
    case DELV: if (e.okknown && e.ok != (st == e.arg)) return false; if (st == e.arg) st = 0; return true;
    case GET: if (e.ok != (st != 0)) return false; return !e.ok || e.wild || st == e.ret;
  }
  return false;
}
// init: value of the key before the concurrent part, 0 = absent. Fails the case when not linearizable.
inline void check(const std::vector<Ev>& all, const std::map<uint64_t, uint64_t>& init, pbt::Obs* o = nullptr) {
  std::map<uint64_t, std::vector<Ev>> by;
  for (auto& e : all) by[e.key].push_back(e);
  for (auto& kv : by) {
    auto& v = kv.second;
    std::sort(v.begin(), v.end(), [](const Ev& a, const Ev& b) { return a.inv < b.inv; });
    // split at quiescent points to stay below 64 operations: a cut is exact only if the state there is
    // known, so carry the set of reachable states instead
    std::set<uint64_t> states; { auto it = init.find(kv.first); states.insert(it == init.end() ? 0 : it->second); }
    size_t i = 0; bool overlap = false;
    while (i < v.size()) {
      size_t j = i; uint64_t mx = 0; std::vector<Ev> seg;
      while (j < v.size() && (j == i || v[j].inv < mx)) { mx = std::max(mx, v[j].res); seg.push_back(v[j]); ++j; }
      if (seg.size() > 1) overlap = true;
      // all end states reachable.  A thread's own operations on a key are sequential, so how far each
      // thread has got identifies the set of operations already applied.
      std::set<uint64_t> next;
      std::map<int, int> tix; std::vector<std::vector<const Ev*>> per;
      for (auto& e : seg) { auto r = tix.insert({e.thread, (int)per.size()}); if (r.second) per.emplace_back(); per[r.first->second].push_back(&e); }
      using St = std::pair<std::vector<uint32_t>, uint64_t>;
      std::set<St> seen; std::vector<St> stack;
      for (uint64_t s : states) stack.push_back({std::vector<uint32_t>(per.size(), 0), s});
      uint64_t guard = 0; bool gaveup = false;
      while (!stack.empty()) {
        St cur = stack.back(); stack.pop_back();
        uint64_t minres = ~0ull; bool alldone = true;
        for (size_t q = 0; q < per.size(); ++q) if (cur.first[q] < per[q].size()) { alldone = false; minres = std::min(minres, per[q][cur.first[q]]->res); }
        if (alldone) { next.insert(cur.second); continue; }
        if (!seen.insert(cur).second) continue;
        if (++guard > 300000) { gaveup = true; break; }
        for (size_t q = 0; q < per.size(); ++q) {
          if (cur.first[q] >= per[q].size()) continue;
          const Ev& e = *per[q][cur.first[q]]; if (e.inv > minres) continue;
          uint64_t s2 = cur.second; if (apply(e, s2)) { St n{cur.first, s2}; n.first[q]++; stack.push_back(std::move(n)); }
        }
      }
      if (gaveup) { if (o) o->mark("lin_gave_up_on_key"); break; }
      if (next.empty()) {
        std::string m = "history of key " + std::to_string(kv.first) + " is not linearizable; before:";
        for (uint64_t s : states) m += " " + (s ? std::to_string(s) : std::string("absent"));
        for (auto& e : seg) m += "\n  " + show(e);
        pbt::fail("%s", m.c_str());
      }
      states.swap(next);
      i = j;
    }
    if (overlap && o) o->mark("keys_with_overlapping_ops");
  }
}
}  // namespace lin
