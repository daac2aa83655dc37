// Lock histories: threads acquire generated kinds of holds on a few locks, alone or nested, under a
// generated schedule.  Oracle: mutual exclusion seen through ghost state and through the protected data,
// no lost update, optimistic reads that validate saw one state, try operations that nothing can have
// disturbed succeed, and everybody finishes.
#pragma once
#include <atomic>
#include <string>
#include <vector>
#include "pbt.h"
#include "vsched.h"
namespace lk {
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng;
enum Mode { NONE = 0, SHARED = 1, EXCL = 2, OPT = 3 };
struct Kind { const char* name; int mode; bool tries; bool down = false; };   // down: turned into a shared hold at the end
static const char* kRule = "2-4 threads (2-6 in free runs) each make up to 60 acquisitions of generated kinds on 1-3 locks, some nested in index order, with sections of 0-6 or 400 steps; the protected pair must be consistent, exclusive sections must exclude everything else, all updates must count; non-trivial = at least two threads acquired, at least one exclusively";
// cfg: 0 controlled, 1 seed, 2 style, 3 locks
inline Case gen(Rng& r, int size, bool controlled, size_t kinds, std::vector<uint64_t> extra = {}) {
  Case c; c.cfg = {controlled ? 1u : 0u, r.next() & 0xffffffff, r.below(32), r.weighted({4, 1, 1}) + 1u}; for (auto x : extra) c.cfg.push_back(x);
  int nt = (int)r.range(2, controlled ? 4 : 6); c.thr.resize(nt + 1);
  for (size_t i = r.below(6); i; --i) c.thr[0].push_back({(uint32_t)r.below(kinds), r.below(3), r.next() & 0xffff, r.below(7)});
  bool few = r.chance(1, 3); uint32_t f1 = r.below(kinds), f2 = r.below(kinds);
  for (int t = 1; t <= nt; ++t)
    for (size_t i = controlled ? r.range(1, 4 + size / 4) : r.range(10, 60); i; --i) c.thr[t].push_back({few ? (r.chance(1, 2) ? f1 : f2) : (uint32_t)r.below(kinds), r.below(3), r.next() & 0xffff, r.below(8) | (r.chance(1, 4) ? 8u : 0u)});
  return c;
}
struct Ghost { std::atomic<int> ex{0}, sh{0}, wr_engaged{0}, engaged{0}; std::atomic<uint64_t> starts{0}, wr_starts{0}, begun{0}, done{0}; volatile uint64_t x = 0, y = 0; };
// A: A(const Case&, int locks); static const std::vector<Kind>& kinds(); tbegin(t), tend(t); Tok;
//    bool acquire(int kind, const Op&, int lock, Tok&); void downgrade(int lock, Tok&); void release(int lock, int mode, Tok&);
//    template<F> bool read(int kind, int lock, F)   (OPT kinds)
template <class A> void run(const Case& c, Obs& o) {
  int nl = (int)(c.c(3, 1) % 4); if (!nl) nl = 1; static Ghost* g; g = new Ghost[4]; static std::atomic<uint64_t> excl, shared, opt, optok, tryfail; excl = shared = opt = optok = tryfail = 0; const auto& K = A::kinds(); std::atomic<int> users{0};
  A ad(c, nl);
  auto steps = [](uint64_t n) { if (n == 7) n = 400; while (n--) sched::yield_point(); };   // 7: a section that outlasts other threads' whole operations
  struct Held { int lock, mode; typename A::Tok tok; };
  auto body = [&](int t) {
    ad.tbegin(t); bool used = false;
    for (const Op& op : c.thr[t]) {
      typename A::Tok toks[2]; int nest = (op.c & 8) && nl > 1 ? 2 : 1, first = (int)(op.a % nl), got[2] = {0, 0}; if (nest == 2 && first == nl - 1) first = 0;
      for (int d = 0; d < nest; ++d) {
        int l = d ? first + 1 : first; uint32_t k = (op.k + d * 5) % K.size(); const Kind& kd = K[k]; Ghost& G = g[l];
        if (kd.mode == OPT) {
          if (d) break;
          uint64_t lo = G.done.load(), a = 0, b = 0; bool ok = ad.read((int)k, l, [&] { a = G.x; steps(op.c & 7); b = G.y; }); uint64_t hi = G.begun.load(); ++opt;
          if (ok) { ++optok; PBT_CHECK(a == b, "%s: a validated read saw a torn pair (%llu, %llu)", kd.name, (unsigned long long)a, (unsigned long long)b); PBT_CHECK(a >= lo && a <= hi, "%s: a validated read saw update %llu although %llu were complete before it and %llu begun when it ended", kd.name, (unsigned long long)a, (unsigned long long)lo, (unsigned long long)hi); }
          else if (c.thr.size() && t == 0) pbt::fail("%s: a read that nothing disturbed did not validate", kd.name);
          break;
        }
        // engaged is raised before starts: whoever comes in after our reading is seen in one or the other
        bool w = kd.mode == EXCL; uint64_t s0 = G.starts.load() + 1, w0 = G.wr_starts.load() + w; bool alone = ++G.engaged == 1; if (w) ++G.wr_engaged; bool nowr = G.wr_engaged.load() == (w ? 1 : 0); if (w) ++G.wr_starts; ++G.starts;
        bool ok = ad.acquire((int)k, op, l, toks[d]);
        if (!ok) {
          ++tryfail; PBT_CHECK(kd.tries, "%s gave up", kd.name);
          PBT_CHECK(!(alone && G.starts.load() == s0), "%s failed although nobody else held or wanted the lock", kd.name);
          PBT_CHECK(w || !(nowr && G.wr_starts.load() == w0), "%s failed although no writer held or wanted the lock", kd.name);
          --G.engaged; if (w) --G.wr_engaged; break;
        }
        got[d] = kd.mode; used = true;
        if (w) {
          ++excl; int e = ++G.ex, s = G.sh.load(); PBT_CHECK(e == 1 && s == 0, "%s: an exclusive hold next to %d other exclusive and %d shared holds", kd.name, e - 1, s);
          ++G.begun; uint64_t a = G.x, b = G.y; PBT_CHECK(a == b, "%s: torn data (%llu, %llu) under an exclusive hold", kd.name, (unsigned long long)a, (unsigned long long)b);
          G.x = a + 1; steps(op.c & 7); PBT_CHECK(G.x == a + 1 && G.y == b, "%s: somebody else wrote during an exclusive hold", kd.name); G.y = b + 1; ++G.done;
        } else {
          ++shared; ++G.sh; int e = G.ex.load(); PBT_CHECK(e == 0, "%s: a shared hold next to an exclusive one", kd.name);
          uint64_t a = G.x; steps(op.c & 7); PBT_CHECK(G.y == a && G.x == a && G.ex.load() == 0, "%s: data changed during a shared hold", kd.name);
        }
      }
      for (int d = nest - 1; d >= 0; --d) if (got[d]) {
        int l = d ? first + 1 : first; const Kind& kd = K[(op.k + d * 5) % K.size()]; Ghost& G = g[l]; int mode = got[d];
        if (mode == EXCL) {
          --G.ex;
          if (kd.down) { ++G.sh; uint64_t a = G.x; ad.downgrade(l, toks[d]); mode = SHARED; --G.wr_engaged; steps(op.c & 7); PBT_CHECK(G.x == a && G.y == a && G.ex.load() == 0, "%s: data changed after the exclusive hold became a shared one", kd.name); --G.sh; ad.release(l, SHARED, toks[d]); --G.engaged; continue; }
        } else --G.sh;
        ad.release(l, mode, toks[d]); if (got[d] == EXCL) --G.wr_engaged; --G.engaged;
      }
    }
    ad.tend(t); if (used) ++users;
  };
  if (!c.thr.empty()) body(0);
  std::vector<std::function<void()>> bodies; for (size_t t = 1; t < c.thr.size(); ++t) bodies.push_back([&, t] { body((int)t); });
  users = 0; auto st = sched::run(sched::plan(c.c(0) & 1, c.c(1), c.c(2)), bodies);
  for (int l = 0; l < nl; ++l) { PBT_CHECK(g[l].x == g[l].done.load() && g[l].y == g[l].x, "%llu exclusive sections ran but the counter says %llu", (unsigned long long)g[l].done.load(), (unsigned long long)g[l].x); PBT_CHECK(ad.idle(l), "the lock is not free after everybody released it"); }
  o.mark("exclusive", excl); o.mark("shared", shared); o.mark("optimistic", opt); o.mark("validated", optok); o.mark("try_failed", tryfail); o.mark("switches", st.switches); if (users >= 2 && excl) o.nontrivial();
  delete[] g;
}
inline std::vector<std::string> names(const std::vector<Kind>& k) { std::vector<std::string> r; for (auto& x : k) r.push_back(x.name); return r; }
}  // namespace lk
