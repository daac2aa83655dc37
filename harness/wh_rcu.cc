// Wormhole lib.c: quiescent-state reclamation and the slab allocator.
#include <algorithm>
#include <csignal>
#include <cstring>
#include <map>
#include <memory>
#include <set>
extern "C" {
#include "lib.h"
}
#include <atomic>
#include "pbt.h"
#include "vsched.h"
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng;
namespace {
void sigs() { for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL); }
// ---- QSBR. Objects are numbered by version; a writer replaces the current one, waits, and retires the old one.
enum { USE, UPDATE, PARK, REREG, REPLACE };
const std::vector<std::string> kQ = {"use", "update", "park", "rereg", "replace"};
Case qgen(Rng& r, int size, bool ctl) {
  Case c; c.cfg = {ctl ? 1u : 0u, r.next() & 0xffffffff, r.below(32), r.below(4)}; int nt = (int)r.range(2, ctl ? 4 : 6); c.thr.resize(nt + 1);
  for (int t = 1; t <= nt; ++t) { bool wr = t == 1 || r.chance(1, 4); for (size_t i = ctl ? r.range(1, 6 + size / 4) : r.range(10, 80); i; --i) c.thr[t].push_back({(uint32_t)(wr ? r.weighted({2, 3, 1, 2, 6}) : r.weighted({6, 6, 3, 3, 0})), r.below(8), 0, 0}); }
  return c;
}
std::atomic<int>* alive; std::atomic<uint64_t> cur; pthread_mutex_t wmx = PTHREAD_MUTEX_INITIALIZER;
void qrun(const Case& c, Obs& o) {
  sigs(); size_t total = 2; for (auto& t : c.thr) total += t.size(); alive = new std::atomic<int>[total + 2](); cur = 1; alive[1] = 1; std::atomic<uint64_t> repl{0}, uses{0}, held{0}, regs{0};
  qsbr* q = qsbr_create(); PBT_CHECK(q, "qsbr_create");
  auto body = [&](int t) {
    std::unique_ptr<qsbr_ref> ref(new qsbr_ref); auto reg = [&] { PBT_CHECK(qsbr_register(q, ref.get()), "qsbr_register failed with few references"); ++regs; }; auto upd = [&] { qsbr_update(ref.get(), cur.load()); };
    auto use = [&](uint64_t n) { uint64_t v = cur.load(); for (uint64_t i = 0; i <= n; ++i) { PBT_CHECK(alive[v] == 1, "object %llu was retired while a registered reader may use it (since its last announcement)", (unsigned long long)v); sched::yield_point(); } ++uses; };
    reg(); upd();
    for (const Op& op : c.thr[t]) switch (op.k) {
      case USE: use(op.a); if (op.a & 1) upd(); break;
      case UPDATE: upd(); use(op.a); break;
      case PARK: qsbr_park(ref.get()); for (uint64_t i = 0; i < op.a; ++i) sched::yield_point(); qsbr_resume(ref.get()); upd(); break;
      case REREG: qsbr_unregister(q, ref.get()); if (op.a & 1) ref.reset(new qsbr_ref); for (uint64_t i = 0; i < op.a; ++i) sched::yield_point(); reg(); upd(); break;
      case REPLACE: {
        // writers are serialised; a writer's own reference is parked or announces first
        qsbr_park(ref.get()); pthread_mutex_lock(&wmx); uint64_t v = cur.load(); alive[v + 1] = 1; cur = v + 1; ++held; qsbr_wait(q, v + 1); --held; alive[v] = 0; ++repl; pthread_mutex_unlock(&wmx); qsbr_resume(ref.get()); upd(); break;
      }
    }
    qsbr_unregister(q, ref.get());
  };
  std::vector<std::function<void()>> b; for (size_t t = 1; t < c.thr.size(); ++t) b.push_back([&, t] { body((int)t); });
  auto st = sched::run(sched::plan(c.c(0) & 1, c.c(1), c.c(2)), b);
  { std::vector<std::unique_ptr<qsbr_ref>> many; size_t n = 0; for (; n < 2000; ++n) { many.emplace_back(new qsbr_ref); if (!qsbr_register(q, many.back().get())) { many.pop_back(); break; } } PBT_CHECK(n >= 23, "only %zu references fit", n); for (auto& m : many) { qsbr_update(m.get(), 77); } qsbr_wait(q, 77); for (auto& m : many) qsbr_unregister(q, m.get()); qsbr_wait(q, 78); }
  qsbr_destroy(q); o.mark("replacements", repl); o.mark("uses", uses); o.mark("registrations", regs); o.mark("switches", st.switches); o.nontrivial(repl && uses); delete[] alive;
}
const char* kQR = "2-4 threads (2-6 in free runs) use, announce, park, register again and replace a versioned object; no object may be retired while a reader can hold it; non-trivial = at least one replacement and one use";
// ---- slab
enum { ALLOC, FREE, FREEALL, RESERVE };
const std::vector<std::string> kS = {"alloc", "free", "free_all", "reserve"};
Case sgen(Rng& r, int size, int mode) {  // mode 0 unsafe sequential, 1 controlled, 2 free
  Case c; c.cfg = {mode == 1 ? 1u : 0u, r.next() & 0xffffffff, r.below(32), r.below(12), r.below(4), (uint64_t)mode}; int nt = mode == 0 ? 1 : (int)r.range(2, mode == 1 ? 4 : 6); c.thr.resize(nt + 1);
  unsigned fr = r.below(3); for (int t = 1; t <= nt; ++t) for (size_t i = mode == 0 ? r.range(1, 30 + size * 10) : mode == 1 ? r.range(1, 10 + size / 2) : r.range(10, 300); i; --i) c.thr[t].push_back({(uint32_t)(mode ? r.weighted({5, 2 + fr * 2}) : r.weighted({60, 20 + fr * 20, 1, 2})), r.next() & 0xffff, 0, 0});
  return c;
}
void srun(const Case& c, Obs& o) {
  sigs(); static const uint64_t sizes[] = {8, 16, 24, 32, 40, 64, 96, 128, 256, 520, 1024, 2048}, blks[] = {4096, 8192, 16384, 4096}; uint64_t sz = sizes[c.c(3) % 12], bs = blks[c.c(4) % 4]; int mode = (int)c.c(5); std::atomic<uint64_t> na{0}, nf{0};
  PBT_CHECK(!slab_create(0, 4096) && !slab_create(12, 4096) && !slab_create(16, 2048) && !slab_create(16, 6000) && !slab_create(4096, 4096) && !slab_create(4104, 4096), "slab_create accepts a size it cannot serve");
  slab* s = slab_create(sz, bs); PBT_CHECK(s, "slab_create(%llu, %llu)", (unsigned long long)sz, (unsigned long long)bs); bool pow2 = !(sz & (sz - 1)); static std::atomic<uint64_t> tagc; tagc = 1; std::vector<std::vector<std::pair<volatile uint64_t*, uint64_t>>> own(c.thr.size());
  auto stamp = [&](volatile uint64_t* p, uint64_t tag) { p[0] = tag; p[sz / 8 - 1] = tag; }; auto chk = [&](volatile uint64_t* p, uint64_t tag) { PBT_CHECK(p[0] == tag && p[sz / 8 - 1] == tag, "an allocated object was overwritten: it is in somebody else's hands too"); };
  auto body = [&](int t) {
    auto& mine = own[t];
    for (const Op& op : c.thr[t]) switch (op.k) {
      case ALLOC: {
        auto* p = (volatile uint64_t*)(mode ? slab_alloc_safe(s) : slab_alloc_unsafe(s)); PBT_CHECK(p, "allocation failed"); PBT_CHECK((uintptr_t)p % (pow2 ? sz : 8) == 0, "object of size %llu at %p is not aligned", (unsigned long long)sz, (void*)p); ++na;
        uint64_t tag = tagc.fetch_add(1) << 8 | 1; stamp(p, tag); mine.push_back({p, tag}); chk(p, tag); break;
      }
      case FREE: if (!mine.empty()) { size_t i = op.a % mine.size(); chk(mine[i].first, mine[i].second); void* p = (void*)mine[i].first; mine[i] = mine.back(); mine.pop_back(); if (mode) slab_free_safe(s, p); else slab_free_unsafe(s, p); ++nf; } break;
      case FREEALL: slab_free_all(s); mine.clear(); PBT_CHECK(slab_get_nalloc(s) == 0, "objects remain after free_all"); break;
      case RESERVE: PBT_CHECK(slab_reserve_unsafe(s, op.a % 200), "reserve"); break;
    }
    for (auto& m : mine) chk(m.first, m.second);
  };
  if (mode == 0) { body(1); }
  else { std::vector<std::function<void()>> b; for (size_t t = 1; t < c.thr.size(); ++t) b.push_back([&, t] { body((int)t); }); auto st = sched::run(sched::plan(c.c(0) & 1, c.c(1), c.c(2)), b); o.mark("switches", st.switches); }
  uint64_t live = 0; std::vector<std::pair<uintptr_t, uintptr_t>> iv; for (auto& m : own) for (auto& x : m) { chk(x.first, x.second); ++live; iv.push_back({(uintptr_t)x.first, (uintptr_t)x.first + sz}); }
  std::sort(iv.begin(), iv.end()); for (size_t i = 1; i < iv.size(); ++i) PBT_CHECK(iv[i].first >= iv[i - 1].second, "two live objects overlap"); PBT_CHECK(slab_get_nalloc(s) == live, "slab_get_nalloc says %llu, %llu are live", (unsigned long long)slab_get_nalloc(s), (unsigned long long)live);
  slab_destroy(s); o.mark("allocations", na); o.mark("frees", nf); o.nontrivial(na > 1 && nf);
}
const char* kSR = "objects of a generated size are allocated and freed through one slab (unsafe by one thread, safe by several under a generated schedule); live objects never overlap or change, counts agree; non-trivial = several allocations and a free";
PBT_HARNESS(a, {"sched_qsbr", kQR, kQ, [](Rng& r, int s) { return qgen(r, s, true); }, qrun, 6, false, 30});
PBT_HARNESS(b, {"free_qsbr", kQR, kQ, [](Rng& r, int s) { return qgen(r, s, false); }, qrun, 2, true, 30});
PBT_HARNESS(d, {"slab_unsafe", kSR, kS, [](Rng& r, int s) { return sgen(r, s, 0); }, srun, 2});
PBT_HARNESS(e, {"sched_slab", kSR, kS, [](Rng& r, int s) { return sgen(r, s, 1); }, srun, 5, false, 30});
PBT_HARNESS(f, {"free_slab", kSR, kS, [](Rng& r, int s) { return sgen(r, s, 2); }, srun, 2, true, 30});
}
