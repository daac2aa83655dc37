// Wormhole: concurrent histories through wormhole_*, whsafe_* and wh_*.
#include <memory>
#include <csignal>
extern "C" {
#include "lib.h"
#include "kv.h"
#include "wh.h"
}
#include "vconc.h"
using namespace conc;
static thread_local void* t_ref; static thread_local bool t_main;
template <int KIND> struct Ad {
  static constexpr bool kDelByValue = false;
  const Pool& P; wormhole* map; const kvmap_api* api = KIND == 0 ? &kvmap_api_wormhole : &kvmap_api_whsafe;
  Ad(const Case&, const Pool& p) : P(p) { for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL); map = KIND == 3 ? wh_create() : wormhole_create(nullptr); }
  ~Ad() { if (KIND == 3) wh_destroy(map); else api->destroy(map); }
  // an idle wormhole_* reference holds up everybody's structural changes, so the main one is parked between operations
  void tbegin(int t) { t_main = t == 0; t_ref = KIND == 3 ? (void*)wh_ref(map) : kvmap_ref(api, map); PBT_CHECK(t_ref, "taking a reference failed"); if (KIND == 0 && t_main) wormhole_park((wormref*)t_ref); }
  void tend(int) { if (KIND == 0 && t_main) wormhole_resume((wormref*)t_ref); if (KIND == 3) wh_unref((wormref*)t_ref); else kvmap_unref(api, t_ref); t_ref = nullptr; }
  struct On { On() { if (KIND == 0 && t_main) wormhole_resume((wormref*)t_ref); } ~On() { if (KIND == 0 && t_main) wormhole_park((wormref*)t_ref); } };
  void quiesce() {}
  struct Key { struct kref r; Key(const std::string& k) { kref_ref_hash32(&r, (const u8*)k.data(), k.size()); } };
  void store(uint64_t id, uint64_t v) {
    On on; const std::string& k = P.key[id]; bool r;
    if (KIND == 3) r = wh_put((wormref*)t_ref, k.data(), k.size(), &v, 8); else { kv* x = kv_create(k.data(), k.size(), &v, 8); r = api->put(t_ref, x); free(x); }
    PBT_CHECK(r, "put failed");
  }
  void fill(uint64_t id, uint64_t v) { store(id, v); }
  void put(uint64_t id, uint64_t v, lin::Ev&) { store(id, v); }
  struct M { bool want; bool had; const std::string* k; uint64_t v; kv* made; };
  static kv* cb(kv* old, void* p) { M& m = *(M*)p; m.had = old != nullptr; if (m.had != m.want) return nullptr; return m.made = kv_create(m.k->data(), m.k->size(), &m.v, 8); }
  bool mrg(uint64_t id, uint64_t v, bool want) {
    On on; const std::string& k = P.key[id]; M m{want, false, &k, v, nullptr}; bool r;
    if (KIND == 3) r = wh_merge((wormref*)t_ref, k.data(), k.size(), cb, &m); else { Key q(k); r = api->merge(t_ref, &q.r, cb, &m); free(m.made); }
    PBT_CHECK(r, "merge failed"); return m.had == want;
  }
  bool ins(uint64_t id, uint64_t v) { return mrg(id, v, false); }
  bool upd(uint64_t id, uint64_t v) { return mrg(id, v, true); }
  int del(uint64_t id, uint64_t) { On on; const std::string& k = P.key[id]; if (KIND == 3) return wh_del((wormref*)t_ref, k.data(), k.size()); Key q(k); return api->del(t_ref, &q.r); }
  struct G { bool ok; uint64_t v; const std::string* k; };
  static void rd(kv* c, void* p) { G& g = *(G*)p; g.ok = c != nullptr; if (c) { PBT_CHECK(c->klen == g.k->size() && !memcmp(kv_kptr_c(c), g.k->data(), c->klen) && c->vlen == 8, "a read of one key is handed the record of another"); memcpy(&g.v, kv_vptr_c(c), 8); } }
  bool get(uint64_t id, uint64_t& v) {
    On on; const std::string& k = P.key[id];
    if (KIND == 3) { u32 l = 0; bool r = wh_get((wormref*)t_ref, k.data(), k.size(), &v, 8, &l); PBT_CHECK(!r || l == 8, "value of %u bytes, expected 8", l); return r; }
    Key q(k); if (id & 1) { G g{false, 0, &k}; bool r = api->inpr(t_ref, &q.r, rd, &g); PBT_CHECK(r == g.ok, "inpr returns %d, callback saw %d", r, g.ok); v = g.v; return r; }
    kv* x = api->get(t_ref, &q.r, nullptr); if (!x) return false; G g{false, 0, &k}; rd(x, &g); v = g.v; free(x); return true;
  }
  static void rk(kv* c, void* p) { auto& s = *(std::pair<std::string, uint64_t>*)p; if (c) { s.first.assign((const char*)kv_kptr_c(c), c->klen); memcpy(&s.second, kv_vptr_c(c), 8); } }
  void scan(ScanRes& s) {
    On on; const std::string& k = P.key[s.start]; Key q(k); std::vector<std::pair<std::string, uint64_t>> got;
    auto* it = (wormhole_iter*)(KIND == 3 ? (void*)wh_iter_create((wormref*)t_ref) : api->iter_create(t_ref));
    if (KIND == 3) wh_iter_seek(it, k.data(), k.size()); else api->iter_seek(it, &q.r);
    bool end = false;
    while (got.size() < s.limit) {
      if (!(KIND == 3 ? wh_iter_valid(it) : api->iter_valid(it))) { end = true; break; }
      std::pair<std::string, uint64_t> x; if (KIND == 3) { wh_iter_inp(it, rk, &x); wh_iter_skip1(it); } else { api->iter_inp(it, rk, &x); api->iter_skip1(it); } got.push_back(x);
    }
    if (KIND == 3) wh_iter_destroy(it); else api->iter_destroy(it);
    for (auto& x : got) { auto f = P.ids.find(x.first); PBT_CHECK(f != P.ids.end(), "a scan returned key %s, which was never stored", keys::hex(x.first).c_str()); s.out.push_back({f->second, x.second}); }
    s.to_end = end;
  }
};
static Caps caps(bool str = true) { Caps c; c.put = c.ins = c.upd = c.del = c.scan = true; c.strings = str; c.maxkey = 60; c.nul = true; c.growth = 15; return c; }
static Case G1(Rng& r, int s) { return gen(r, s, true, caps()); }
static Case G0(Rng& r, int s) { return gen(r, s, false, caps()); }
PBT_HARNESS(a, {"sched_wormhole", CONC_RULE, kOpNames, G1, [](const Case& c, Obs& o) { run<Ad<0>>(c, o, caps()); }, 4});
PBT_HARNESS(b, {"sched_whsafe", CONC_RULE, kOpNames, G1, [](const Case& c, Obs& o) { run<Ad<1>>(c, o, caps()); }, 4});
PBT_HARNESS(d, {"sched_wh", CONC_RULE, kOpNames, G1, [](const Case& c, Obs& o) { run<Ad<3>>(c, o, caps()); }, 3});
PBT_HARNESS(e, {"free_wormhole", CONC_RULE, kOpNames, G0, [](const Case& c, Obs& o) { run<Ad<0>>(c, o, caps()); }, 1, true, 60});
PBT_HARNESS(f, {"free_wh", CONC_RULE, kOpNames, G0, [](const Case& c, Obs& o) { run<Ad<3>>(c, o, caps()); }, 1, true, 60});
