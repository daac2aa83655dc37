// Wormhole: operation histories over all of its interfaces, compared with std::map<string,string>.
// -DITERS: iterators and range deletion get most of the weight.
#include <map>
#include <memory>
#include <string>
#include <csignal>
#include <cstring>
extern "C" {
#include "lib.h"
#include "kv.h"
#include "wh.h"
}
#include "pbt.h"
#include "vkeys.h"
#ifdef WRAP
#include "wormhole.h"
#endif
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng; using std::string;
namespace {
enum { PUT, GET, PROBE, DEL, INPR, INPW, MERGE, DELR, ITER, SWEEP, FULL, PARK, REREF, CLEAN, BULK, BDEL };
const std::vector<string> kNames = {"put", "get", "probe", "del", "inpr", "inpw", "merge", "delr", "iter", "sweep", "full", "park", "reref", "clean", "bulk", "bdel"};
using Map = std::map<string, string>;
string sh(const string& s) { return s.size() > 60 ? keys::hex(s.substr(0, 40)) + "...(" + std::to_string(s.size()) + ")" : "'" + keys::hex(s) + "'"; }
string mkkey(const Case& c, uint64_t i) {
  uint64_t mode = c.c(1), seed = c.c(2), ml = c.c(4); string s;
  if (mode < 8) { s = keys::skey(mode, seed, i, ml, true); if (i == 0 && (seed & 1)) s.clear(); }
  else if (mode == 8) s = keys::be64(keys::ikey(seed % 8, seed / 8, i));
  else if (mode == 9) { s = string(i % 200, 0); if (i >= 200) s += (char)(i / 200); }                     // runs of zero bytes
  else if (mode == 10) { uint64_t h = Rng::mix(seed + i); size_t l = h % 12; for (size_t q = 0; q < l; q++) { h = Rng::mix(h); s += (char)(h % 3 == 0 ? 1 : 0); } }   // zeros and ones
  else if (mode == 11) { s = string("k") + std::to_string(i % 40); s += string(i / 40, 0); }               // groups that differ by trailing zeros
  else if (mode == 13) {                                                                                     // equal lengths and equal CRC32C: the 33-bit generator XORed in at several bit offsets
    uint64_t g = i >> 4, h = Rng::mix(seed + g * 7919); size_t l = seed % 3 ? 16 + (h % 3) * 8 + h % 5 : 16 + h % 80; for (size_t q = 0; q < l; q++) { h = Rng::mix(h); s += (char)(q < seed % 14 ? 'p' : h); }
    for (int b = 0; b < 4; b++) if (i >> b & 1) { uint64_t at = Rng::mix(seed * 4 + b) % ((l - 6) * 8), d = (1ull | (0x82F63B78ull << 1)) << (at & 7); for (int q = 0; q < 6; q++) s[(at >> 3) + q] ^= (char)(d >> (8 * q)); }
  }
  else if (mode == 14) { uint64_t g = i / 180, h = Rng::mix(seed + g); while (s.size() < 1400 + seed) { h = Rng::mix(h); s.append((const char*)&h, 8); } h = Rng::mix(i); s.append((const char*)&h, 4); }   // groups under very long prefixes: tens of thousands of inner nodes
  else { s = string(ml + seed % 700, 'L') + keys::be64(keys::ikey(seed % 8, seed, i)); }                   // very long shared prefix
  return s;
}
string mkval(uint64_t u) { uint64_t h = Rng::mix(u); size_t l = h % 5 == 0 ? h % 300 : h % 24; string s = std::to_string(u) + "="; if (h % 31 == 0) return ""; for (size_t i = 0; i < l; i++) { h = Rng::mix(h); s += (char)h; } return s; }

long g_live; // records owned by the map
struct kv* mm_in(struct kv* kv, void*) { ++g_live; return kv_dup(kv); }
void mm_free(struct kv* kv, void*) { --g_live; free(kv); }
const struct kvmap_mm MM = {mm_in, kvmap_mm_out_dup, mm_free, nullptr};

string kvkey(const struct kv* k) { return string((const char*)kv_kptr_c(k), k->klen); }
string kvval(const struct kv* k) { return string((const char*)kv_vptr_c(k), k->vlen); }
struct Inp { bool called = false, null = false; string key, val; const string* set = nullptr; };
void inp_cb(struct kv* cur, void* p) { Inp& i = *(Inp*)p; PBT_CHECK(!i.called, "an in-place callback ran twice"); i.called = true; if (!cur) { i.null = true; return; } i.key = kvkey(cur); i.val = kvval(cur); if (i.set) { PBT_CHECK(i.set->size() == cur->vlen, "in-place write: the value has %u bytes, expected %zu", cur->vlen, i.set->size()); memcpy(kv_vptr(cur), i.set->data(), cur->vlen); } }
struct Mrg { bool called = false, had = false; string key, val; int act; string nval; struct kv* made = nullptr; }; // act 0: NULL, 1: same (edited in place), 2: new kv
struct kv* mrg_cb(struct kv* kv0, void* p) {
  Mrg& m = *(Mrg*)p; PBT_CHECK(!m.called, "a merge callback ran twice"); m.called = true;
  if (kv0) { m.had = true; m.val = kvval(kv0); PBT_CHECK(kvkey(kv0) == m.key, "merge of %s is handed the record of %s", sh(m.key).c_str(), sh(kvkey(kv0)).c_str()); }
  if (m.act == 0) return nullptr;
  if (m.act == 1) { if (kv0 && kv0->vlen) ((char*)kv_vptr(kv0))[0] ^= 0x55; return kv0; }
  m.made = kv_create(m.key.data(), m.key.size(), m.nval.data(), m.nval.size()); return m.made;
}

// The uniform adapter: 0 wormhole_*, 1 whsafe_*, 2 whunsafe_* through their tables; 3 the wh_* facade.
struct Ad {
  int kind; const struct kvmap_api* api; struct wormhole* map; void* ref; bool own;   // own: records counted by g_live
  Ad(int k) : kind(k) {
    static const struct kvmap_api* const t[] = {&kvmap_api_wormhole, &kvmap_api_whsafe, &kvmap_api_whunsafe, nullptr};
    api = t[k]; own = k != 3;
    map = k == 3 ? wh_create() : k == 2 ? whunsafe_create(&MM) : wormhole_create(&MM);
    PBT_CHECK(map != nullptr, "creating an index failed"); doref();
  }
  void doref() { ref = kind == 3 ? (void*)wh_ref(map) : kvmap_ref(api, map); PBT_CHECK(ref, "taking a reference failed"); }
  void unref() { if (kind == 3) wh_unref((wormref*)ref); else PBT_CHECK(kvmap_unref(api, ref) == map, "giving a reference back does not yield the map"); ref = nullptr; }
  wormref* R() { return (wormref*)ref; }
  static struct kref K(const string& k, const char* buf) { struct kref r; kref_ref_hash32(&r, (const u8*)buf, k.size()); return r; }
#define KREF(k) std::unique_ptr<char[]> b_##k(new char[k.size() ? k.size() : 1]); memcpy(b_##k.get(), k.data(), k.size()); struct kref r_##k = K(k, b_##k.get())
  bool put(const string& k, const string& v) {
    if (kind == 3) return wh_put(R(), k.data(), k.size(), v.data(), v.size());
    struct kv* kv = kv_create(k.data(), k.size(), v.data(), v.size()); bool r = api->put(ref, kv); free(kv); return r;
  }
  bool get(const string& k, string& v, uint64_t how) {
    KREF(k);
    if (kind == 3) {
      size_t cap = how % 3 == 0 ? 4096 : how % 3 == 1 ? how % 17 : 0; std::unique_ptr<char[]> b(new char[cap ? cap : 1]); u32 vl = 77777777;
      if (!wh_get(R(), k.data(), k.size(), b.get(), cap, &vl)) return false;
      if (vl <= cap) { v.assign(b.get(), vl); return true; }
      string pre(b.get(), cap); Inp i; PBT_CHECK(wh_inpr(R(), k.data(), k.size(), inp_cb, &i), "get finds %s, in-place read does not", sh(k).c_str());
      PBT_CHECK(i.val.size() == vl && i.val.compare(0, cap, pre) == 0, "get of %s into a small buffer gives a wrong prefix or length", sh(k).c_str()); v = i.val; return true;
    }
    std::unique_ptr<char[]> b; struct kv* out = nullptr;
    if (how & 1) { b.reset(new char[sizeof(struct kv) + 8192]); out = (struct kv*)b.get(); }
    struct kv* r = api->get(ref, &r_k, out); if (!r) return false;
    PBT_CHECK(!out || r == out, "get ignores the caller's buffer"); PBT_CHECK(kvkey(r) == k, "get of %s gives the record of %s", sh(k).c_str(), sh(kvkey(r)).c_str());
    v = kvval(r); if (!out) free(r); return true;
  }
  bool probe(const string& k) { KREF(k); return kind == 3 ? wh_probe(R(), k.data(), k.size()) : api->probe(ref, &r_k); }
  bool del(const string& k) { KREF(k); return kind == 3 ? wh_del(R(), k.data(), k.size()) : api->del(ref, &r_k); }
  bool inp(const string& k, Inp& i, bool w) { KREF(k); if (kind == 3) return (w ? wh_inpw : wh_inpr)(R(), k.data(), k.size(), inp_cb, &i); return (w ? api->inpw : api->inpr)(ref, &r_k, inp_cb, &i); }
  bool merge(const string& k, Mrg& m) { KREF(k); bool r = kind == 3 ? wh_merge(R(), k.data(), k.size(), mrg_cb, &m) : api->merge(ref, &r_k, mrg_cb, &m); if (m.made && kind != 3) free(m.made); return r; }
  u64 delr(const string& a, const string* b) {
    KREF(a); if (kind == 3) return wh_delr(R(), a.data(), a.size(), b ? b->data() : nullptr, b ? b->size() : 0);
    if (!b) return api->delr(ref, &r_a, nullptr); const string& e = *b; KREF(e); return api->delr(ref, &r_a, &r_e);
  }
};

void iterate(Ad& ad, const Map& m, const string& start, uint64_t seed, uint64_t n, const std::vector<string>& pool, uint64_t& seen) {
  Rng r(seed); auto it = m.lower_bound(start); bool f = ad.kind == 3;
  void* x = f ? (void*)wh_iter_create(ad.R()) : ad.api->iter_create(ad.ref); PBT_CHECK(x, "creating an iterator failed");
  wormhole_iter* w = (wormhole_iter*)x; const auto* api = ad.api;
  auto seek = [&](const string& k) { if (f) wh_iter_seek(w, k.data(), k.size()); else { std::unique_ptr<char[]> b(new char[k.size() ? k.size() : 1]); memcpy(b.get(), k.data(), k.size()); struct kref kr; kref_ref_hash32(&kr, (const u8*)b.get(), k.size()); api->iter_seek(x, &kr); } };
  if (ad.kind == 2 && (seed & 1)) it = m.begin(); else seek(start);
  string at = "seek " + sh(start);
  auto want = [&](const string& k, const string& v, const char* how) {
    PBT_CHECK(it != m.end(), "iterator (%s), %s: gives %s although nothing follows", at.c_str(), how, sh(k).c_str());
    PBT_CHECK(k == it->first, "iterator (%s), %s: at %s, expected %s", at.c_str(), how, sh(k).c_str(), sh(it->first).c_str());
    PBT_CHECK(v == it->second, "iterator (%s), %s: value of %s is %s, expected %s", at.c_str(), how, sh(k).c_str(), sh(v).c_str(), sh(it->second).c_str()); ++seen;
  };
  bool parked = false;
  for (uint64_t i = 0; i < n; ++i) {
    bool end = it == m.end();
    bool v = f ? wh_iter_valid(w) : api->iter_valid(x);
    PBT_CHECK(v == !end, "iterator (%s), step %llu: valid=%d, expected %d (%s)", at.c_str(), (unsigned long long)i, v, !end, end ? "end" : sh(it->first).c_str());
    switch (r.below(9)) {
      case 0: case 1:
        if (f) {
          size_t kc = r.chance(1, 2) ? 4096 : r.below(20), vc = r.chance(1, 2) ? 4096 : r.below(20); std::unique_ptr<char[]> kb(new char[kc + 1]), vb(new char[vc + 1]); u32 kl = 0, vl = 0;
          bool ok = wh_iter_peek(w, kb.get(), kc, &kl, vb.get(), vc, &vl); PBT_CHECK(ok == !end, "iterator (%s): peek says %d, expected %d", at.c_str(), ok, !end);
          if (ok) { string k = it->first, vv = it->second; PBT_CHECK(kl == k.size() && vl == vv.size() && !memcmp(kb.get(), k.data(), std::min<size_t>(kc, kl)) && !memcmp(vb.get(), vv.data(), std::min<size_t>(vc, vl)), "iterator (%s): peek gives another record than %s", at.c_str(), sh(k).c_str()); ++seen; }
        } else {
          std::unique_ptr<char[]> b; struct kv* out = nullptr; if (r.chance(1, 2)) { b.reset(new char[8192]); out = (struct kv*)b.get(); }
          bool next = r.chance(1, 2); struct kv* k = next ? api->iter_next(x, out) : api->iter_peek(x, out);
          PBT_CHECK((k != nullptr) == !end, "iterator (%s): peek gives %d, expected %d", at.c_str(), k != nullptr, !end);
          if (k) { want(kvkey(k), kvval(k), next ? "next" : "peek"); if (!out) free(k); if (next) ++it; }
        } break;
      case 2: if (!f) { struct kref kr; bool ok = api->iter_kref(x, &kr); PBT_CHECK(ok == !end, "iterator (%s): kref", at.c_str()); if (ok) want(string((const char*)kr.ptr, kr.len), it->second, "kref"); } break;
      case 3: if (!f) { struct kvref kr; bool ok = api->iter_kvref(x, &kr); PBT_CHECK(ok == !end, "iterator (%s): kvref", at.c_str()); if (ok) want(string((const char*)kr.kptr, kr.hdr.klen), string((const char*)kr.vptr, kr.hdr.vlen), "kvref"); } break;
      case 4: { Inp i; bool ok = f ? wh_iter_inp(w, inp_cb, &i) : api->iter_inp(x, inp_cb, &i); PBT_CHECK(ok == !end && i.called && i.null == end, "iterator (%s): inp returns %d, expected %d", at.c_str(), ok, !end); if (ok) want(i.key, i.val, "inp"); break; }
      case 5: { u32 k = r.chance(1, 3) ? r.below(4) : r.below(400); if (f) wh_iter_skip(w, k); else api->iter_skip(x, k); for (u32 q = 0; q < k && it != m.end(); ++q) ++it; break; }
      case 6: if (r.chance(1, 3)) { if (!f && api->iter_park) api->iter_park(x); else if (f) wh_iter_park(w); else break; parked = true;
          PBT_CHECK(!(f ? wh_iter_valid(w) : api->iter_valid(x)), "a parked iterator is valid");
          if (r.chance(1, 8)) { i = n; break; }
          const string& k = pool[r.below(pool.size())]; it = m.lower_bound(k); at = "parked, seek " + sh(k); seek(k); parked = false; } break;
      case 7: { if (r.chance(1, 4)) { const string& k = pool[r.below(pool.size())]; it = m.lower_bound(k); at = "seek again " + sh(k); seek(k); break; } }  // fallthrough
      default: if (f) wh_iter_skip1(w); else api->iter_skip1(x); if (it != m.end()) ++it;
    }
  }
  (void)parked; if (f) wh_iter_destroy(w); else api->iter_destroy(x);
}

Case gen(Rng& r, int size) {
  Case c; uint64_t pool = r.chance(1, 4) ? r.range(2, 20) : r.chance(1, 2) ? r.range(20, 200) : r.range(130, 1500);
  c.cfg = {r.below(4), r.below(14), r.below(1000), pool, r.chance(1, 2) ? 24 : r.range(1, 200)};
  bool deep = r.chance(1, 100); if (deep) { pool = r.range(3600, 6000); c.cfg[1] = 14; c.cfg[3] = pool; size = std::min(size, 20); }
  c.thr.resize(1); auto& v = c.thr[0];
  if (deep && r.chance(1, 2)) {   // churn: whole groups are replaced while the inner-node table is almost full
    c.cfg[3] = pool = 6000; uint64_t ng = pool / 180, want = std::min<uint64_t>(ng - 2, 32768 * r.range(88, 98) / 100 / (1404 + c.cfg[2])); std::vector<uint64_t> in, out;
    for (uint64_t g = 0; g < ng; ++g) { if (g < want) { in.push_back(g); v.push_back({BULK, g * 180, 180, 0}); } else out.push_back(g); }
    for (int q = r.range(10, 80); q > 0; --q) { uint64_t i = r.below(in.size()), j = r.below(out.size()); v.push_back({BDEL, in[i] * 180, 180, 0}); v.push_back({BULK, out[j] * 180, 180, 0}); std::swap(in[i], out[j]); }
  }
  else if (deep || (pool > 100 && r.chance(4, 5))) v.push_back({BULK, r.below(pool), pool, r.next()});
  size_t n = r.range(2, 30 + size * 3); int phase = 0; size_t left = 0; uint64_t cur = 0, dir = 0;
#ifdef ITERS
  const unsigned it = 6, dr = 2, pt = 1;
#else
  const unsigned it = 0, dr = 0, pt = 3;
#endif
  for (size_t i = 0; i < n; ++i) {
    if (!left) { phase = r.below(3); left = r.range(5, 80); dir = r.below(3); cur = r.below(pool); }
    --left; cur = dir == 0 ? r.below(pool) : dir == 1 ? (cur + 1) % pool : (cur + pool - 1) % pool;
    unsigned del = phase == 1 ? 12 : phase == 2 ? 4 : 1, put = phase == 0 ? 10 : 4;
    int k = r.weighted({put, pt, pt, del, pt, pt, 2, dr, it, 0, 0, 0, 0, 0, 0});
    if (r.chance(1, 60)) k = r.weighted({1, 1, 3, 2}) == 0 ? SWEEP : r.chance(1, 2) ? FULL : r.chance(1, 2) ? PARK : REREF;
    if (r.chance(1, 400)) k = CLEAN; if (r.chance(1, 150) && pool > 100) k = BULK;
    if (phase == 1 && r.chance(1, 25)) { uint64_t m = r.range(1, pool); for (uint64_t q = 0; q < m && q < 200; ++q) v.push_back({DEL, (cur + q) % pool, 0, 0}); }
    v.push_back({(uint32_t)k, cur, k == BULK ? r.range(1, pool) : r.below(pool), r.next() >> 20});
  }
  v.push_back({SWEEP, 0, 0, 1}); v.push_back({FULL, 0, 0, 1});
  return c;
}

void run(const Case& c, Obs& o) {
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL);   // lib.c waits for a debugger in its handlers
  std::vector<string> pool; uint64_t np = std::max<uint64_t>(1, std::min<uint64_t>(c.c(3), c.c(1) == 14 ? 6000 : 2000)); for (uint64_t i = 0; i < np; ++i) pool.push_back(mkkey(c, i));
  g_live = 0; uint64_t hits = 0, dels = 0, seen = 0, uniq = 1, ranges = 0, merges = 0; size_t maxn = 0;
  {
    Ad ad(c.c(0) % 4); Map m;
    auto look = [&](const string& k, const char* when, uint64_t how) {
      string v; bool f = ad.get(k, v, how); auto it = m.find(k);
      PBT_CHECK(f == (it != m.end()), "%s of %s: found=%d, the key is %s", when, sh(k).c_str(), f, it != m.end() ? "present" : "absent");
      if (f) { ++hits; PBT_CHECK(v == it->second, "%s of %s gives %s, expected %s", when, sh(k).c_str(), sh(v).c_str(), sh(it->second).c_str()); }
    };
    auto count = [&] { if (ad.own) PBT_CHECK(g_live == (long)m.size(), "the map holds %ld records for %zu keys", g_live, m.size()); };
    auto full = [&](bool destroy_at_end) {
      Map got; bool f = ad.kind == 3; void* x = f ? (void*)wh_iter_create(ad.R()) : ad.api->iter_create(ad.ref); auto it = m.begin(); size_t n = 0;
      if (f) wh_iter_seek((wormhole_iter*)x, nullptr, 0); else ad.api->iter_seek(x, kref_null());
      for (;; ++it, ++n) {
        bool v = f ? wh_iter_valid((wormhole_iter*)x) : ad.api->iter_valid(x); PBT_CHECK(v == (it != m.end()), "full traversal %s after %zu of %zu keys", v ? "goes on" : "ends", n, m.size()); if (!v) break;
        Inp i; if (f) wh_iter_inp((wormhole_iter*)x, inp_cb, &i); else ad.api->iter_inp(x, inp_cb, &i);
        PBT_CHECK(i.key == it->first && i.val == it->second, "full traversal: key %zu is %s, expected %s", n, sh(i.key).c_str(), sh(it->first).c_str());
        if (f) wh_iter_skip1((wormhole_iter*)x); else ad.api->iter_skip1(x);
      }
      (void)destroy_at_end; if (f) wh_iter_destroy((wormhole_iter*)x); else ad.api->iter_destroy(x); count();
    };
    for (auto& op : c.thr.empty() ? pbt::Ops{} : c.thr[0]) {
      const string& k = pool[op.a % np]; auto it = m.find(k); bool here = it != m.end(); string v = mkval(uniq++);
      switch (op.k) {
        case PUT: PBT_CHECK(ad.put(k, v), "put of %s failed", sh(k).c_str()); m[k] = v; break;
        case GET: look(k, "get", op.c); break;
        case PROBE: PBT_CHECK(ad.probe(k) == here, "probe of %s: the key is %s", sh(k).c_str(), here ? "present" : "absent"); break;
        case DEL: PBT_CHECK(ad.del(k) == here, "del of %s: the key was %s", sh(k).c_str(), here ? "present" : "absent"); if (here) { m.erase(it); ++dels; } break;
        case INPR: case INPW: {
          Inp i; string nv; bool w = op.k == INPW; if (w && here) { nv = it->second; for (char& ch : nv) ch ^= 0x2a; i.set = &nv; }
          bool r = ad.inp(k, i, w); PBT_CHECK(r == here && i.called && i.null == !here, "in-place access of %s returned %d (called %d, null %d); the key is %s", sh(k).c_str(), r, i.called, i.null, here ? "present" : "absent");
          if (here) { PBT_CHECK(i.key == k && i.val == it->second, "in-place access of %s sees %s=%s", sh(k).c_str(), sh(i.key).c_str(), sh(i.val).c_str()); if (w) it->second = nv; } break;
        }
        case MERGE: {
          Mrg g; g.key = k; g.act = op.c % 4 == 0 ? 0 : op.c % 4 == 1 ? 1 : 2; g.nval = v; bool r = ad.merge(k, g); ++merges;
          PBT_CHECK(r && g.called && g.had == here && (!here || g.val == it->second), "merge of %s: returned %d, callback saw %s", sh(k).c_str(), r, g.had ? sh(g.val).c_str() : "no record");
          if (g.act == 1 && here && !it->second.empty()) it->second[0] ^= 0x55; if (g.act == 2) m[k] = v; break;
        }
        case DELR: {
          const string& e = pool[op.b % np]; bool open = op.c % 16 == 0 && ad.kind != 3; auto a = m.lower_bound(k), b = open ? m.end() : m.lower_bound(e); u64 want = 0;
          if (open || k < e) { for (auto q = a; q != b; ++q) ++want; } if (want > 300 && op.c % 3) break;
          u64 got = ad.delr(k, open ? nullptr : &e); PBT_CHECK(got == want, "range deletion [%s, %s) removed %llu keys, expected %llu", sh(k).c_str(), open ? "end" : sh(e).c_str(), (unsigned long long)got, (unsigned long long)want);
          if (want) { m.erase(a, b); ++ranges; } look(k, "get after a range deletion", 0); look(e, "get after a range deletion", 0); if (op.c % 7 == 0) full(false); break;
        }
        case ITER: iterate(ad, m, k, op.b * 77 + op.c, op.c % 40 + 1, pool, seen); break;
        case SWEEP: for (uint64_t i = 0; i < np; ++i) { look(pool[i], "get (sweep)", i); bool h = m.count(pool[i]); PBT_CHECK(ad.probe(pool[i]) == h, "probe (sweep) of %s: the key is %s", sh(pool[i]).c_str(), h ? "present" : "absent"); } count(); break;
        case FULL: full(false); break;
        case PARK: if (ad.kind == 3) { wh_park(ad.R()); wh_resume(ad.R()); } else if (ad.api->refpark && ad.kind == 0) { ad.api->park(ad.ref); ad.api->resume(ad.ref); } else if (ad.kind == 0) { wormhole_park(ad.R()); wormhole_resume(ad.R()); } if (ad.kind == 0) wormhole_refresh_qstate(ad.R()); break;
        case REREF: ad.unref(); ad.doref(); break;
        case CLEAN: ad.unref(); if (ad.kind == 3) wh_clean(ad.map); else ad.api->clean(ad.map); m.clear(); count(); ad.doref(); break;
        case BDEL: for (uint64_t i = 0; i < op.b && i < np; ++i) { const string& q = pool[(op.a + i) % np]; bool h = m.count(q); PBT_CHECK(ad.del(q) == h, "del of %s: the key was %s", sh(q).c_str(), h ? "present" : "absent"); if (h) { m.erase(q); ++dels; } } break;
        case BULK: { uint64_t seed = op.c; int d = seed % 3; for (uint64_t i = 0; i < op.b && i < np; ++i) { const string& q = pool[(d == 0 ? op.a + i : d == 1 ? op.a + np - i : Rng::mix(seed + i)) % np]; string w = mkval(uniq++); PBT_CHECK(ad.put(q, w), "put of %s failed", sh(q).c_str()); m[q] = w; } break; }
      }
      maxn = std::max(maxn, m.size());
    }
    ad.unref();
    if (ad.kind == 3) wh_destroy(ad.map); else ad.api->destroy(ad.map);
    if (ad.own) PBT_CHECK(g_live == 0, "%ld records are left after destroy", g_live);
  }
  o.mark("hits", hits); o.mark("removals", dels); o.mark("iterated", seen); o.mark("range_deletions", ranges); o.mark("merges", merges); if (maxn > 128) o.mark("cases_with_splits"); if (maxn > 600) o.mark("cases_over_600_keys"); if (c.c(1) == 14 && maxn > 3000) o.mark("cases_with_tens_of_thousands_of_inner_nodes"); if (c.c(1) == 13) o.mark("cases_with_colliding_hashes");
#ifdef ITERS
  o.nontrivial(maxn >= 5 && seen >= 3);
#else
  o.nontrivial(maxn >= 5 && hits && dels);
#endif
}
#ifdef ITERS
#define RULE "operation histories with iterators (seek, peek, next, key and value references, in-place access, skip, park) and range deletions over the wormhole_*, whsafe_*, whunsafe_* and wh_* interfaces compared with a reference ordered map; non-trivial: at least 5 keys at once and 3 records seen through iterators"
#else
#define RULE "operation histories (put, get, probe, del, in-place read and write, merge) over the wormhole_*, whsafe_*, whunsafe_* and wh_* interfaces, byte-string keys of 15 shapes including empty keys, runs of zero bytes, equal CRC32C hashes and long prefixes, compared with a reference map; non-trivial: at least 5 keys at once, a hit and a removal"
#endif
PBT_HARNESS(a, {"hist", RULE, kNames, gen, run, 1, false, 30});
}  // namespace
