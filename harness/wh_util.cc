// Wormhole's kv.c and lib.c helpers: records, comparisons, sorting, encodings, checksums, bit tricks, tokens, slabs.
#include <algorithm>
#include <csignal>
#include <cstring>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <vector>
extern "C" {
#include "lib.h"
#include "kv.h"
}
#include "pbt.h"
#include "vkeys.h"
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng; using std::string;
namespace {
uint64_t word(uint64_t a) { // 64-bit words around interesting places
  Rng r(a); uint64_t v = r.next(); switch (r.below(6)) { case 0: return v; case 1: return v >> r.below(64); case 2: return (1ull << r.below(64)) + r.below(3) - 1; case 3: return r.below(300); case 4: return ~(v >> r.below(64)); default: return v << r.below(64); }
}
string bytes(uint64_t a, size_t max, int alpha = 0) { Rng r(a); size_t n = r.chance(1, 3) ? r.below(20) : r.below(max + 1); string s(n, 0); int k = alpha ? alpha : r.chance(1, 2) ? 256 : 2 + r.below(3); for (auto& c : s) c = k == 256 ? (char)r.next() : (char)("\x00\x01\x7f\x80\xff" [r.below(std::min(k, 5))]); return s; }
// exact-size heap copy, so that reading past the end is seen
struct Buf { std::unique_ptr<u8[]> p; u32 n; Buf(const string& s) : p(new u8[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), s.size()); } };
int sgn(int x) { return (x > 0) - (x < 0); }
int cmp(const string& a, const string& b) { int c = memcmp(a.data(), b.data(), std::min(a.size(), b.size())); return c ? sgn(c) : (a.size() > b.size()) - (a.size() < b.size()); }
uint32_t crc_ref(const u8* p, size_t n, uint32_t crc) { for (size_t i = 0; i < n; ++i) { crc ^= p[i]; for (int k = 0; k < 8; ++k) crc = (crc >> 1) ^ (crc & 1 ? 0x82f63b78u : 0); } return crc; }
struct Free { void operator()(void* p) const { free(p); } };
using KV = std::unique_ptr<struct kv, Free>;
KV mk(const string& k, const string& v) { return KV(kv_create(k.data(), k.size(), v.data(), v.size())); }
string K(const struct kv* k) { return string((const char*)k->kv, k->klen); } string Vv(const struct kv* k) { return string((const char*)k->kv + k->klen, k->vlen); }
string vi(uint64_t v) { string s; if (!v) return string("\x80\x00", 2); while (v >= 128) { s += (char)(v | 128); v >>= 7; } s += (char)v; return s; }

enum { CMP, DUP, REFILL, KV128, VI, BITS, CRC, STR, LCP, SORT, TOK, GCD };
const std::vector<string> kNames = {"compare", "dup", "refill", "kv128", "vi128", "bits", "crc32c", "strings", "lcp", "sort", "strtoks", "gcd"};
void one(const Op& op, Obs& o) {
  Rng r(op.b); o.mark(kNames[op.k % 12].c_str());
  switch (op.k % 12) {
    case CMP: {
      string a = bytes(op.a, 40), b = r.chance(1, 2) ? bytes(op.b, 40) : a; if (r.chance(1, 2) && !b.empty()) b[r.below(b.size())] ^= 1 << r.below(8); if (r.chance(1, 4)) b.resize(r.below(b.size() + 1)); if (r.chance(1, 4)) b += bytes(op.c, 3);
      KV x = mk(a, "v1"), y = mk(b, "w"); Buf ba(a), bb(b); struct kref ka, kb, kc; kref_ref_hash32(&ka, ba.p.get(), ba.n); kref_ref_hash32(&kb, bb.p.get(), bb.n); kref_ref_kv(&kc, x.get()); int w = cmp(a, b);
      auto T = [&](const char* f, int got) { PBT_CHECK(sgn(got) == w, "%s('%s', '%s') = %d", f, keys::hex(a).c_str(), keys::hex(b).c_str(), got); };
      T("kv_compare", kv_compare(x.get(), y.get())); T("kref_compare", kref_compare(&ka, &kb)); T("kref_kv_compare", kref_kv_compare(&ka, y.get())); struct kvref vr; kvref_ref_kv(&vr, x.get()); T("kvref_kv_compare", kvref_kv_compare(&vr, y.get()));
      std::unique_ptr<u8, Free> e(kv128_encode_kv(y.get(), nullptr, nullptr)); T("kref_kv128_compare", kref_kv128_compare(&ka, e.get())); T("kv_kv128_compare", kv_kv128_compare(x.get(), e.get()));
      string k128 = vi(b.size()) + b; Buf bk(k128); T("kref_k128_compare", kref_k128_compare(&ka, bk.p.get())); T("kv_k128_compare", kv_k128_compare(x.get(), bk.p.get()));
      bool eq = a == b; PBT_CHECK(kv_match(x.get(), y.get()) == eq && kref_match(&ka, &kb) == eq && kref_kv_match(&ka, y.get()) == eq && kv_match_hash(x.get(), y.get()) == eq && kv_match_kv128(x.get(), e.get()) == eq, "match('%s', '%s') differs from equality", keys::hex(a).c_str(), keys::hex(b).c_str());
      KV z = mk(a, "v1"), z2 = mk(a, "v2"); PBT_CHECK(kv_match_full(x.get(), z.get()) && !kv_match_full(x.get(), z2.get()) && kv_match_full(x.get(), y.get()) == false, "kv_match_full");
      if (eq) PBT_CHECK(ka.hash32 == kb.hash32, "equal keys, different hashes"); PBT_CHECK(kc.hash32 == ka.hash32, "the hash stored in a record differs from the hash of its key"); break;
    }
    case DUP: {
      string a = bytes(op.a, 60), v = bytes(op.b, 60); KV x = mk(a, v); PBT_CHECK(K(x.get()) == a && Vv(x.get()) == v, "kv_create");
      PBT_CHECK(kv_size(x.get()) == sizeof(struct kv) + a.size() + v.size() && key_size(x.get()) == sizeof(struct kv) + a.size(), "kv_size"); u64 al = 1u << r.below(7);
      PBT_CHECK(kv_size_align(x.get(), al) % al == 0 && kv_size_align(x.get(), al) - kv_size(x.get()) < al && key_size_align(x.get(), al) % al == 0 && key_size_align(x.get(), al) - key_size(x.get()) < al, "aligned sizes");
      KV d(kv_dup(x.get())), dk(kv_dup_key(x.get())); PBT_CHECK(kv_match_full(d.get(), x.get()) && d->hash == x->hash, "kv_dup"); PBT_CHECK(K(dk.get()) == a && dk->vlen == 0 && dk->hash == x->hash, "kv_dup_key");
      std::unique_ptr<u8[]> b1(new u8[kv_size(x.get())]), b2(new u8[key_size(x.get())]); auto* t1 = kv_dup2(x.get(), (struct kv*)b1.get()); auto* t2 = kv_dup2_key(x.get(), (struct kv*)b2.get());
      PBT_CHECK((u8*)t1 == b1.get() && kv_match_full(t1, x.get()), "kv_dup2"); PBT_CHECK((u8*)t2 == b2.get() && K(t2) == a && t2->vlen == 0, "kv_dup2_key");
      u32 pl = r.below(a.size() + 1); KV p(kv_dup2_key_prefix(x.get(), nullptr, pl)), pr = mk(a.substr(0, pl), ""); PBT_CHECK(K(p.get()) == a.substr(0, pl) && p->vlen == 0 && p->hash == pr->hash, "kv_dup2_key_prefix(%u)", pl);
      struct kvref vr; kvref_ref_kv(&vr, x.get()); KV q(kvref_dup2_kv(&vr, nullptr)), qk(kvref_dup2_key(&vr, nullptr)); PBT_CHECK(kv_match_full(q.get(), x.get()), "kvref_dup2_kv"); PBT_CHECK(K(qk.get()) == a && kv_size(qk.get()) == key_size(qk.get()), "kvref_dup2_key makes a record that claims %u value bytes it does not hold", qk->vlen);
      PBT_CHECK(kv_vptr(x.get()) == x->kv + a.size() && kv_kptr(x.get()) == x->kv, "kv_vptr/kv_kptr"); break;
    }
    case REFILL: {
      u64 n = word(op.a); string v = bytes(op.b, 20); std::unique_ptr<u8[]> b(new u8[sizeof(struct kv) + 64 + v.size()]); auto* k = (struct kv*)b.get();
      kv_refill_u64(k, n, v.data(), v.size()); PBT_CHECK(K(k) == keys::be64(n) && Vv(k) == v, "kv_refill_u64(%lu)", (unsigned long)n);
      char h[40]; snprintf(h, sizeof h, "%08x", (u32)n); kv_refill_hex32(k, n, v.data(), v.size()); PBT_CHECK(K(k) == h && Vv(k) == v, "kv_refill_hex32(%lx) makes %s", (unsigned long)n, keys::hex(K(k)).c_str());
      snprintf(h, sizeof h, "%016lx", (unsigned long)n); kv_refill_hex64(k, n, v.data(), v.size()); PBT_CHECK(K(k) == h && Vv(k) == v, "kv_refill_hex64(%lx) makes %s", (unsigned long)n, keys::hex(K(k)).c_str());
      u32 kl = 16 + r.below(30); kv_refill_hex64_klen(k, n, kl, v.data(), v.size()); PBT_CHECK(K(k) == string(h) + string(kl - 16, '!') && Vv(k) == v, "kv_refill_hex64_klen");
      KV fresh = mk(K(k), v); PBT_CHECK(fresh->hash == k->hash, "a refilled record has another hash than a new one"); string nv = v.substr(0, r.below(v.size() + 1)); kv_refill_value(k, nv.data(), nv.size()); PBT_CHECK(Vv(k) == nv && K(k) == K(fresh.get()), "kv_refill_value");
      string s = "s" + std::to_string(n); kv_refill_str_str(k, s.c_str(), "val"); PBT_CHECK(K(k) == s && Vv(k) == "val", "kv_refill_str_str"); KV c(kv_create_str_str(s.c_str(), "val")); PBT_CHECK(kv_match_full(c.get(), k) && c->hash == k->hash, "kv_create_str_str");
      struct kref kr; kref_ref_kv(&kr, c.get()); kv_refill_kref_v(k, &kr, v.data(), v.size()); PBT_CHECK(K(k) == s && Vv(k) == v && k->hash == c->hash, "kv_refill_kref_v"); kv_refill_kref(k, &kr); PBT_CHECK(K(k) == s && k->vlen == 0 && k->hash == c->hash, "kv_refill_kref"); KV c2(kv_create_kref(&kr, v.data(), v.size())); PBT_CHECK(K(c2.get()) == s && Vv(c2.get()) == v && c2->hash == c->hash, "kv_create_kref"); break;
    }
    case KV128: {
      string a = bytes(op.a, r.chance(1, 6) ? 20000 : 200), v = bytes(op.b, r.chance(1, 6) ? 20000 : 200); KV x = mk(a, v); size_t es = 0, ds = 0; string want = vi(a.size()) + vi(v.size()) + a + v;
      PBT_CHECK(kv128_estimate_kv(x.get()) == want.size(), "kv128_estimate_kv: %zu, encoded %zu", kv128_estimate_kv(x.get()), want.size()); std::unique_ptr<u8[]> out(new u8[want.size()]); kv128_encode_kv(x.get(), out.get(), &es); PBT_CHECK(es == want.size() && !memcmp(out.get(), want.data(), es), "kv128_encode_kv of key length %zu, value length %zu", a.size(), v.size());
      PBT_CHECK(kv128_size(out.get()) == es, "kv128_size"); KV d(kv128_decode_kv(out.get(), nullptr, &ds)); PBT_CHECK(ds == es && kv_match_full(d.get(), x.get()) && d->hash == x->hash, "decoding a kv128 does not give the record back"); break;
    }
    case VI: {
      u64 v = word(op.a); u8 b[16]; string w = vi(v); u64 d = 1; memset(b, 0xcc, 16); u8* e = vi128_encode_u64(b, v); PBT_CHECK((size_t)(e - b) == w.size() && vi128_estimate_u64(v) == w.size() && !memcmp(b, w.data(), w.size()), "vi128_encode_u64(%lu)", (unsigned long)v);
      Buf bb(w); PBT_CHECK(vi128_decode_u64(bb.p.get(), &d) == bb.p.get() + bb.n && d == v, "vi128_decode_u64 gives %lu for %lu", (unsigned long)d, (unsigned long)v);
      u32 v3 = v, d3 = 1; w = vi(v3); e = vi128_encode_u32(b, v3); PBT_CHECK((size_t)(e - b) == w.size() && vi128_estimate_u32(v3) == w.size() && !memcmp(b, w.data(), w.size()), "vi128_encode_u32(%u)", v3); Buf b3(w); PBT_CHECK(vi128_decode_u32(b3.p.get(), &d3) == b3.p.get() + b3.n && d3 == v3, "vi128_decode_u32 gives %u for %u", d3, v3);
      string bad(11, (char)0x80); PBT_CHECK(vi128_decode_u64((const u8*)bad.data(), &d) == nullptr && vi128_decode_u32((const u8*)bad.data(), &d3) == nullptr, "an endless vi128 is accepted"); break;
    }
    case BITS: {
      u64 v = word(op.a); u32 w = v; u64 rv = 0; for (int i = 0; i < 64; ++i) if (v >> i & 1) rv |= 1ull << (63 - i); PBT_CHECK(bits_reverse_u64(v) == rv && bits_reverse_u32(w) == (u32)(bits_reverse_u64((u64)w) >> 32), "bits_reverse(%lx)", (unsigned long)v);
      u8 n = 1 + r.below(63), m = 1 + r.below(31); PBT_CHECK(bits_rotl_u64(v, n) == ((v << n) | (v >> (64 - n))) && bits_rotr_u64(bits_rotl_u64(v, n), n) == v && bits_rotl_u32(w, m) == ((w << m) | (w >> (32 - m))) && bits_rotr_u32(bits_rotl_u32(w, m), m) == w, "rotation");
      u64 p = 1; if (v <= 1ull << 63) { while (p < v) p <<= 1; PBT_CHECK(bits_p2_up_u64(v) == (v ? p : 0), "bits_p2_up_u64(%lu)", (unsigned long)v); } if (w <= 1u << 31) { u32 q = 1; while (q < w) q <<= 1; PBT_CHECK(bits_p2_up_u32(w) == (w ? q : 0), "bits_p2_up_u32(%u)", w); }
      u64 dn = bits_p2_down_u64(v); PBT_CHECK(v ? dn <= v && (dn & (dn - 1)) == 0 && dn > v / 2 : !dn, "bits_p2_down_u64(%lu)", (unsigned long)v); u32 d2 = bits_p2_down_u32(w); PBT_CHECK(w ? d2 <= w && (d2 & (d2 - 1)) == 0 && d2 > w / 2 : !d2, "bits_p2_down_u32(%u)", w);
      u64 x = v >> 8; u8 pw = r.below(50); u64 a = r.below(100000) + 1; PBT_CHECK(bits_round_down(x, pw) % (1ull << pw) == 0 && x - bits_round_down(x, pw) < (1ull << pw) && bits_round_up(x, pw) % (1ull << pw) == 0 && bits_round_up(x, pw) - x < (1ull << pw), "round to a power"); PBT_CHECK(bits_round_down_a(x, a) % a == 0 && x - bits_round_down_a(x, a) < a && bits_round_up_a(x, a) % a == 0 && bits_round_up_a(x, a) - x < a, "round to a multiple");
      struct entry13 e = entry13(w, v >> 16); PBT_CHECK(e.e1 == (u16)w && (u64)e.e3 == v >> 16 && u64_to_ptr(ptr_to_u64(&e)) == &e, "entry13"); entry13_update_e3(&e, w); PBT_CHECK(e.e1 == (u16)w && (u64)e.e3 == w, "entry13_update_e3"); break;
    }
    case CRC: {
      string s = bytes(op.a, 300, 256); Buf b(s); u32 c = (u32)op.b; PBT_CHECK(crc32c_inc(b.p.get(), b.n, c) == crc_ref(b.p.get(), b.n, c), "crc32c of %u bytes", b.n); size_t k = r.below(s.size() + 1); Buf p(s.substr(0, k)), q(s.substr(k)); PBT_CHECK(crc32c_inc(q.p.get(), q.n, crc32c_inc(p.p.get(), p.n, c)) == crc_ref(b.p.get(), b.n, c), "crc32c in two pieces (%zu of %zu)", k, s.size());
      u64 v = op.c; PBT_CHECK(crc32c_u8(c, v) == crc_ref((u8*)&v, 1, c) && crc32c_u16(c, v) == crc_ref((u8*)&v, 2, c) && crc32c_u32(c, v) == crc_ref((u8*)&v, 4, c) && crc32c_u64(c, v) == crc_ref((u8*)&v, 8, c), "crc32c of a word"); break;
    }
    case STR: {
      u64 v = word(op.a); char b[40], w[40]; memset(b, 0, 40); alignas(16) char h[32] = {0}; strdec_64(b, v); snprintf(w, 40, "%020lu", (unsigned long)v); PBT_CHECK(!memcmp(b, w, 20) && !b[20], "strdec_64(%s) gives %s", w, b); memset(b, 0, 40); strdec_32(b, v); snprintf(w, 40, "%010u", (u32)v); PBT_CHECK(!memcmp(b, w, 10) && !b[10], "strdec_32(%s) gives %s", w, b);
      strhex_64(h, v); snprintf(w, 40, "%016lx", (unsigned long)v); PBT_CHECK(!memcmp(h, w, 16) && !h[16], "strhex_64"); memset(h, 0, 32); strhex_32(h, v); snprintf(w, 40, "%08x", (u32)v); PBT_CHECK(!memcmp(h, w, 8) && !h[8], "strhex_32");
      snprintf(w, 40, "%lu", (unsigned long)v); PBT_CHECK(a2u64(w) == v, "a2u64(%s)", w); snprintf(w, 40, "%u", (u32)v); PBT_CHECK(a2u32(w) == (u32)v, "a2u32(%s)", w); snprintf(w, 40, "%ld", (long)v); PBT_CHECK(a2s64(w) == (s64)v, "a2s64(%s)", w); snprintf(w, 40, "%d", (int)v); PBT_CHECK(a2s32(w) == (s32)v, "a2s32(%s)", w);
      string s = bytes(op.b, 30, 256), ph, pd; for (u8 c : s) { char t[8]; snprintf(t, 8, " %02x", c); ph += t; snprintf(t, 8, " %03u", c); pd += t; } char* m = nullptr; size_t ml = 0; FILE* f = open_memstream(&m, &ml); str_print_hex(f, s.data(), s.size()); fputc('|', f); str_print_dec(f, s.data(), s.size()); fclose(f); string got(m, ml); free(m); PBT_CHECK(got == ph + "|" + pd, "printing bytes gives '%s'", got.c_str()); break;
    }
    case LCP: {
      string a = bytes(op.a, 60), b = r.chance(3, 4) ? a : bytes(op.b, 60); if (r.chance(3, 4) && !b.empty()) b[r.below(b.size())] ^= 1 << r.below(8); if (r.chance(1, 3)) b.resize(r.below(b.size() + 1)); u32 w = 0; while (w < a.size() && w < b.size() && a[w] == b[w]) ++w;
      Buf ba(a), bb(b); struct kref ka, kb; kref_ref_raw(&ka, ba.p.get(), ba.n); kref_ref_raw(&kb, bb.p.get(), bb.n); KV x = mk(a, ""), y = mk(b, ""); u32 mx = std::min(a.size(), b.size());
      PBT_CHECK(memlcp(ba.p.get(), bb.p.get(), mx) == w && kref_lcp(&ka, &kb) == w && kref_kv_lcp(&ka, y.get()) == w && kv_key_lcp(x.get(), y.get()) == w, "common prefix of '%s' and '%s' is %u", keys::hex(a).c_str(), keys::hex(b).c_str(), w); u32 sk = r.below(w + 1); PBT_CHECK(kv_key_lcp_skip(x.get(), y.get(), sk) == w, "kv_key_lcp_skip(%u)", sk); break;
    }
    case SORT: {
      size_t n = 1 + r.below(r.chance(1, 4) ? 300 : 30); std::vector<KV> own; std::vector<struct kv*> v; std::vector<string> w; for (size_t i = 0; i < n; ++i) { string k = bytes(Rng::mix(op.a + i), 12); own.push_back(mk(k, "")); v.push_back(own.back().get()); w.push_back(k); } std::sort(w.begin(), w.end(), [](const string& a, const string& b) { return cmp(a, b) < 0; });
      auto q = v; kv_qsort(q.data(), n); for (size_t i = 0; i < n; ++i) PBT_CHECK(K(q[i]) == w[i], "kv_qsort of %zu: place %zu is '%s', expected '%s'", n, i, keys::hex(K(q[i])).c_str(), keys::hex(w[i]).c_str());
      size_t lo = r.below(n), hi = lo + r.below(n - lo); auto p = v; kv_psort(p.data(), n, lo, hi); for (size_t i = lo; i <= hi; ++i) PBT_CHECK(K(p[i]) == w[i], "kv_psort(%zu, %zu..%zu): place %zu is '%s', expected '%s'", n, lo, hi, i, keys::hex(K(p[i])).c_str(), keys::hex(w[i]).c_str());
      std::multiset<struct kv*> A(v.begin(), v.end()), B(p.begin(), p.end()), C(q.begin(), q.end()); PBT_CHECK(A == B && A == C, "sorting lost or duplicated records"); break;
    }
    case TOK: {
      string s; std::vector<string> w; size_t n = r.chance(1, 3) ? 28 + r.below(10) : r.chance(1, 3) ? 60 + r.below(10) : r.below(20); string d = r.chance(1, 2) ? "," : ", \t"; for (size_t i = 0; i < n; ++i) { for (size_t q = r.below(3); q--;) s += d[r.below(d.size())]; string t; for (size_t q = 1 + r.below(5); q--;) t += (char)('a' + r.below(26)); s += t; s += d[r.below(d.size())]; w.push_back(t); }
      char** t = strtoks(s.c_str(), d.c_str()); PBT_CHECK(t, "strtoks fails"); size_t i = 0; for (; t[i]; ++i) PBT_CHECK(i < w.size() && w[i] == t[i], "strtoks of %zu tokens: token %zu is '%s'", n, i, t[i]); PBT_CHECK(i == n, "strtoks gives %zu of %zu tokens", i, n); free(t); break;
    }
    case GCD: { u64 a = word(op.a), b = word(op.b); PBT_CHECK(gcd64(a, b) == std::gcd(a, b), "gcd64(%lu, %lu) = %lu", (unsigned long)a, (unsigned long)b, (unsigned long)gcd64(a, b)); PBT_CHECK(mhash64(a) * 0xF1DE83E19937733DULL == a, "mhash64 is not the documented multiplication"); break; }
  }
}
Case gen(Rng& r, int) { Case c; c.thr.resize(1); size_t n = r.range(1, 12); for (size_t i = 0; i < n; ++i) c.thr[0].push_back({(uint32_t)r.below(12), r.next() >> r.below(60), r.next() >> r.below(60), r.next()}); return c; }
void run(const Case& c, Obs& o) { for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL); if (!c.thr.empty()) for (auto& op : c.thr[0]) one(op, o); o.nontrivial(c.size() > 0); }
PBT_HARNESS(a, {"util", "lists of generated checks of one helper each (record comparison, duplication, filling, kv128 and vi128 encodings, bit tricks, checksums, number strings, common prefixes, sorting, tokens, gcd) against reference computations on exact-size heap buffers; non-trivial: at least one check", kNames, gen, run, 6});

// slabs: objects never overlap, counting is right, free_all gives everything back
enum { ALLOC, FREE, ALL, RESERVE };
const std::vector<string> kSlab = {"alloc", "free", "free_all", "reserve"};
Case gens(Rng& r, int size) { Case c; c.cfg = {8 * r.range(1, r.chance(1, 2) ? 8 : 200), 4096ull << r.below(4), r.below(2)}; c.thr.resize(1); size_t n = r.range(1, 50 + size * 10); unsigned fr = r.range(1, 9); for (size_t i = 0; i < n; ++i) c.thr[0].push_back({(uint32_t)(r.chance(1, 200) ? ALL : r.chance(1, 100) ? RESERVE : r.chance(fr, 10) ? FREE : ALLOC), r.next() >> 40, 0, 0}); return c; }
void runs(const Case& c, Obs& o) {
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL);
  u64 os = c.c(0), bs = c.c(1); bool safe = c.c(2); struct slab* s = slab_create(os, bs); if (!s) return; std::map<u8*, u8> live; u8 tag = 1; uint64_t al = 0, reused = 0; std::set<u8*> seen;
  auto chk = [&](u8* p, u8 t) { for (u64 i = 0; i < os; ++i) PBT_CHECK(p[i] == t, "an allocated slab object was overwritten"); };
  for (auto& op : c.thr.empty() ? pbt::Ops{} : c.thr[0]) switch (op.k) {
    case ALLOC: { u8* p = (u8*)(safe ? slab_alloc_safe(s) : slab_alloc_unsafe(s)); PBT_CHECK(p, "slab allocation failed"); PBT_CHECK(((uintptr_t)p & 7) == 0, "misaligned object"); if (!(os & (os - 1))) PBT_CHECK(((uintptr_t)p & (os - 1)) == 0, "object of %lu bytes at %p", (unsigned long)os, p); auto it = live.lower_bound(p); PBT_CHECK(it == live.end() || it->first >= p + os, "overlapping objects"); if (it != live.begin()) { --it; PBT_CHECK(it->first + os <= p, "overlapping objects"); } memset(p, ++tag, os); live[p] = tag; ++al; reused += !seen.insert(p).second; break; }
    case FREE: if (!live.empty()) { auto it = live.begin(); std::advance(it, op.a % live.size()); chk(it->first, it->second); if (safe) slab_free_safe(s, it->first); else slab_free_unsafe(s, it->first); live.erase(it); } break;
    case ALL: for (auto& x : live) chk(x.first, x.second); slab_free_all(s); live.clear(); break;
    case RESERVE: if (!safe) PBT_CHECK(slab_reserve_unsafe(s, op.a % 300), "slab_reserve_unsafe"); break;
  }
  for (auto& x : live) chk(x.first, x.second); PBT_CHECK(slab_get_nalloc(s) == live.size(), "slab counts %lu allocated objects, %zu are", (unsigned long)slab_get_nalloc(s), live.size()); slab_destroy(s); o.mark("allocations", al); o.mark("reused", reused); o.nontrivial(al >= 2);
}
PBT_HARNESS(b, {"slab", "allocation histories over object and block sizes, safe and unsafe calls: no two live objects overlap, contents stay, the count is right; non-trivial: at least two allocations", kSlab, gens, runs, 1});
}  // namespace
