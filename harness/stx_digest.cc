// tlx digests, hashes, encodings, bit arithmetic and statistics, against OpenSSL and plain definitions.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/evp.h>
#include <tlx/digest/md5.hpp>
#include <tlx/digest/sha1.hpp>
#include <tlx/digest/sha256.hpp>
#include <tlx/digest/sha512.hpp>
#include <tlx/math.hpp>
#include <tlx/meta/log2.hpp>
#include <tlx/siphash.hpp>
#include <tlx/string/base64.hpp>
#include <tlx/string/bitdump.hpp>
#include <tlx/string/hash_djb2.hpp>
#include <tlx/string/hash_sdbm.hpp>
#include <tlx/string/hexdump.hpp>
#include "pbt.h"
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng; using std::string; using std::vector;
namespace {
const vector<string> kCut = {"piece"};
string bytes(uint64_t seed, size_t n, unsigned style) {
  Rng r(seed); string s; for (size_t i = 0; i < n; ++i) s += (char)(style == 0 ? r.below(256) : style == 1 ? "\0\xff\x80\x7f"[r.below(4)] : style == 2 ? 'a' + r.below(26) : 0); return s;
}
string hexref(const string& s, bool uc) { string o; for (unsigned char c : s) { o += (uc ? "0123456789ABCDEF" : "0123456789abcdef")[c >> 4]; o += (uc ? "0123456789ABCDEF" : "0123456789abcdef")[c & 15]; } return o; }
// ---- digests: a message processed in any pieces; lengths crowd around the padding boundaries
Case gdig(Rng& r, int size) {
  Case c; static const size_t at[] = {0, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 183, 184, 239, 240, 256};
  size_t n = r.chance(1, 2) ? at[r.below(18)] + r.below(3) : r.chance(1, 40) ? r.below(20000) : r.below(40 + size * 6);
  c.cfg = {n, r.next(), r.below(4), r.below(4)}; c.thr.resize(1); size_t k = r.below(6); for (size_t i = 0; i < k; ++i) c.thr[0].push_back({0, r.chance(1, 3) ? 64 * r.below(4) : r.below(140), 0, 0}); return c;
}
string ossl(const EVP_MD* md, const string& s) { unsigned char out[64]; unsigned n = 0; PBT_CHECK(EVP_Digest(s.data(), s.size(), out, &n, md, nullptr) == 1, "oracle failed"); return string((char*)out, n); }
template <class D> void dig(const Case& c, const string& s, const EVP_MD* md, string (*h1)(const void*, uint32_t), string (*h2)(const string&), string (*u1)(const void*, uint32_t), string (*u2)(const string&), const char* nm) {
  string ref = ossl(md, s), hx = hexref(ref, false), uc = hexref(ref, true); PBT_CHECK(ref.size() == D::kDigestLength, "%s: length", nm);
  auto feed = [&](D& d, size_t pos) { size_t k = 0; for (const Op& op : c.thr.at(0)) { size_t n = std::min<size_t>(op.a, s.size() - pos); std::unique_ptr<char[]> piece(new char[n]); memcpy(piece.get(), s.data() + pos, n); if (k++ % 2) d.process(string(piece.get(), n)); else d.process(piece.get(), (uint32_t)n); pos += n; } d.process(s.data() + pos, (uint32_t)(s.size() - pos)); };
  { D d; feed(d, 0); string g = d.digest(); PBT_CHECK(g == ref, "%s of %zu bytes in pieces is %s, not %s", nm, s.size(), hexref(g, false).c_str(), hx.c_str()); }
  { size_t k = c.c(3) * 37 % (s.size() + 1); D d(s.data(), (uint32_t)k); feed(d, k); PBT_CHECK(d.digest_hex() == hx, "%s: constructed with %zu bytes, then pieces", nm, k); }
  { size_t k = c.c(3) * 53 % (s.size() + 1); D d(s.substr(0, k)); D e(d); feed(d, k); feed(e, k); PBT_CHECK(d.digest_hex_uc() == uc && e.digest_hex() == hx, "%s: constructed with a string of %zu bytes and copied", nm, k); }
  PBT_CHECK(h1(s.data(), (uint32_t)s.size()) == hx && h2(s) == hx && u1(s.data(), (uint32_t)s.size()) == uc && u2(s) == uc, "%s: one-call functions", nm);
}
void rdig(const Case& c, Obs& o) {
  if (c.thr.empty()) return; string s = bytes(c.c(1), c.c(0) % 40000, c.c(2) % 4);
  dig<tlx::MD5>(c, s, EVP_md5(), tlx::md5_hex, tlx::md5_hex, tlx::md5_hex_uc, tlx::md5_hex_uc, "md5"); dig<tlx::SHA1>(c, s, EVP_sha1(), tlx::sha1_hex, tlx::sha1_hex, tlx::sha1_hex_uc, tlx::sha1_hex_uc, "sha1");
  dig<tlx::SHA256>(c, s, EVP_sha256(), tlx::sha256_hex, tlx::sha256_hex, tlx::sha256_hex_uc, tlx::sha256_hex_uc, "sha256"); dig<tlx::SHA512>(c, s, EVP_sha512(), tlx::sha512_hex, tlx::sha512_hex, tlx::sha512_hex_uc, tlx::sha512_hex_uc, "sha512");
  o.nontrivial(s.size() > 0 && c.thr[0].size() > 0); if (s.size() % 64 >= 56) o.mark("two_padding_blocks");
}
// ---- hashes
uint64_t sip(const uint8_t* k, const uint8_t* m, size_t n) {  // SipHash-2-4, from its paper
  auto le = [](const uint8_t* p) { uint64_t v = 0; for (int i = 7; i >= 0; --i) v = v << 8 | p[i]; return v; }; auto rot = [](uint64_t x, int b) { return x << b | x >> (64 - b); };
  uint64_t k0 = le(k), k1 = le(k + 8), v0 = k0 ^ 0x736f6d6570736575, v1 = k1 ^ 0x646f72616e646f6d, v2 = k0 ^ 0x6c7967656e657261, v3 = k1 ^ 0x7465646279746573;
  auto round = [&](int t) { while (t--) { v0 += v1; v1 = rot(v1, 13); v1 ^= v0; v0 = rot(v0, 32); v2 += v3; v3 = rot(v3, 16); v3 ^= v2; v0 += v3; v3 = rot(v3, 21); v3 ^= v0; v2 += v1; v1 = rot(v1, 17); v1 ^= v2; v2 = rot(v2, 32); } };
  for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t w = le(m + i); v3 ^= w; round(2); v0 ^= w; } uint8_t last[8] = {0}; for (size_t i = n / 8 * 8; i < n; ++i) last[i & 7] = m[i]; last[7] = (uint8_t)n; uint64_t w = le(last); v3 ^= w; round(2); v0 ^= w; v2 ^= 255; round(4); return v0 ^ v1 ^ v2 ^ v3;
}
Case ghash(Rng& r, int size) { Case c; c.cfg = {r.chance(1, 30) ? r.below(1000) : r.below(20 + size), r.next(), r.below(4), r.next()}; c.thr.resize(1); c.thr[0].push_back({0, 0, 0, 0}); return c; }
void rhash(const Case& c, Obs& o) {
  string s = bytes(c.c(1), c.c(0) % 5000, c.c(2) % 4); string key = bytes(c.c(3), 16, 0); std::unique_ptr<uint8_t[]> m(new uint8_t[s.size()]), k(new uint8_t[16]); memcpy(m.get(), s.data(), s.size()); memcpy(k.get(), key.data(), 16);
  uint64_t want = sip(k.get(), m.get(), s.size()); PBT_CHECK(tlx::siphash_plain(k.get(), m.get(), s.size()) == want, "siphash_plain of %zu bytes", s.size());
#if defined(__SSE2__)
  PBT_CHECK(tlx::siphash_sse2(k.get(), m.get(), s.size()) == want, "siphash_sse2 of %zu bytes", s.size());
#endif
  PBT_CHECK(tlx::siphash(k.get(), m.get(), s.size()) == want, "siphash with key"); uint8_t dk[16]; for (int i = 0; i < 16; ++i) dk[i] = (uint8_t)i; want = sip(dk, m.get(), s.size());
  PBT_CHECK(tlx::siphash(m.get(), s.size()) == want && tlx::siphash(s.data(), s.size()) == want && tlx::siphash(s) == want, "siphash with the default key"); uint64_t v = c.c(3); PBT_CHECK(tlx::siphash(v) == sip(dk, (const uint8_t*)&v, 8), "siphash of a value");
  uint32_t d = 5381, b = 0; for (unsigned char ch : s) { d = d * 33 + ch; b = ch + b * 65599; } auto us = (const unsigned char*)m.get();
  PBT_CHECK(tlx::hash_djb2(us, s.size()) == d && tlx::hash_djb2((const char*)us, s.size()) == d && tlx::hash_djb2(s) == d, "hash_djb2"); PBT_CHECK(tlx::hash_sdbm(us, s.size()) == b && tlx::hash_sdbm((const char*)us, s.size()) == b && tlx::hash_sdbm(s) == b, "hash_sdbm");
  string z = s.substr(0, s.find('\0')); d = 5381, b = 0; for (unsigned char ch : z) { d = d * 33 + ch; b = ch + b * 65599; } PBT_CHECK(tlx::hash_djb2(z.c_str()) == d && tlx::hash_djb2((const unsigned char*)z.c_str()) == d, "hash_djb2 of a C string"); PBT_CHECK(tlx::hash_sdbm(z.c_str()) == b && tlx::hash_sdbm((const unsigned char*)z.c_str()) == b, "hash_sdbm of a C string");
  o.nontrivial(s.size() >= 2);
}
// ---- base64, hex and bit dumps
Case genc(Rng& r, int size) { Case c; c.cfg = {r.chance(1, 30) ? r.below(600) : r.below(12 + size / 2), r.next(), r.below(4), r.below(20), r.next()}; c.thr.resize(1); c.thr[0].push_back({0, 0, 0, 0}); return c; }
const char kB64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
string b64ref(const string& s) { string o; for (size_t i = 0; i < s.size(); i += 3) { uint32_t v = 0; size_t n = std::min<size_t>(3, s.size() - i); for (size_t j = 0; j < 3; ++j) v = v << 8 | (j < n ? (unsigned char)s[i + j] : 0); for (size_t j = 0; j < 4; ++j) o += j <= n ? kB64[v >> (18 - 6 * j) & 63] : '='; } return o; }
template <class F> bool throws(F f) { try { f(); return false; } catch (const std::runtime_error&) { return true; } }
void renc(const Case& c, Obs& o) {
  string s = bytes(c.c(1), c.c(0) % 2000, c.c(2) % 4), want = b64ref(s); Rng r(c.c(4)); std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(), s.data(), s.size());
  PBT_CHECK(tlx::base64_encode(s) == want && tlx::base64_encode(p.get(), s.size()) == want, "base64_encode"); PBT_CHECK(tlx::base64_decode(want) == s && tlx::base64_decode(want, false) == s && tlx::base64_decode(want.data(), want.size()) == s, "base64_decode of the encoded bytes");
  size_t lb = 4 * (1 + c.c(3) % 20); string w = tlx::base64_encode(s, lb), flat; size_t line = 0; for (char ch : w) { if (ch == '\n') { PBT_CHECK(line == lb, "base64_encode: line of %zu characters", line); line = 0; } else { ++line; flat += ch; } } PBT_CHECK(line <= lb, "base64_encode: last line of %zu characters", line); PBT_CHECK(flat == want, "base64_encode with line breaks"); PBT_CHECK(tlx::base64_decode(w) == s, "base64_decode of broken lines");
  { string noisy; bool bad = false; for (char ch : want) { while (r.chance(1, 5)) noisy += " \t\n\r"[r.below(4)]; if (r.chance(1, 12)) { noisy += "!-_.,\x80\xff\v\f*"[r.below(10)]; bad = true; } noisy += ch; } PBT_CHECK(tlx::base64_decode(noisy, false) == s, "base64_decode with other characters ignored"); PBT_CHECK(throws([&] { tlx::base64_decode(noisy); }) == bad, "base64_decode: strict %s", bad ? "accepts an invalid character" : "rejects white space"); if (!bad) PBT_CHECK(tlx::base64_decode(noisy) == s, "base64_decode with white space"); if (bad) o.mark("base64_invalid"); }
  { size_t k = want.size(); while (k && want[k - 1] == '=') --k; PBT_CHECK(tlx::base64_decode(want.substr(0, k)) == s, "base64_decode without padding"); }
  vector<char> vc(s.begin(), s.end()); vector<uint8_t> vu(s.begin(), s.end()); string H = hexref(s, true), h = hexref(s, false);
  PBT_CHECK(tlx::hexdump(s) == H && tlx::hexdump(p.get(), s.size()) == H && tlx::hexdump(vc) == H && tlx::hexdump(vu) == H, "hexdump"); PBT_CHECK(tlx::hexdump_lc(s) == h && tlx::hexdump_lc(p.get(), s.size()) == h && tlx::hexdump_lc(vc) == h && tlx::hexdump_lc(vu) == h, "hexdump_lc"); PBT_CHECK(tlx::parse_hexdump(H) == s && tlx::parse_hexdump(h) == s, "parse_hexdump");
  { string d = H; for (char& ch : d) if (r.chance(1, 2)) ch = (char)tolower(ch); PBT_CHECK(tlx::parse_hexdump(d) == s, "parse_hexdump of mixed case"); if (!d.empty()) { if (r.chance(1, 2)) d.erase(r.below(d.size()), 1); else d[r.below(d.size())] = "gG@`/: \0"[r.below(8)]; PBT_CHECK(throws([&] { tlx::parse_hexdump(d); }), "parse_hexdump accepts '%s'", d.c_str()); } }
  { string src = tlx::hexdump_sourcecode(s, "abc"), exp = "const std::uint8_t abc[" + std::to_string(s.size()) + "] = {\n"; for (size_t i = 0; i < s.size(); ++i) { exp += "0x" + H.substr(2 * i, 2); if (i + 1 < s.size()) { exp += ','; if (i % 16 == 15) exp += '\n'; } } exp += "\n};\n"; PBT_CHECK(src == exp, "hexdump_sourcecode"); }
  string M, L; for (size_t i = 0; i < s.size(); ++i) { if (i) M += ' ', L += ' '; for (int b = 0; b < 8; ++b) { M += (char)('0' + ((unsigned char)s[i] >> (7 - b) & 1)); L += (char)('0' + ((unsigned char)s[i] >> b & 1)); } }
  PBT_CHECK(tlx::bitdump_8_msb(s) == M && tlx::bitdump_8_msb(p.get(), s.size()) == M && tlx::bitdump_le8(s) == M && tlx::bitdump_le8(p.get(), s.size()) == M, "bitdump_8_msb"); PBT_CHECK(tlx::bitdump_8_lsb(s) == L && tlx::bitdump_8_lsb(p.get(), s.size()) == L && tlx::bitdump_be8(s) == L && tlx::bitdump_be8(p.get(), s.size()) == L, "bitdump_8_lsb");
  o.nontrivial(s.size() >= 2);
}
// ---- bit arithmetic
Case gmath(Rng& r, int) { Case c; c.cfg = {r.next() >> r.below(64), r.next() >> r.below(64), r.below(64), r.next(), r.below(8)}; if (r.chance(1, 3)) { c.cfg[0] = (1ull << r.below(64)) + r.below(5) - 2; } c.thr.resize(1); c.thr[0].push_back({0, 0, 0, 0}); return c; }
template <class U> void bits(uint64_t v) {
  using S = std::make_signed_t<U>; U x = (U)v; const unsigned W = 8 * sizeof(U); unsigned lz = 0, tz = 0, pc = 0; while (lz < W && !(x >> (W - 1 - lz) & 1)) ++lz; while (tz < W && !(x >> tz & 1)) ++tz; for (unsigned i = 0; i < W; ++i) pc += x >> i & 1; S s = (S)x;
  PBT_CHECK(tlx::clz(x) == lz && tlx::clz(s) == lz && tlx::clz_template(x) == lz, "clz of %llx", (unsigned long long)x); PBT_CHECK(tlx::ctz(x) == tz && tlx::ctz(s) == tz && tlx::ctz_template(x) == tz, "ctz of %llx", (unsigned long long)x);
  PBT_CHECK(tlx::ffs(x) == (x ? tz + 1 : 0) && tlx::ffs(s) == (x ? tz + 1 : 0) && tlx::ffs_template(x) == (x ? tz + 1 : 0), "ffs of %llx", (unsigned long long)x); PBT_CHECK(tlx::popcount(x) == pc && tlx::popcount(s) == pc, "popcount of %llx", (unsigned long long)x);
  unsigned fl = x ? W - 1 - lz : 0, ce = x <= 1 ? 0 : fl + (pc > 1); PBT_CHECK(tlx::integer_log2_floor(x) == fl && tlx::integer_log2_floor_template(x) == fl, "integer_log2_floor of %llx", (unsigned long long)x); PBT_CHECK(tlx::integer_log2_ceil(x) == ce, "integer_log2_ceil of %llx", (unsigned long long)x); if (s >= 0) PBT_CHECK(tlx::integer_log2_floor(s) == fl && tlx::integer_log2_ceil(s) == ce && tlx::integer_log2_floor_template(s) == fl, "integer_log2 of %llx, signed", (unsigned long long)x);
  PBT_CHECK(tlx::is_power_of_two(x) == (pc == 1) && tlx::is_power_of_two_template(x) == (pc == 1), "is_power_of_two of %llx", (unsigned long long)x); PBT_CHECK(tlx::is_power_of_two(s) == (s > 0 && pc == 1), "is_power_of_two of %llx, signed", (unsigned long long)x);
  U down = x ? (U)1 << fl : 0; PBT_CHECK(tlx::round_down_to_power_of_two(x) == down, "round_down_to_power_of_two of %llx", (unsigned long long)x); if (s >= 0) PBT_CHECK((U)tlx::round_down_to_power_of_two(s) == down, "round_down_to_power_of_two of %llx, signed", (unsigned long long)x);
  U up = pc <= 1 ? x : (U)(down << 1); if (pc <= 1 || lz >= 1) PBT_CHECK(tlx::round_up_to_power_of_two(x) == up && tlx::round_up_to_power_of_two_template(x) == up, "round_up_to_power_of_two of %llx", (unsigned long long)x); if (s >= 0 && (pc <= 1 || lz >= 2)) PBT_CHECK((U)tlx::round_up_to_power_of_two(s) == up, "round_up_to_power_of_two of %llx, signed", (unsigned long long)x);
}
template <uint64_t I> void meta() { unsigned f = 0; while (f < 63 && (I >> f) > 1) ++f; PBT_CHECK((unsigned)tlx::Log2<I>::floor == (I ? f : 0) && (unsigned)tlx::Log2<I>::ceil == (I <= 1 ? 0 : (I & (I - 1)) ? f + 1 : f), "Log2<%llu>", (unsigned long long)I); if (I) PBT_CHECK((unsigned)tlx::Log2Floor<I>::value == f, "Log2Floor"); }
template <uint64_t... I> void metas(std::integer_sequence<uint64_t, I...>) { (meta<I>(), ...); }
void rmath(const Case& c, Obs& o) {
  uint64_t a = c.c(0), b = c.c(1); int k = (int)c.c(2) % 64; static bool once = (metas(std::make_integer_sequence<uint64_t, 70>()), meta<(1ull << 33) - 1>(), meta<(1ull << 33)>(), meta<(1ull << 33) + 1>(), true); (void)once;
  bits<unsigned>(a); bits<unsigned long>(a); bits<unsigned long long>(a);
  PBT_CHECK(tlx::popcount_generic8((uint8_t)a) == (unsigned)__builtin_popcount((uint8_t)a) && tlx::popcount_generic16((uint16_t)a) == (unsigned)__builtin_popcount((uint16_t)a) && tlx::popcount_generic32((uint32_t)a) == (unsigned)__builtin_popcount((uint32_t)a) && tlx::popcount_generic64(a) == (unsigned)__builtin_popcountll(a), "popcount_generic of %llx", (unsigned long long)a);
  { size_t n = b % 37, off = c.c(3) % 8; std::unique_ptr<uint8_t[]> m(new uint8_t[n + off]); Rng r(c.c(3)); size_t want = 0; for (size_t i = 0; i < n + off; ++i) { m[i] = (uint8_t)(r.chance(1, 3) ? 255 : r.next()); if (i >= off) want += (size_t)__builtin_popcount(m[i]); } PBT_CHECK(tlx::popcount(m.get() + off, n) == want, "popcount of %zu bytes", n); }
  auto rev = [](uint64_t v, unsigned n) { uint64_t q = 0; for (unsigned i = 0; i < n; ++i) q = q << 8 | (v >> 8 * i & 255); return q; };
  PBT_CHECK(tlx::bswap16((uint16_t)a) == rev(a, 2) && tlx::bswap16_generic((uint16_t)a) == rev(a, 2) && tlx::bswap32((uint32_t)a) == rev(a, 4) && tlx::bswap32_generic((uint32_t)a) == rev(a, 4) && tlx::bswap64(a) == rev(a, 8) && tlx::bswap64_generic(a) == rev(a, 8), "bswap of %llx", (unsigned long long)a);
  PBT_CHECK(tlx::bswap16_be((uint16_t)a) == rev(a, 2) && tlx::bswap32_be((uint32_t)a) == rev(a, 4) && tlx::bswap64_be(a) == rev(a, 8) && tlx::bswap16_le((uint16_t)a) == (uint16_t)a && tlx::bswap32_le((uint32_t)a) == (uint32_t)a && tlx::bswap64_le(a) == a, "bswap_be, bswap_le of %llx", (unsigned long long)a);
  uint64_t l64 = a, r64 = a; uint32_t l32 = (uint32_t)a, r32 = (uint32_t)a; for (int i = 0; i < k; ++i) { l64 = l64 << 1 | l64 >> 63; r64 = r64 >> 1 | r64 << 63; l32 = l32 << 1 | l32 >> 31; r32 = r32 >> 1 | r32 << 31; }
  PBT_CHECK(tlx::rol64(a, k) == l64 && tlx::rol64_generic(a, k) == l64 && tlx::ror64(a, k) == r64 && tlx::ror64_generic(a, k) == r64, "rotating %llx by %d", (unsigned long long)a, k); PBT_CHECK(tlx::rol32((uint32_t)a, k) == l32 && tlx::rol32_generic((uint32_t)a, k) == l32 && tlx::ror32((uint32_t)a, k) == r32 && tlx::ror32_generic((uint32_t)a, k) == r32, "rotating %x by %d", (uint32_t)a, k);
  { uint64_t n = a >> 1, d = (b >> 1) + 1; PBT_CHECK(tlx::div_ceil(n, d) == n / d + (n % d != 0), "div_ceil(%llu, %llu)", (unsigned long long)n, (unsigned long long)d); uint64_t m = n / 2, e = (d >> 1) + 1; PBT_CHECK(tlx::round_up(m, e) == (m / e + (m % e != 0)) * e, "round_up"); PBT_CHECK(tlx::div_ceil((int)(n % 1000), (unsigned)(d % 50 + 1)) == (n % 1000 + d % 50) / (d % 50 + 1), "div_ceil of mixed types"); }
  PBT_CHECK(tlx::abs_diff(a, b) == (a > b ? a - b : b - a), "abs_diff"); int64_t sa = (int64_t)a >> 1, sb = (int64_t)b >> 1; if (c.c(4) & 1) sb = -sb; if (c.c(4) & 2) sa = -sa; PBT_CHECK(tlx::sgn(sa) == (sa > 0) - (sa < 0) && tlx::sgn((double)sb) == (sb > 0) - (sb < 0) && tlx::sgn(a) == (a != 0), "sgn");
  PBT_CHECK(tlx::power_to_the<0>(b) == 1 && tlx::power_to_the<1>(b) == b && tlx::power_to_the<2>(b) == b * b && tlx::power_to_the<3>(b) == b * b * b && tlx::power_to_the<7>(b) == b * b * b * b * b * b * b && tlx::power_to_the<8>(b) == (b * b * b * b) * (b * b * b * b), "power_to_the");
  o.nontrivial(a > 1);
}
// ---- aggregates and regression, against exact sums of small integers
const vector<string> kAgg = {"add", "plus", "plus_assign", "clear"};
Case gagg(Rng& r, int size) { Case c; c.cfg = {r.below(4), r.next(), r.below(4)}; c.thr.resize(1); size_t n = r.below(5 + size); uint32_t most = r.chance(1, 3) ? 4 : 2; for (size_t i = 0; i < n; ++i) c.thr[0].push_back({r.chance(3, 4) ? 0u : (uint32_t)(1 + r.below(3)) % (most + 1), r.below(3), r.below(3), r.next()}); return c; }
bool near(double x, double y, double scale) { return std::fabs(x - y) <= 1e-9 * (1 + std::fabs(scale)); }
template <class T> void ragg(const Case& c, Obs& o) {
  if (c.thr.empty()) return; tlx::Aggregate<T> g[3]; tlx::AggregateMinMax<T> mm[3]; vector<T> m[3]; size_t merges = 0; const int span[] = {10, 1000, 3, 100000}; int S = span[c.c(0) % 4]; bool big = c.c(2) % 4 == 3 && !std::is_integral_v<T>;
  for (const Op& op : c.thr[0]) {
    unsigned x = op.a % 3, y = op.b % 3;
    switch (op.k % 4) {
      case 0: { T v = (T)((int64_t)(op.c % (uint64_t)(2 * S)) - S); if (std::is_unsigned_v<T>) v = (T)(op.c % (uint64_t)S); if (big) v = v + (T)1000000; if (!std::is_integral_v<T> && c.c(2) & 1) v /= 4; g[x].add(v); mm[x].add(v); m[x].push_back(v); break; }
      case 1: if (m[x].size() + m[y].size() > 400) break; g[x] = g[x] + g[y]; mm[x] = mm[x] + mm[y]; { auto t = m[y]; m[x].insert(m[x].end(), t.begin(), t.end()); } merges += !m[y].empty(); break;
      case 2: if (m[x].size() + m[y].size() > 400) break; g[x] += g[y]; mm[x] += mm[y]; { auto t = m[y]; m[x].insert(m[x].end(), t.begin(), t.end()); } merges += !m[y].empty(); break;
      case 3: if (op.c % 4 == 0) { g[x] = {}; mm[x] = {}; m[x].clear(); } else { mm[x].set_min(mm[x].min()); mm[x].set_max(mm[x].max()); } break;
    }
    const auto& v = m[x]; const auto& a = g[x]; PBT_CHECK(a.count() == v.size(), "count %zu, not %zu", a.count(), v.size());
    if (v.empty()) { PBT_CHECK(a.variance() == 0 && a.mean() == 0 && a.sum() == 0, "an empty aggregate has mean %f, variance %f", a.mean(), a.variance()); continue; }
    long double s = 0; T lo = v[0], hi = v[0]; for (T t : v) { s += t; lo = std::min(lo, t); hi = std::max(hi, t); } long double mean = s / v.size(), q = 0; for (T t : v) q += (t - mean) * (t - mean); double sc = big ? 1e6 : S;
    PBT_CHECK(a.min() == lo && a.max() == hi && a.span() == (T)(hi - lo), "min, max, span"); PBT_CHECK(mm[x].min() == lo && mm[x].max() == hi && mm[x].span() == (T)(hi - lo), "AggregateMinMax");
    PBT_CHECK(near(a.mean(), (double)mean, sc) && a.avg() == a.mean() && a.average() == a.mean(), "mean %.12g, not %.12g", a.mean(), (double)mean);
    if (std::is_integral_v<T>) PBT_CHECK(a.sum() == (T)s && a.total() == (T)s, "sum %lld, not %lld", (long long)a.sum(), (long long)s); else PBT_CHECK(near((double)a.sum(), (double)s, sc * v.size()), "sum");
    for (size_t dd = 0; dd < 2; ++dd) { double var = v.size() <= 1 ? 0 : (double)(q / (v.size() - dd)); PBT_CHECK(near(a.variance(dd), var, sc * sc) && a.var(dd) == a.variance(dd) && near(a.stdev(dd) * a.standard_deviation(dd), var, sc * sc), "variance(%zu) of %zu values is %.12g, not %.12g", dd, v.size(), a.variance(dd), var); }
  }
  o.nontrivial(merges > 0); if (merges) o.mark("combined");
}
Case greg(Rng& r, int size) { Case c; c.cfg = {r.below(4), r.next(), r.below(3), r.below(12 + size / 3)}; c.thr.resize(1); c.thr[0].push_back({0, 0, 0, 0}); return c; }
void rreg(const Case& c, Obs& o) {
  size_t order = c.c(0) % 4, n = order + 1 + c.c(3) % 40; Rng r(c.c(1)); tlx::PolynomialRegression<double, true> p(order); vector<long double> X, Y; int range = (int)r.range(order + 1, 8); bool exact = c.c(2) % 3 == 0; vector<int> co; for (size_t i = 0; i <= order; ++i) co.push_back((int)r.below(11) - 5);
  int lo = (int)r.below(9) - 6;
  for (size_t i = 0; i < n; ++i) { int x = lo + (int)(i <= order ? (int)i : (int)r.below((uint64_t)range)); double y = 0; if (exact) for (size_t j = order + 1; j-- > 0;) y = y * x + co[j]; else y = (double)r.below(41) - 20; p.add(x, y); X.push_back(x); Y.push_back(y); PBT_CHECK(p.size() == i + 1 && p.point(i).x == x && p.point(i).y == y, "points"); if (r.chance(1, 20) && i >= order) p.coefficients(); }
  // a least-squares fit leaves residuals orthogonal to 1, x, ..., x^order
  auto cf = p.coefficients(); PBT_CHECK(cf.size() == order + 1, "coefficients"); long double worst = 0, scale = 1;
  for (size_t i = 0; i < n; ++i) { long double e = 0; for (size_t j = order + 1; j-- > 0;) e = e * X[i] + cf[j]; PBT_CHECK(std::fabs((double)e - p.evaluate((double)X[i])) <= 1e-6 * (1 + std::fabs((double)e)), "evaluate(%g) is %g, the coefficients give %g", (double)X[i], p.evaluate((double)X[i]), (double)e); }
  for (size_t k = 0; k <= order; ++k) { long double dot = 0, sc = 1; for (size_t i = 0; i < n; ++i) { long double e = 0; for (size_t j = order + 1; j-- > 0;) e = e * X[i] + cf[j]; long double w = powl(X[i], (long double)k); dot += (Y[i] - e) * w; sc += fabsl(Y[i] * w) + fabsl(w); } if (!(fabsl(dot) <= 1e-5 * sc)) worst = std::max(worst, std::isnan((double)dot) ? (long double)1e30 : fabsl(dot)), scale = sc; }
  PBT_CHECK(worst == 0, "order %zu, %zu points: no least-squares fit (residual product %Lg of %Lg)", order, n, worst, scale);
  if (exact) for (size_t j = 0; j <= order; ++j) PBT_CHECK(std::fabs(cf[j] - co[j]) <= 1e-4 * (1 + std::abs(co[j])) * 100, "coefficient %zu of an exact polynomial is %.9g, not %d", j, cf[j], co[j]);
  long double ym = 0; for (auto y : Y) ym += y; ym /= n; long double st = 0, se = 0; for (size_t i = 0; i < n; ++i) { st += (Y[i] - ym) * (Y[i] - ym); long double e = 0; for (size_t j = order + 1; j-- > 0;) e = e * X[i] + cf[j]; se += (Y[i] - e) * (Y[i] - e); } if (st > 0.5) PBT_CHECK(std::fabs(p.r_square() - (double)(1 - se / st)) < 1e-6, "r_square");
  o.nontrivial(order >= 1 && n > order + 1);
}
const vector<string> kOne = {"case"};
PBT_HARNESS(d1, {"digests", "a random message (lengths crowding around the padding boundaries) fed in random pieces, against OpenSSL; non-trivial: a message in at least two pieces", kCut, gdig, rdig, 2});
PBT_HARNESS(d2, {"hashes", "random messages and keys, against SipHash-2-4, djb2 and sdbm by definition; non-trivial: two bytes", kOne, ghash, rhash, 3});
PBT_HARNESS(d3, {"encodings", "random bytes through base64, hex and bit dumps and back, with line breaks, white space and damage; non-trivial: two bytes", kOne, genc, renc, 3});
PBT_HARNESS(d4, {"bit_arithmetic", "random words of random width through every bit function, against one-bit-at-a-time definitions; non-trivial: above one", kOne, gmath, rmath, 4});
PBT_HARNESS(d5, {"aggregates_double", "random additions and combinations of three aggregates, against exact two-pass statistics; non-trivial: a combination with a non-empty one", kAgg, gagg, ragg<double>, 2});
PBT_HARNESS(d6, {"aggregates_int", "random additions and combinations of three aggregates, against exact two-pass statistics; non-trivial: a combination with a non-empty one", kAgg, gagg, ragg<int64_t>, 1});
PBT_HARNESS(d7, {"aggregates_unsigned", "random additions and combinations of three aggregates, against exact two-pass statistics; non-trivial: a combination with a non-empty one", kAgg, gagg, ragg<uint32_t>, 1});
PBT_HARNESS(d8, {"regression", "polynomials of order 0 to 3 fitted to random points, against the orthogonality that defines a least-squares fit; non-trivial: order one, more points than coefficients", kOne, greg, rreg, 1});
}  // namespace
