// MassTree's msgpack: documents and primitive sequences round trip, any bytes in any pieces agree with a reference decoder.
#include "json.hh"
#include "straccum.hh"
#include "msgpack.hh"
#include "jdoc.h"
using namespace jd; using pbt::Case; using pbt::Obs; using pbt::Op; using lcdf::Json; using lcdf::Str; using lcdf::String; using lcdf::StringAccum; using std::string;
static string S(const String& s) { return string(s.data(), s.length()); }
static D from(const Json& j) {
  if (j.is_null()) return D(); if (j.is_b()) return D::boolean(j.as_b()); if (j.is_d()) return D::dbl(j.as_d());
  if (j.is_i()) return j.is_u() && !j.is_signed() ? D::integer(false, j.as_u()) : D::i64(j.as_i());
  if (j.is_s()) return D::str(S(j.as_s()));
  if (j.is_a()) { D d = D::arr(); for (int i = 0; i < j.size(); ++i) d.a.push_back(from(j[i])); return d; }
  D d = D::obj(); for (auto it = j.cobegin(); it != j.coend(); ++it) d.o.emplace_back(S(it.key()), from(it.value())); return d;
}
static bool deq(const D& x, const D& y) {   // doubles bit for bit
  if (x.t != y.t) return false; if (x.t == D::DBL) return !memcmp(&x.d, &y.d, 8) || (x.d != x.d && y.d != y.d);
  if (x.t == D::ARR) { if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); ++i) if (!deq(x.a[i], y.a[i])) return false; return true; }
  if (x.t == D::OBJ) { if (x.o.size() != y.o.size()) return false; for (size_t i = 0; i < x.o.size(); ++i) if (x.o[i].first != y.o[i].first || !deq(x.o[i].second, y.o[i].second)) return false; return true; }
  return equal(x, y);
}
static Json to(const D& d) {
  switch (d.t) {
    case D::NUL: return Json(); case D::BOOL: return Json((bool)d.u); case D::DBL: return Json(d.d); case D::STR: return Json(String(d.s.data(), (int)d.s.size()));
    case D::INT: if (d.neg) return Json((long)(0 - d.u)); if (d.u < 1u << 31 && (d.u & 1)) return Json((int)d.u); if (d.u < 1ull << 63 && (d.u & 2)) return Json((long)d.u); return Json((unsigned long)d.u);
    case D::ARR: { Json j = Json::make_array(); for (auto& x : d.a) j.push_back(to(x)); return j; }
    default: { Json j = Json::make_object(); for (auto& p : d.o) j.set(String(p.first.data(), (int)p.first.size()), to(p.second)); return j; }
  }
}
static void be(string& s, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) s += (char)(v >> 8 * i); }
static void head(string& s, uint64_t n, int fix, uint64_t nfix, int f8, int f16, int f32, int slack) {   // slack: skip that many of the smallest possible forms
  if (n < nfix && slack-- <= 0) s += (char)(fix + n); else if (f8 && n < 256 && slack-- <= 0) { s += (char)f8; s += (char)n; } else if (n < 65536 && slack-- <= 0) { s += (char)f16; be(s, n, 2); } else { s += (char)f32; be(s, n, 4); }
}
static void enc(string& s, const D& d, Rng* r) {   // r: any valid form; without: the smallest, integers as signed
  auto sl = [&] { return r && r->chance(1, 4) ? (int)r->below(4) : 0; };
  switch (d.t) {
    case D::NUL: s += '\xc0'; break; case D::BOOL: s += d.u ? '\xc3' : '\xc2'; break;
    case D::DBL: if (r && (double)(float)d.d == d.d && r->chance(1, 2)) { float f = (float)d.d; uint32_t u; memcpy(&u, &f, 4); s += '\xca'; be(s, u, 4); } else { uint64_t u; memcpy(&u, &d.d, 8); s += '\xcb'; be(s, u, 8); } break;
    case D::STR: { bool bin = r && r->chance(1, 5); head(s, d.s.size(), 0xa0, bin ? 0 : 32, bin ? 0xc4 : 0xd9, bin ? 0xc5 : 0xda, bin ? 0xc6 : 0xdb, sl()); s += d.s; break; }
    case D::INT: {
      int k = sl(); int64_t v = (int64_t)(d.neg ? 0 - d.u : d.u); bool sg = d.neg || (d.u < 1ull << 63 && (!r || r->chance(1, 3)));
      if (!sg) { if (d.u < 128 && k-- <= 0) s += (char)d.u; else if (d.u < 256 && k-- <= 0) { s += '\xcc'; be(s, d.u, 1); } else if (d.u < 65536 && k-- <= 0) { s += '\xcd'; be(s, d.u, 2); } else if (d.u <= 0xffffffff && k-- <= 0) { s += '\xce'; be(s, d.u, 4); } else { s += '\xcf'; be(s, d.u, 8); } }
      else { if (v >= -32 && v < 128 && k-- <= 0) s += (char)v; else if (v >= -128 && v < 128 && k-- <= 0) { s += '\xd0'; be(s, v, 1); } else if (v >= -32768 && v < 32768 && k-- <= 0) { s += '\xd1'; be(s, v, 2); } else if (v >= INT32_MIN && v <= INT32_MAX && k-- <= 0) { s += '\xd2'; be(s, v, 4); } else { s += '\xd3'; be(s, v, 8); } }
      break;
    }
    case D::ARR: head(s, d.a.size(), 0x90, 16, 0, 0xdc, 0xdd, sl()); for (auto& x : d.a) enc(s, x, r); break;
    default: head(s, d.o.size(), 0x80, 16, 0, 0xde, 0xdf, sl()); for (auto& p : d.o) { enc(s, D::str(p.first), r); enc(s, p.second, r); } break;
  }
}
struct Dec {   // reference decoder; ok: a whole value; more: ends too early; neither: not acceptable
  const string& t; size_t p = 0; bool more = false, unspec = false; uint64_t cells = 0; int depth = 0;
  explicit Dec(const string& s) : t(s) {}
  bool need(size_t n) { if (t.size() - p < n) { more = true; return false; } return true; }
  uint64_t num(int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (unsigned char)t[p++]; return v; }
  bool raw(D& d, uint64_t n) { d.t = D::STR; if (n >= 1ull << 31) { unspec = true; return false; } if (!need(n)) return false; d.s.assign(t, p, n); p += n; return true; }
  bool arr(D& d, uint64_t n) { d = D::arr(); if (n >= 1ull << 31) { unspec = true; return false; } if ((cells += n) > 200000) { unspec = true; more = true; return false; } if (++depth > 900) { unspec = true; return false; } for (uint64_t i = 0; i < n; ++i) { D x; if (!val(x)) return false; d.a.push_back(std::move(x)); } --depth; return true; }
  bool map(D& d, uint64_t n) {
    d = D::obj(); if (n >= 1ull << 31) { unspec = true; return false; } if (++depth > 900) { unspec = true; return false; }
    for (uint64_t i = 0; i < n; ++i) {
      if (!need(1)) return false; int c = (unsigned char)t[p]; if ((c >= 0x80 && c < 0xa0) || c == 0xc0 || c == 0xc2 || c == 0xc3) return false;
      if (c >= 0xdc && c <= 0xdf) { if (need(c & 1 ? 5 : 3)) { ++p; if (num(c & 1 ? 4 : 2) > 65536) unspec = more = true; } return false; }   // a container as key: refused once its header is there
      D k, x; if (!val(k)) return false; if (k.t != D::STR && k.t != D::INT) return false; string ks = k.t == D::STR ? k.s : (k.neg ? "-" : "") + std::to_string(k.u);
      if (!val(x)) return false; d.at(ks) = x;
    }
    --depth; return true;
  }
  bool val(D& d) {
    if (!need(1)) return false; int c = (unsigned char)t[p++];
    if (c < 0x80 || c >= 0xe0) { d = D::i64((int8_t)c); return true; } if (c < 0x90) return map(d, c & 15); if (c < 0xa0) return arr(d, c & 15); if (c < 0xc0) return raw(d, c & 31);
    static const int len[] = {0, -1, 0, 0, 1, 2, 4, -1, -1, -1, 4, 8, 1, 2, 4, 8, 1, 2, 4, 8, -1, -1, -1, -1, -1, 1, 2, 4, 2, 4, 2, 4}; int n = len[c - 0xc0]; if (n < 0) return false; if (!need(n)) return false;
    uint64_t v = num(n);
    if (c == 0xc0) d = D(); else if (c < 0xc4) d = D::boolean(c & 1); else if (c < 0xc7 || (c >= 0xd9 && c < 0xdc)) return raw(d, v); else if (c == 0xca) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); d = D::dbl(f); } else if (c == 0xcb) { double f; memcpy(&f, &v, 8); d = D::dbl(f); }
    else if (c < 0xd0) d = D::integer(false, v); else if (c < 0xd4) d = D::i64(n == 1 ? (int8_t)v : n == 2 ? (int16_t)v : n == 4 ? (int32_t)v : (int64_t)v); else if (c < 0xde) return arr(d, v); else return map(d, v);
    return true;
  }
};
static D gdoc(Rng& r, int budget, int depth = 0) {
  static const uint64_t edge[] = {0, 1, 31, 32, 33, 127, 128, 129, 255, 256, 32767, 32768, 32769, 65535, 65536, 0x7fffffff, 0x80000000ull, 0x80000001ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull};
  int k = budget <= 1 || depth > 30 ? r.range(2, 6) : r.weighted({4, 4, 2, 2, 1, 1, 1});
  switch (k) {
    case 0: case 1: { D d = k ? D::arr() : D::obj(); int n = r.chance(1, 25) ? r.range(10, 40) : (int)r.below(1 + std::min(budget, 6)); for (int i = 0; i < n; ++i) { D x = gdoc(r, (budget - 1) / (n > 2 ? 2 : n), depth + 1); if (k) d.a.push_back(x); else d.at(key(r.chance(1, 2) ? r.below(40) : r.next())) = x; } return d; }
    case 2: return D::str(utf8s(text(r.next()))); case 3: { uint64_t v = r.chance(1, 2) ? edge[r.below(sizeof edge / sizeof *edge)] : r.next() >> r.below(64); bool n = v <= 1ull << 63 && r.chance(1, 3); if (r.chance(1, 40)) v = 1ull << 63; return D::integer(n, v); }
    case 4: return D::boolean(r.chance(1, 2)); case 5: { uint64_t b = r.next(); double x; memcpy(&x, &b, 8); return D::dbl(r.chance(1, 3) ? x : (double)(int)b / (1 << r.below(10))); }
    default: return D();
  }
}
enum { VAL, BYTE, DEL, BIG, NTOK };
static const std::vector<string> kTok = {"value", "byte", "delete", "long_string"};
static string build(const Case& c, bool& damaged) {
  string s; damaged = false; if (c.thr.empty()) return s;
  for (auto& p : c.thr[0]) switch (p.k) {
    case VAL: { Rng r(p.a); D d = p.a ? gdoc(r, 1 + p.b % 20) : D(); enc(s, d, p.c ? &r : nullptr); break; }
    case BIG: { Rng r(p.a); size_t n = r.chance(1, 2) ? r.range(250, 260) : r.chance(1, 2) ? r.range(65530, 65540) : r.below(9000); enc(s, D::str(string(n, 'b')), &r); break; }
    case BYTE: damaged = true; if (s.empty()) s += (char)p.b; else if (p.c & 1) s.insert(p.a % (s.size() + 1), 1, (char)p.b); else s[p.a % s.size()] = (char)p.b; break;
    default: damaged = true; if (!s.empty()) { if (p.c & 1) s.resize(p.a % (s.size() + 1)); else s.erase(p.a % s.size(), 1 + p.b % 3); }
  }
  return s;
}
static Case gbytes(Rng& r, int size) {
  Case c; c.cfg = {r.next() & 0xffffffff, r.below(64)}; c.thr.resize(1); auto& v = c.thr[0]; v.push_back({r.chance(1, 25) ? (uint32_t)BIG : (uint32_t)VAL, r.next(), r.below(4 + size), r.below(2)}); if (r.chance(1, 8)) v.push_back({VAL, r.next(), r.below(4), 1});
  static const int hot[] = {0xc0, 0xc1, 0xc4, 0xc6, 0xc7, 0xca, 0xcb, 0xcc, 0xcf, 0xd3, 0xd4, 0xd8, 0xd9, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xbf, 0x7f, 0};
  if (r.chance(1, 2)) for (int n = r.range(1, 4); n--;) { if (r.chance(2, 3)) v.push_back({BYTE, r.chance(1, 2) ? r.below(3) : r.next(), r.chance(2, 3) ? (uint64_t)hot[r.below(sizeof hot / sizeof *hot)] : r.below(256), r.next() & 1}); else v.push_back({DEL, r.next(), r.next(), r.next() & 1}); }
  return c;
}
static void rbytes(const Case& c, Obs& o) {
  bool damaged; string t = build(c, damaged); D d; Dec ref(t); bool ok = ref.val(d); if (ref.unspec && ref.more) { o.mark("too_big"); return; }
  o.mark(ok ? "whole" : ref.more ? "cut_short" : "refused"); o.nontrivial(ok ? d.count() > 2 : t.size() > 2);
  Rng r(c.c(0)); unsigned style = (unsigned)c.c(1); msgpack::streaming_parser sp; Json kept; D kd; int rounds = 1 + (style >> 5 & 1);
  for (int q = 0; q < rounds; ++q) {
    if (q) { sp.reset(); style = style * 7 + 3; }
    size_t p = 0; int idle = 0;
    while (p < t.size() && !sp.done()) {
      size_t n = style % 4 == 0 ? 1 : style % 4 == 1 ? 1 + r.below(3) : style % 4 == 2 ? 1 + r.below(20) : t.size() - p; n = std::min(n, t.size() - p); size_t used;
      if (style & 4) { String s(t.data() + p, (int)n); const char* e = sp.consume(s.begin(), s.end(), s); PBT_CHECK(e >= s.begin() && e <= s.end(), "consume returned a position outside its input"); used = e - s.begin(); }
      else { std::unique_ptr<char[]> b(new char[n]); memcpy(b.get(), t.data() + p, n); used = sp.consume(b.get(), n); PBT_CHECK(used <= n, "consume used %zu of %zu bytes", used, n); }
      p += used; idle = used ? 0 : idle + 1; PBT_CHECK(idle < 3 || sp.done(), "consume makes no progress");
    }
    if (ok) { PBT_CHECK(sp.success(), "%s in pieces: not accepted", esc(t.substr(0, 200)).c_str()); PBT_CHECK(p == ref.p, "%s in pieces: stopped after %zu bytes, the value has %zu", esc(t.substr(0, 200)).c_str(), p, ref.p); D g = from(sp.result()); PBT_CHECK(deq(g, d), "%s in pieces gives %s, expected %s", esc(t.substr(0, 200)).c_str(), show(g).c_str(), show(d).c_str()); }
    else if (!ref.unspec && ref.more) PBT_CHECK(!sp.done(), "%s is cut short, yet the parser is done (%s)", esc(t.substr(0, 200)).c_str(), sp.success() ? "success" : "error");
    else PBT_CHECK(!sp.success(), "%s in pieces: accepted, should be refused", esc(t.substr(0, 200)).c_str());
    if (!q && ok) { kept = sp.result(); kd = d; }
  }
  if (ok) { D g = from(kept); PBT_CHECK(deq(g, kd), "a result kept from the first use changed when the parser was used again: %s, was %s", show(g).c_str(), show(kd).c_str()); }
  { Json j = msgpack::parse(String(t.data(), (int)t.size())); D g = from(j), w = ok ? d : D(); PBT_CHECK(deq(g, w), "parse(%s) gives %s, expected %s", esc(t.substr(0, 200)).c_str(), show(g).c_str(), show(w).c_str()); }
  { std::unique_ptr<char[]> b(new char[t.size() + !t.size()]); memcpy(b.get(), t.data(), t.size()); Json j = msgpack::parse(b.get(), b.get() + t.size()); D g = from(j), w = ok ? d : D(); PBT_CHECK(deq(g, w), "parse(%s) gives %s, expected %s", esc(t.substr(0, 200)).c_str(), show(g).c_str(), show(w).c_str()); }
  if (ok) {
    string pad = t.substr(0, ref.p) + string(4200, '\xc1'); msgpack::parser ps(pad.data()); Json j; ps >> j; D g = from(j); PBT_CHECK(deq(g, d) && ps.position() == pad.data() + ref.p, "parser >> Json on %s gives %s", esc(t.substr(0, 200)).c_str(), show(g).c_str());
    Json k = to(d); String u = msgpack::unparse(k); string us = S(u); Dec r2(us); D d2; PBT_CHECK(r2.val(d2) && r2.p == us.size() && deq(d, d2), "unparse(%s) wrote %s", show(d).c_str(), esc(us.substr(0, 200)).c_str()); string want; enc(want, d, nullptr); PBT_CHECK(us.size() <= want.size(), "unparse(%s) takes %zu bytes, %zu suffice", show(d).c_str(), us.size(), want.size());
  }
}
// ---- sequences of primitives
enum { INT, UNS, LNG, ULN, WIDE, WIDEU, DBL, BOOL, STRV, STRS, NUL, AHEAD, VEC, FLT, JSN, NP };
static const std::vector<string> kSeq = {"int", "unsigned", "long", "unsigned_long", "wide", "wide_unsigned", "double", "bool", "Str", "String", "null", "array_header", "vector", "float", "json"};
static Case gseq(Rng& r, int size) { Case c; c.cfg = {r.below(3)}; c.thr.resize(1); size_t n = r.range(1, 5 + size * 2); for (size_t i = 0; i < n; ++i) c.thr[0].push_back({(uint32_t)r.below(NP), r.next(), r.below(64), r.next()}); return c; }
static void rseq(const Case& c, Obs& o) {
  if (c.thr.empty()) return; StringAccum sa; msgpack::unparser<StringAccum> u(sa); struct V { uint32_t k; D d; bool skip; size_t at; }; std::vector<V> vs; size_t ints = 0;
  auto val = [](const Op& p) { static const uint64_t edge[] = {0, 1, 31, 32, 33, 127, 128, 129, 255, 256, 32767, 32768, 32769, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 1ull << 63}; uint64_t x = p.c % 3 == 0 ? p.a >> p.b : edge[p.a % (sizeof edge / sizeof *edge)]; return p.c & 4 ? 0 - x : x; };
  for (auto& p : c.thr[0]) {
    V v{p.k % NP, D(), (p.c >> 8) % 3 == 0, (size_t)sa.length()}; uint64_t x = val(p); Rng r(p.a);
    switch (v.k) {
      case INT: v.d = D::i64((int)x); u << (int)x; break; case UNS: v.d = D::integer(false, (unsigned)x); u << (unsigned)x; break; case LNG: v.d = D::i64((long)x); if (x & 8) u << (long)x; else u << (long long)x; break; case ULN: v.d = D::integer(false, x); if (x & 8) u << (unsigned long)x; else u << (unsigned long long)x; break;
      case WIDE: v.d = D::i64((int64_t)x); u.write_wide((int64_t)x); PBT_CHECK(sa.length() == (int)v.at + 9, "write_wide writes 9 bytes"); break; case WIDEU: v.d = D::integer(false, x); u.write_wide((uint64_t)x); PBT_CHECK(sa.length() == (int)v.at + 9, "write_wide writes 9 bytes"); break;
      case DBL: { double f; memcpy(&f, &p.a, 8); v.d = D::dbl(f); u << f; break; } case FLT: { uint32_t b = (uint32_t)p.a; float f; memcpy(&f, &b, 4); v.d = D::dbl(f); u << f; break; } case BOOL: v.d = D::boolean(p.a & 1); u << Json(bool(p.a & 1)); break; case NUL: if (p.a & 1) u.null(); else u << Json::null; break;
      case STRV: case STRS: { size_t n = r.weighted({4, 2, 2, 1}); n = n == 0 ? r.below(40) : n == 1 ? r.range(28, 34) : n == 2 ? r.range(250, 260) : r.range(65530, 65540); string s(n, 'x'); if (n) s[0] = (char)p.b, s[n - 1] = (char)(p.b * 3); v.d = D::str(s); if (v.k == STRV) u << Str(s.data(), (int)n); else u << String(s.data(), (int)n); break; }
      case AHEAD: { uint32_t n = r.chance(1, 2) ? (uint32_t)r.below(20) : (uint32_t)p.a >> r.below(32); v.d = D::integer(false, n); if (p.b & 1) u << msgpack::array(n); else u.write_array_header(n); break; }
      case VEC: { size_t n = r.chance(1, 10) ? r.range(14, 18) : r.below(6); v.d = D::arr(); u << msgpack::array((uint32_t)n); for (size_t i = 0; i < n; ++i) { int y = (int)r.next() >> r.below(32); v.d.a.push_back(D::i64(y)); u << y; } break; }
      default: { v.d = gdoc(r, 1 + p.b % 8); u << to(v.d); }
    }
    o.mark(kSeq[v.k].c_str()); ++ints; vs.push_back(v);
  }
  o.nontrivial(ints > 2); string all = S(sa.take_string()); size_t end = all.size(); all += string(4200, '\xc1'); String str(all.data(), (int)all.size());
  msgpack::parser p = c.c(0) == 0 ? msgpack::parser(all.data()) : c.c(0) == 1 ? msgpack::parser((const unsigned char*)all.data()) : msgpack::parser(str); const char* base = c.c(0) == 2 ? str.data() : all.data();
  for (size_t i = 0; i < vs.size(); ++i) {
    V& v = vs[i]; D g; const char* nm = kSeq[v.k].c_str(); PBT_CHECK(p.position() == base + v.at, "before value %zu (%s) the parser is at %zd instead of %zu", i, nm, p.position() - base, v.at);
    bool neg = v.d.t == D::INT && v.d.neg; uint64_t uv = v.d.u; int64_t sv = (int64_t)(neg ? 0 - uv : uv);
    if (v.k == FLT || (v.skip && v.k != AHEAD && v.k != VEC && v.k != JSN)) { size_t n = 1; while (i + n < vs.size() && vs[i + n].skip && vs[i + n].k < AHEAD && n < 5) ++n; if (n == 1) p.skip_primitive(); else p.skip_primitives((unsigned)n); i += n - 1; o.mark("skip"); continue; }
    if (all[v.at] != '\xc0') PBT_CHECK(!p.try_read_null(), "try_read_null takes %s", nm);
    switch (v.k) {
      case INT: case UNS: case LNG: case ULN: case WIDE: case WIDEU: { bool u64 = !neg, s64 = neg ? uv <= 1ull << 63 : uv < 1ull << 63, i32 = s64 && sv >= INT32_MIN && sv <= INT32_MAX, u32 = !neg && uv <= 0xffffffff; int how = (int)((uv + i) % 5); if (i32 && sv >= -32 && sv < 128 && v.k != WIDE && v.k != WIDEU && how == 4) { int x; if (i & 1) p.read_tiny_int(x); else x = p.read_tiny_int(); g = D::i64(x); } else if (i32 && how == 0) { int x; p >> x; g = D::i64(x); } else if (u32 && how == 1) { unsigned x; p >> x; g = D::integer(false, x); } else if (s64 && how != 2) { long x; p >> x; g = D::i64(x); } else if (u64) { unsigned long x; p >> x; g = D::integer(false, x); } else { long long x; p >> x; g = D::i64(x); } break; }
      case DBL: { double x; p >> x; g = D::dbl(x); break; } case BOOL: { bool x; p >> x; g = D::boolean(x); break; }
      case STRV: { Str x; p >> x; g = D::str(string(x.s, x.len)); break; } case STRS: { String x; p >> x; g = D::str(S(x)); break; }
      case NUL: PBT_CHECK(p.try_read_null(), "null not read back"); break; case AHEAD: if (v.skip) { p.skip_array_size(); g = v.d; } else { unsigned x; p.read_array_header(x); g = D::integer(false, x); } break;
      case VEC: { std::vector<int> x; p >> x; g = D::arr(); for (int y : x) g.a.push_back(D::i64(y)); break; } default: { Json j; p >> j; g = from(j); }
    }
    PBT_CHECK(deq(g, v.d), "%s: wrote %s, read %s", nm, show(v.d).c_str(), show(g).c_str());
  }
  PBT_CHECK(p.position() == base + end, "after the last value the parser is at %zd instead of %zu", p.position() - base, end);
}
PBT_HARNESS(a, {"bytes", "encoded documents in every valid form, half of them damaged, read whole, in pieces and by every reader; non-trivial: a document of more than two values, or a refused or cut message longer than 2 bytes", kTok, gbytes, rbytes, 3});
PBT_HARNESS(b, {"seq", "sequences of primitives written and read back by type, by skipping and as JSON; non-trivial: more than two values", kSeq, gseq, rseq, 2});
