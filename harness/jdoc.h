// A reference JSON document model with a strict parser (RFC 8259 over valid UTF-8), shared by the JSON and msgpack checks.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "pbt.h"
namespace jd {
using pbt::Rng;
struct D {
  enum T { NUL, BOOL, INT, DBL, STR, ARR, OBJ } t = NUL; bool neg = false; uint64_t u = 0; double d = 0; std::string s; std::vector<D> a; std::vector<std::pair<std::string, D>> o;
  static D boolean(bool b) { D x; x.t = BOOL; x.u = b; return x; }
  static D integer(bool neg, uint64_t u) { D x; x.t = INT; x.neg = neg && u; x.u = u; return x; }
  static D i64(int64_t v) { return integer(v < 0, v < 0 ? 0 - (uint64_t)v : (uint64_t)v); }
  static D dbl(double d) { D x; x.t = DBL; x.d = d; return x; }
  static D str(std::string s) { D x; x.t = STR; x.s = std::move(s); return x; }
  static D arr() { D x; x.t = ARR; return x; }
  static D obj() { D x; x.t = OBJ; return x; }
  D* find(const std::string& k) { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
  D& at(const std::string& k) { if (D* p = find(k)) return *p; o.emplace_back(k, D()); return o.back().second; }
  size_t count() const { size_t n = 1; for (auto& x : a) n += x.count(); for (auto& p : o) n += p.second.count(); return n; }
  bool finite() const { if (t == DBL && !std::isfinite(d)) return false; for (auto& x : a) if (!x.finite()) return false; for (auto& p : o) if (!p.second.finite()) return false; return true; }
  double num() const { return t == DBL ? d : neg ? -(double)u : (double)u; }
};
inline std::string esc(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '\\') o += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }
inline std::string show(const D& d, int lim = 3) {
  char b[64];
  switch (d.t) {
    case D::NUL: return "null"; case D::BOOL: return d.u ? "true" : "false";
    case D::INT: snprintf(b, sizeof b, "%s%llu", d.neg ? "-" : "", (unsigned long long)d.u); return b; case D::DBL: snprintf(b, sizeof b, "%.17gd", d.d); return b;
    case D::STR: return "'" + esc(d.s.substr(0, 60)) + "'";
    case D::ARR: { std::string s = "["; if (!lim) return "[..]"; for (size_t i = 0; i < d.a.size() && i < 8; ++i) s += (i ? "," : "") + show(d.a[i], lim - 1); return s + (d.a.size() > 8 ? ",..]" : "]"); }
    default: { std::string s = "{"; if (!lim) return "{..}"; for (size_t i = 0; i < d.o.size() && i < 8; ++i) s += (i ? "," : "") + esc(d.o[i].first.substr(0, 30)) + ":" + show(d.o[i].second, lim - 1); return s + (d.o.size() > 8 ? ",..}" : "}"); }
  }
}
// tol: doubles printed with 12 digits and read back, possibly as integers
inline bool equal(const D& x, const D& y, bool tol = false, bool order = true) {
  bool nx = x.t == D::INT || x.t == D::DBL, ny = y.t == D::INT || y.t == D::DBL;
  if (nx && ny) {
    if (x.t == D::INT && y.t == D::INT) return x.neg == y.neg && x.u == y.u;
    if (x.t != y.t && !tol) return false;
    double a = x.num(), b = y.num(); if (a == b) return true; return tol && std::fabs(a - b) <= std::fabs(a) * 1e-11;
  }
  if (x.t != y.t) return false;
  switch (x.t) {
    case D::NUL: return true; case D::BOOL: return x.u == y.u; case D::STR: return x.s == y.s;
    case D::ARR: if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); ++i) if (!equal(x.a[i], y.a[i], tol, order)) return false; return true;
    case D::OBJ: if (x.o.size() != y.o.size()) return false; for (size_t i = 0; i < x.o.size(); ++i) { if (x.o[i].first != y.o[i].first || !equal(x.o[i].second, y.o[i].second, tol, order)) return false; } return true;
    default: return false;
  }
}
inline void utf8(std::string& s, uint32_t c) {
  if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
}
struct Ref {   // strict parser
  const std::string& t; size_t p = 0; bool ok = true, unspec = false; int depth = 0; size_t end = 0;   // end: where the value ends
  explicit Ref(const std::string& s) : t(s) {}
  int ch() const { return p < t.size() ? (unsigned char)t[p] : -1; }
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t')) ++p; }
  bool bad() { ok = false; return false; }
  bool lit(const char* l) { size_t n = strlen(l); if (t.compare(p, n, l)) return bad(); p += n; return true; }
  bool hex4(uint32_t& v) { v = 0; for (int i = 0; i < 4; ++i) { int c = ch(); if (c >= '0' && c <= '9') v = v * 16 + c - '0'; else if (c >= 'a' && c <= 'f') v = v * 16 + c - 'a' + 10; else if (c >= 'A' && c <= 'F') v = v * 16 + c - 'A' + 10; else return bad(); ++p; } return true; }
  bool string(std::string& s) {
    s.clear(); ++p;
    for (;;) {
      int c = ch(); if (c < 0) return bad();
      if (c == '"') { ++p; return true; }
      if (c < 32) return bad();
      if (c == '\\') {
        ++p; c = ch(); ++p;
        switch (c) {
          case '"': case '\\': case '/': s += (char)c; break; case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
          case 'u': { uint32_t v, w; if (!hex4(v)) return false; if (v >= 0xdc00 && v < 0xe000) return bad(); if (v >= 0xd800 && v < 0xdc00) { if (ch() != '\\') return bad(); ++p; if (ch() != 'u') return bad(); ++p; if (!hex4(w)) return false; if (w < 0xdc00 || w >= 0xe000) return bad(); v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); } if (v == 0xfffe || v == 0xffff) unspec = true; utf8(s, v); break; }
          default: return bad();
        }
        continue;
      }
      if (c < 0x80) { s += (char)c; ++p; continue; }
      int n = c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0; if (!n) return bad();
      if (p + n > t.size()) return bad();
      uint32_t v = c & (0x7f >> n); for (int i = 1; i < n; ++i) { int x = (unsigned char)t[p + i]; if ((x & 0xc0) != 0x80) return bad(); v = v << 6 | (x & 63); }
      if ((n == 3 && v < 0x800) || (n == 4 && v < 0x10000) || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return bad();
      s.append(t, p, n); p += n;
    }
  }
  bool number(D& d) {
    size_t b = p; bool neg = false, frac = false; if (ch() == '-') { neg = true; ++p; }
    if (ch() == '0') ++p; else if (ch() >= '1' && ch() <= '9') while (ch() >= '0' && ch() <= '9') ++p; else return bad();
    if (ch() == '.') { frac = true; ++p; if (ch() < '0' || ch() > '9') return bad(); while (ch() >= '0' && ch() <= '9') ++p; }
    if (ch() == 'e' || ch() == 'E') { frac = true; ++p; if (ch() == '+' || ch() == '-') ++p; if (ch() < '0' || ch() > '9') return bad(); while (ch() >= '0' && ch() <= '9') ++p; }
    std::string s = t.substr(b, p - b);
    if (!frac) { uint64_t v = 0; bool over = false; for (size_t i = neg; i < s.size(); ++i) { over |= __builtin_mul_overflow(v, (uint64_t)10, &v); over |= __builtin_add_overflow(v, (uint64_t)(s[i] - '0'), &v); } if (!over && (!neg || v <= 1ull << 63)) { d = D::integer(neg, v); return true; } }
    d = D::dbl(strtod(s.c_str(), nullptr)); return true;
  }
  bool value(D& d) {
    if (++depth > 1500) { unspec = true; return bad(); }
    ws(); int c = ch(); bool r;
    if (c == '"') { d.t = D::STR; r = string(d.s); }
    else if (c == '{') {
      d = D::obj(); ++p; ws(); if (ch() == '}') { ++p; r = true; }
      else for (;;) { ws(); std::string k; if (ch() != '"') return bad(); if (!string(k)) return false; ws(); if (ch() != ':') return bad(); ++p; D x; if (!value(x)) return false; d.at(k) = x; ws(); if (ch() == ',') { ++p; continue; } if (ch() == '}') { ++p; r = true; break; } return bad(); }
    } else if (c == '[') {
      d = D::arr(); ++p; ws(); if (ch() == ']') { ++p; r = true; }
      else for (;;) { D x; if (!value(x)) return false; d.a.push_back(std::move(x)); ws(); if (ch() == ',') { ++p; continue; } if (ch() == ']') { ++p; r = true; break; } return bad(); }
    } else if (c == 'n') { d = D(); r = lit("null"); } else if (c == 't') { d = D::boolean(true); r = lit("true"); } else if (c == 'f') { d = D::boolean(false); r = lit("false"); }
    else if (c == '-' || (c >= '0' && c <= '9')) r = number(d); else return bad();
    --depth; return r;
  }
  bool parse(D& d) { if (!value(d)) return false; end = p; ws(); return p == t.size() ? true : bad(); }
};
// content
inline uint32_t codepoint(Rng& r) {
  static const uint32_t edge[] = {0, 1, 8, 9, 10, 12, 13, 31, 32, '"', '\\', '/', 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0x7fff, 0x8000, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10ffff, 0x2027, 0x2028, 0x2029, 0x202a, 0xe9, 0x1d11e, 0xabcd, 0xfabc, 0x10fabc};
  switch (r.weighted({6, 3, 2, 1, 1})) { case 0: return 'a' + r.below(26); case 1: return edge[r.below(sizeof edge / sizeof *edge)]; case 2: return 32 + r.below(95); case 3: { uint32_t c = r.below(0xd800); return c; } default: return 0x10000 + r.below(0x100000); }
}
inline std::vector<uint32_t> text(uint64_t seed) { if (!seed) return {}; Rng r(seed); std::vector<uint32_t> v; size_t n = r.weighted({3, 4, 2, 1}); n = n == 0 ? r.below(3) : n == 1 ? r.below(12) : n == 2 ? r.below(40) : r.below(400); bool plain = r.chance(1, 3); for (size_t i = 0; i < n; ++i) v.push_back(plain ? 'a' + r.below(3) : codepoint(r)); return v; }
inline std::string utf8s(const std::vector<uint32_t>& v) { std::string s; for (auto c : v) utf8(s, c); return s; }
inline std::string key(uint64_t seed) { if (!seed) return "a"; Rng r(seed); if (r.chance(3, 4)) { std::string s; size_t n = 1 + r.below(2); for (size_t i = 0; i < n; ++i) s += (char)('a' + r.below(4)); return s; } if (r.chance(1, 2)) return std::to_string(r.below(12)); return utf8s(text(r.next())); }
inline std::string quoted(const std::vector<uint32_t>& v, uint64_t style) {   // a JSON string literal for v; how each character is written varies
  Rng r(style); std::string s = "\""; char b[16];
  auto u = [&](uint32_t x) { snprintf(b, sizeof b, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", x); s += b; };
  for (auto c : v) {
    const char* sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' ? "\\/" : c == 8 ? "\\b" : c == 12 ? "\\f" : c == 10 ? "\\n" : c == 13 ? "\\r" : c == 9 ? "\\t" : nullptr;
    int how = style ? r.weighted({5, 2, 2}) : 0;
    if (how == 1 && sh) s += sh; else if (how == 0 && c >= 32 && c != '"' && c != '\\') utf8(s, c);
    else if (c < 0x10000) u(c); else { u(0xd800 + ((c - 0x10000) >> 10)); u(0xdc00 + ((c - 0x10000) & 0x3ff)); }
  }
  return s + "\"";
}
inline std::string number(uint64_t seed) {
  if (!seed) return "0"; Rng r(seed); char b[64]; uint64_t x = r.next(); static const uint64_t edge[] = {0, 1, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
  switch (r.below(6)) {
    case 0: snprintf(b, sizeof b, "%s%d", r.chance(1, 3) ? "-" : "", (int)r.below(300)); break;
    case 1: { uint64_t v = edge[r.below(sizeof edge / sizeof *edge)]; bool n = r.chance(1, 2); snprintf(b, sizeof b, "%s%llu", n ? "-" : "", (unsigned long long)v); break; }
    case 2: snprintf(b, sizeof b, "%s%llu", r.chance(1, 3) ? "-" : "", (unsigned long long)(x >> r.below(64))); break;
    case 3: snprintf(b, sizeof b, "%s%llu.%0*llu", r.chance(1, 3) ? "-" : "", (unsigned long long)r.below(2000), (int)r.range(1, 6), (unsigned long long)r.below(10)); break;
    case 4: snprintf(b, sizeof b, "%s%d%s%c%s%d", r.chance(1, 3) ? "-" : "", (int)r.below(30), r.chance(1, 2) ? ".5" : "", r.chance(1, 2) ? 'e' : 'E', r.chance(1, 2) ? "+" : r.chance(1, 2) ? "-" : "", (int)r.below(r.chance(1, 5) ? 400 : 20)); break;
    default: snprintf(b, sizeof b, "%llu%llu", (unsigned long long)x, (unsigned long long)(x % 1000)); break;
  }
  return b;
}
}  // namespace jd
