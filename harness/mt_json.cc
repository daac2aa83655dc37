// MassTree's JSON: text against a strict reference parser (whole and in pieces), round trips, and document editing with shared parts.
#include "json.hh"
#include "straccum.hh"
#include "jdoc.h"
#include <map>
using namespace jd; using pbt::Case; using pbt::Obs; using pbt::Op; using lcdf::Json; using lcdf::Str; using lcdf::String; using lcdf::StringAccum; using std::string;
static string S(const String& s) { return string(s.data(), s.length()); }
static D from(const Json& j) {
  if (j.is_null()) return D(); if (j.is_b()) return D::boolean(j.as_b()); if (j.is_d()) return D::dbl(j.as_d());
  if (j.is_i()) return j.is_u() && !j.is_signed() ? D::integer(false, j.as_u()) : D::i64(j.as_i());
  if (j.is_s()) return D::str(S(j.as_s()));
  if (j.is_a()) { D d = D::arr(); for (int i = 0; i < j.size(); ++i) d.a.push_back(from(j[i])); return d; }
  D d = D::obj(); size_t n = 0; for (auto it = j.cobegin(); it != j.coend(); ++it) { d.o.emplace_back(S(it.key()), from(it.value())); ++n; } PBT_CHECK(n == (size_t)j.size(), "object of size %d iterates over %zu", j.size(), n); return d;
}
#define SAME(j, d, ...) do { D g__ = from(j); PBT_CHECK(equal(g__, d), __VA_ARGS__); } while (0)

// ---- text
enum { LB, RB, LK, RK, COMMA, COLON, WS, STRT, NUM, LIT, JUNK, BADSTR, KEY, CUT, FLIP, NTOK };
static const std::vector<string> kTok = {"{", "}", "[", "]", ",", ":", "ws", "string", "number", "literal", "byte", "odd_string", "key", "cut", "flip"};
static string tok(const Op& p) {
  static const char* lit[] = {"null", "false", "true"}; Rng r(p.a);
  switch (p.k) {
    case LB: return "{"; case RB: return "}"; case LK: return "["; case RK: return "]"; case COMMA: return ","; case COLON: return ":";
    case WS: { string s; size_t n = p.a % 4; for (size_t i = 0; i < n; ++i) s += " \n\r\t"[r.below(4)]; return s; }
    case STRT: return quoted(text(p.a), p.b); case KEY: { std::vector<uint32_t> v; for (unsigned char c : key(p.a)) { if (c >= 128) return quoted({'k'}, p.b); v.push_back(c); } return quoted(v, p.b); }
    case NUM: return number(p.a); case LIT: return lit[p.a % 3]; case JUNK: return string(1, (char)p.a);
    case BADSTR: { string s = quoted(text(p.a), p.b); size_t n = 1 + r.below(2); for (size_t i = 0; i < n; ++i) { size_t at = 1 + r.below(s.size() - 1); switch (r.below(7)) { case 0: s.insert(at, 1, (char)r.below(32)); break; case 1: s.insert(at, 1, (char)(0x80 | r.below(128))); break; case 2: s.insert(at, "\\"); break; case 3: s.insert(at, r.chance(1, 2) ? "\\ud83d" : "\\uDE00"); break; case 4: s.erase(at, 1); break; case 5: { static const char* odd[] = {"\xc0\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xe2\x82", "\xf0\x9f\x98", "\xc3"}; s.insert(at, odd[r.below(9)]); break; } default: { static const char* ex[] = {"\\x", "\\u12", "\\u00G0", "\\ud83d\\n", "\\ud83d\\u0041", "\\'", "\\0"}; s.insert(at, ex[r.below(7)]); } } } return s; }
    default: return "";
  }
}
static string build(const Case& c, size_t th = 0) { string s; if (c.thr.size() <= th) return s; for (auto& p : c.thr[th]) { if (p.k == CUT) { if (!s.empty()) s.resize(p.a % (s.size() + 1)); } else if (p.k == FLIP) { if (!s.empty()) s[p.a % s.size()] ^= (char)(1 << p.b % 8); } else s += tok(p); } return s; }
static void gval(Rng& r, pbt::Ops& v, int budget, int depth) {
  auto ws = [&] { if (r.chance(1, 5)) v.push_back({WS, r.next(), 0, 0}); }; ws();
  int k = budget <= 1 ? r.weighted({0, 0, 4, 4, 2}) : r.weighted({4, 4, 2, 2, 1});
  if (k == 0 || k == 1) {
    v.push_back({(uint32_t)(k ? LK : LB), 0, 0, 0}); ws(); int n = r.chance(1, 20) ? (int)r.below(60) : (int)r.below(1 + std::min(budget, 7));
    if (r.chance(1, 40) && depth < 5) n = 0, budget = 0;
    for (int i = 0; i < n; ++i) { if (i) { v.push_back({COMMA, 0, 0, 0}); ws(); } if (!k) { v.push_back({r.chance(1, 5) ? (uint32_t)STRT : (uint32_t)KEY, r.chance(1, 2) ? r.below(40) : r.next(), r.next(), 0}); ws(); v.push_back({COLON, 0, 0, 0}); } gval(r, v, (budget - 1) / (n > 2 ? 2 : n), depth + 1); }
    ws(); v.push_back({(uint32_t)(k ? RK : RB), 0, 0, 0});
  } else if (k == 2) v.push_back({STRT, r.next(), r.next(), 0}); else if (k == 3) v.push_back({NUM, r.next(), 0, 0}); else v.push_back({LIT, r.below(3), 0, 0});
  ws();
}
static Case gtext(Rng& r, int size) {
  Case c; c.cfg = {r.next() & 0xffffffff, r.below(12), r.below(64)}; c.thr.resize(1); auto& v = c.thr[0];
  if (r.chance(1, 30)) { int n = r.range(1, 300), kind = r.below(3); for (int i = 0; i < n; ++i) { if (kind == 1 || (kind == 2 && (i & 1))) { v.push_back({LB, 0, 0, 0}); v.push_back({KEY, r.below(9), 0, 0}); v.push_back({COLON, 0, 0, 0}); } else v.push_back({LK, 0, 0, 0}); } if (r.chance(1, 2)) gval(r, v, 1, 9); else if (kind != 0) v.push_back({LIT, 0, 0, 0}); for (int i = n; i-- > 0;) v.push_back({(uint32_t)(kind == 1 || (kind == 2 && (i & 1)) ? RB : RK), 0, 0, 0}); }
  else gval(r, v, 1 + r.below(3 + size), 0);
  if (r.chance(2, 5)) for (int m = r.range(1, 3); m--;) {
    size_t at = r.below(v.size() + 1);
    switch (r.below(8)) {
      case 0: if (at < v.size()) v.erase(v.begin() + at); break; case 1: if (at < v.size()) v.insert(v.begin() + at, v[at]); break; case 2: if (v.size() > 1) std::swap(v[at % v.size()], v[r.below(v.size())]); break;
      case 3: v.insert(v.begin() + at, Op{(uint32_t)r.below(COLON + 1), 0, 0, 0}); break; case 4: v.insert(v.begin() + at, Op{(uint32_t)r.range(WS, LIT), r.next(), r.next(), 0}); break; case 5: v.insert(v.begin() + at, Op{JUNK, r.below(256), 0, 0}); break;
      case 6: for (auto& p : v) if (p.k == STRT && r.chance(1, 2)) { p.k = BADSTR; break; } break; default: v.push_back({r.chance(1, 2) ? (uint32_t)CUT : (uint32_t)FLIP, r.next(), r.next(), 0}); break;
    }
  }
  return c;
}
static bool feed(Json::streaming_parser& sp, const string& t, Rng& r, unsigned style, size_t& used) {   // in pieces; true: accepted
  size_t p = 0; std::vector<String> keep;
  while (p < t.size() && !sp.done()) {
    size_t n = style % 4 == 0 ? 1 : style % 4 == 1 ? 1 + r.below(3) : style % 4 == 2 ? 1 + r.below(20) : t.size() - p; n = std::min(n, t.size() - p);
    if (style & 4) { String s(t.data() + p, (int)n); const char* q = sp.consume(s.begin(), s.end(), s, style & 8 && p + n == t.size()); PBT_CHECK(q >= s.begin() && q <= s.end(), "consume returned a position outside its input"); p += q - s.begin(); if (q != s.end()) { PBT_CHECK(sp.done(), "the parser stopped early without being done"); } }
    else { std::unique_ptr<char[]> b(new char[n]); memcpy(b.get(), t.data() + p, n); const char* q = sp.consume(b.get(), b.get() + n, String(), style & 8 && p + n == t.size()); PBT_CHECK(q >= b.get() && q <= b.get() + n, "consume returned a position outside its input"); p += q - b.get(); if (q != b.get() + n) PBT_CHECK(sp.done(), "the parser stopped early without being done"); }
  }
  if (!sp.done()) { char x = ' '; sp.consume(&x, &x + 1, String(), true); }   // a blank ends a number
  used = p; return sp.success();
}
static void rtext(const Case& c, Obs& o) {
  string t = build(c); D d; Ref ref(t); bool want = ref.parse(d); if (ref.unspec) { o.mark("unspecified"); return; }
  o.mark(want ? "accepted" : "rejected"); o.nontrivial((want && d.count() > 2) || (!want && t.size() > 3));
  Json mark("untouched"), j = mark; bool got; string how;
  if (c.c(1) % 3 == 0) { String s(t.data(), (int)t.size()); got = j.assign_parse(s); } else { std::unique_ptr<char[]> b(new char[t.size() + !t.size()]); memcpy(b.get(), t.data(), t.size()); got = j.assign_parse(b.get(), b.get() + t.size()); }
  PBT_CHECK(got == want, "parsing %s: %s, a strict JSON parser %s it", esc(t).c_str(), got ? "accepted" : "rejected", want ? "accepts" : "rejects");
  if (!got) { PBT_CHECK(j == mark, "a failed parse changed the value"); } else SAME(j, d, "parsing %s gives %s, expected %s", esc(t).c_str(), show(from(j)).c_str(), show(d).c_str());
  Rng r(c.c(0)); Json::streaming_parser sp; int rounds = 1 + (c.c(1) & 1);
  for (int q = 0; q < rounds; ++q) {   // the parser is reused after reset()
    if (q) sp.reset(); size_t used; bool ok = feed(sp, t, r, (unsigned)(c.c(2) >> (q ? 0 : 0)), used); D e; bool full = want; if (want) e = d; else { Ref pre(t); D x; if (pre.value(x) && !pre.unspec) { full = true; e = x; } }   // a stream ends with its value; what follows is left
    PBT_CHECK(ok == full, "feeding %s in pieces: %s, expected %s", esc(t).c_str(), ok ? "accepted" : "rejected", full ? "accepted" : "rejected");
    if (ok) { D g = from(sp.result()); PBT_CHECK(equal(g, e), "feeding %s in pieces gives %s, expected %s", esc(t).c_str(), show(g).c_str(), show(e).c_str()); }
  }
  if (!got || !d.finite()) return;
  for (int q = 0; q < 3; ++q) {   // printed and read back
    String s; if (q == 0) s = j.unparse(); else if (q == 1) s = j.unparse(Json::indent_depth(r.below(4)).tab_width(r.below(9)).newline_terminator(r.chance(1, 2)).space_separator(r.chance(1, 2))); else { StringAccum sa; sa << "x"; j.unparse(sa); s = sa.take_string(); s = s.substring(s.begin() + 1, s.end()); }
    string u = S(s); Ref rr(u); D e; PBT_CHECK(rr.parse(e), "unparse() printed %s, which is not JSON", esc(u).c_str()); PBT_CHECK(equal(d, e, true), "unparse() printed %s for %s", esc(u).c_str(), show(d).c_str());
    Json k; PBT_CHECK(k.assign_parse(s), "unparse() printed %s, which assign_parse rejects", esc(u).c_str()); PBT_CHECK(equal(from(k), e), "unparse() printed %s, which is read as %s", esc(u).c_str(), show(from(k)).c_str());
  }
}

// ---- editing
enum { SET, ERASE, UNSET, GETI, PUSH, POP, INS, RESZ, ERNG, COPY, CHILD, NEST, AEXT, MERGE, CLEAR, KILL, NUMOP, ITER, SWAP, SCALAR, MKA, MKO, NED };
static const std::vector<string> kEd = {"set", "erase", "unset", "get_insert", "push_back", "pop_back", "insert", "resize", "erase_range", "copy", "take_child", "nested_assign", "extend", "merge", "clear", "reset", "number", "iterate", "swap", "scalar", "make_array", "make_object"};
static Case gedit(Rng& r, int size) { Case c; c.thr.resize(1); size_t n = r.range(1, 10 + size * 3); uint64_t vars = r.range(1, 4); bool objs = r.chance(1, 2); for (size_t i = 0; i < n; ++i) { uint32_t k = r.below(NED); if (r.chance(1, 2)) { static const uint32_t ob[] = {SET, SET, ERASE, GETI, COPY, CHILD, NEST, MERGE, UNSET}, ar[] = {PUSH, PUSH, INS, POP, ERNG, COPY, CHILD, AEXT, RESZ}; k = objs ? ob[r.below(9)] : ar[r.below(9)]; } c.thr[0].push_back({k, r.below(vars) | r.below(vars) << 8, r.chance(1, 2) ? r.below(40) : r.next(), r.next()}); } return c; }
static std::pair<Json, D> scalar(uint64_t seed) {
  Rng r(seed); switch (r.below(8)) { case 0: return {Json(), D()}; case 1: { bool b = r.chance(1, 2); return {Json(b), D::boolean(b)}; } case 2: { int v = (int)r.next(); return {Json(v), D::i64(v)}; } case 3: { int64_t v = (int64_t)(r.next() << r.below(64)); return {Json((long)v), D::i64(v)}; } case 4: { uint64_t v = r.next() >> r.below(64); return {Json((unsigned long)v), D::integer(false, v)}; } case 5: { double v = (double)(int64_t)r.next() / (1 << r.below(20)); return {Json(v), D::dbl(v)}; } default: { string s = utf8s(text(r.next())); return {r.chance(1, 2) ? Json(String(s.data(), (int)s.size())) : Json(s), D::str(s)}; } }
}
static void redit(const Case& c, Obs& o) {
  Json j[4]; D m[4]; size_t done = 0; if (c.thr.empty()) return;
  auto st = [](const string& s) { return String(s.data(), (int)s.size()); };
  for (auto& p : c.thr[0]) {
    int x = p.a & 3, y = p.a >> 8 & 3; Rng r(p.c); Json& J = j[x]; D& M = m[x]; string k = key(p.b); uint32_t kind = p.k % NED; bool o_ = M.t == D::OBJ, a_ = M.t == D::ARR, n_ = M.t == D::NUL; auto v = r.chance(1, 3) ? std::pair<Json, D>(j[y], m[y]) : scalar(r.next());
    if (M.count() + m[y].count() > 4000) continue;
    bool did = true;
    switch (kind) {
      case SET: if (!(o_ || n_)) { did = false; break; } switch (r.below(3)) { case 0: J.set(st(k), v.first); break; case 1: J[st(k)] = v.first; break; default: J.get_insert(Str(k.data(), (int)k.size())) = v.first; } if (n_) M = D::obj(); { D w = v.second; M.at(k) = w; } break;
      case ERASE: if (!o_) { did = false; break; } { int want = 0; for (size_t i = 0; i < M.o.size(); ++i) if (M.o[i].first == k) { M.o.erase(M.o.begin() + i); want = 1; break; } int g; if (r.chance(1, 3) && want) { auto it = J.obegin(); while (it.key() != st(k)) ++it; J.erase(it); g = 1; } else g = J.erase(Str(k.data(), (int)k.size())); PBT_CHECK(g == want, "erase('%s') = %d, expected %d", esc(k).c_str(), g, want); } break;
      case UNSET: for (size_t i = 0; i < M.o.size(); ++i) if (M.o[i].first == k) { M.o.erase(M.o.begin() + i); break; } J.unset(Str(k.data(), (int)k.size())); break;
      case GETI: if (!(o_ || n_)) { did = false; break; } if (n_) M = D::obj(); { D* q = M.find(k); Json& z = r.chance(1, 2) ? J.get_insert(st(k)) : J.get_insert(Str(k.data(), (int)k.size())); SAME(z, q ? *q : D(), "get_insert('%s')", esc(k).c_str()); M.at(k); } break;
      case PUSH: if (!(a_ || n_)) { did = false; break; } if (n_) M = D::arr(); { D w = v.second; M.a.push_back(w); } J.push_back(v.first); break;
      case POP: if (!a_ || M.a.empty()) { did = false; break; } SAME(((const Json&)J).back(), M.a.back(), "back()"); J.pop_back(); M.a.pop_back(); break;
      case INS: if (!a_) { did = false; break; } { size_t at = r.below(M.a.size() + 1); D w = v.second; M.a.insert(M.a.begin() + at, w); auto it = J.insert(J.abegin() + (int)at, v.first); SAME(*it, w, "insert() returns a position holding something else"); } break;
      case RESZ: if (!(a_ || n_)) { did = false; break; } { int n = (int)r.below(r.chance(1, 5) ? 60 : 12); if (n_) M = D::arr(); M.a.resize(n); if (r.chance(1, 4)) J.reserve((int)r.below(40)); J.resize(n); } break;
      case ERNG: if (!a_) { did = false; break; } { size_t f = r.below(M.a.size() + 1), l = f + r.below(M.a.size() - f + 1); M.a.erase(M.a.begin() + f, M.a.begin() + l); J.erase(J.abegin() + (int)f, J.abegin() + (int)l); } break;
      case COPY: { D w = m[y]; M = w; if (r.chance(1, 2)) J = j[y]; else { Json t(j[y]); J = std::move(t); } } break;
      case CHILD: { const Json& src = j[y]; if (m[y].t == D::ARR && !m[y].a.empty()) { int i = (int)r.below(m[y].a.size()); D w = m[y].a[i]; Json t = src[i]; J = t; M = w; } else if (m[y].t == D::OBJ && !m[y].o.empty()) { auto& q = m[y].o[r.below(m[y].o.size())]; D w = q.second; Json t = src.get(Str(q.first.data(), (int)q.first.size())); J = t; M = w; } else did = false; } break;
      case NEST: if (!(o_ || n_)) { did = false; break; } { string k2 = key(r.next() % 40); D* q = M.find(k); if (q && q->t != D::OBJ && q->t != D::NUL) { did = false; break; } if (n_) M = D::obj(); D w = v.second; D& in = M.at(k); if (in.t == D::NUL) in = D::obj(); in.at(k2) = w; J[st(k)][st(k2)] = v.first; } break;
      case AEXT: if (!(a_ || n_)) { did = false; break; } { int i = (int)r.below(r.chance(1, 6) ? 80 : 14); if (n_) M = D::arr(); D w = v.second; if ((int)M.a.size() <= i) M.a.resize(i + 1); M.a[i] = w; if (r.chance(1, 2)) J[i] = v.first; else J.get_insert(i) = v.first; } break;
      case MERGE: if (!((o_ || n_) && (m[y].t == D::OBJ || m[y].t == D::NUL))) { did = false; break; } { D w = m[y]; if (n_ && w.t == D::OBJ) M = D::obj(); for (auto& q : w.o) M.at(q.first) = q.second; J.merge(j[y]); } break;
      case CLEAR: J.clear(); if (a_) M = D::arr(); else if (o_) M = D::obj(); else M = D(); break;
      case KILL: J = Json(); M = D(); break;
      case NUMOP: if (M.t != D::INT) { did = false; break; } { int64_t cur = M.neg ? -(int64_t)M.u : (int64_t)M.u; if (M.u > 1ull << 60) { did = false; break; } int q = (int)r.below(2000) - 1000; switch (r.below(7)) { case 4: J += Json(q); cur += q; break; case 5: J -= Json(q); cur -= q; break; case 6: J += Json((unsigned)(q + 1000)); cur += q + 1000; break; case 0: ++J; cur += 1; break; case 1: --J; cur -= 1; break; case 2: J += q; cur += q; break; default: J -= q; cur -= q; } if (cur < 0 && J.is_u() && !J.is_signed()) { J = Json((long)cur); } M = D::i64(cur); } break;
      case ITER: if (a_) { int i = 0; Json t = J; for (auto it = t.abegin(); it != t.aend(); ++it, ++i) { SAME(*it, M.a[i], "element %d seen by the iterator", i); if (r.chance(1, 8)) *it = 7; } PBT_CHECK(i == (int)M.a.size(), "iterated over %d of %zu", i, M.a.size()); } else if (o_) { Json t = J; size_t i = 0; for (auto it = t.obegin(); it != t.oend(); ++it, ++i) { PBT_CHECK(i < M.o.size() && S(it.key()) == M.o[i].first, "key %zu seen by the iterator", i); if (r.chance(1, 8)) it.value() = 7; } PBT_CHECK(i == M.o.size(), "iterated over %zu of %zu", i, M.o.size()); } break;
      case SWAP: { using std::swap; swap(j[x], j[y]); if (x != y) std::swap(m[x], m[y]); } break;
      case SCALAR: { auto s = scalar(r.next()); J = s.first; M = s.second; } break;
      case MKA: J = Json::make_array(); M = D::arr(); break; case MKO: J = Json::make_object(); M = D::obj(); break;
    }
    if (!did) continue; ++done; o.mark(kEd[kind].c_str());
    for (int q = 0; q < 4; ++q) SAME(j[q], m[q], "after %s on v%d (with v%d): v%d is %s, expected %s", kEd[kind].c_str(), x, y, q, show(from(j[q])).c_str(), show(m[q]).c_str());
    PBT_CHECK((M.t == D::ARR || M.t == D::OBJ) ? (size_t)J.size() == M.a.size() + M.o.size() && J.empty() == (J.size() == 0) : true, "size");
    if (M.t == D::OBJ) { PBT_CHECK(J.count(Str(k.data(), (int)k.size())) == (M.find(k) ? 1 : 0), "count('%s')", esc(k).c_str()); D* q = M.find(k); SAME(((const Json&)J).get(Str(k.data(), (int)k.size())), q ? *q : D(), "get('%s')", esc(k).c_str()); }
    if (M.t == D::ARR) { int i = (int)r.below(M.a.size() + 3); SAME(((const Json&)J).get(i), i < (int)M.a.size() ? M.a[i] : D(), "get(%d)", i); }
    PBT_CHECK((j[x] == j[y]) || !equal(m[x], m[y]) || m[x].t == D::ARR || m[x].t == D::OBJ || m[x].t != m[y].t || (m[x].t == D::DBL && m[x].d != m[y].d), "equal values compare different"); if (m[x].t != D::ARR && m[x].t != D::OBJ && m[y].t == m[x].t && !equal(m[x], m[y])) PBT_CHECK(!(j[x] == j[y]), "different values compare equal");
  }
  o.nontrivial(done >= 3);
}
PBT_HARNESS(a, {"text", "JSON texts built from generated tokens, two fifths of them damaged by token or byte changes, read whole and in pieces; non-trivial: accepted with more than two values, or rejected and longer than 3 bytes", kTok, gtext, rtext, 5});
PBT_HARNESS(b, {"edit", "editing operations on four documents sharing parts, against a model; non-trivial: at least three operations took effect", kEd, gedit, redit, 3});
