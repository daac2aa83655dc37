// MassTree's String and StringAccum: shared, appended and cut strings against std::string; searches, conversions and encodings against definitions.
#include "straccum.hh"
#include "string.hh"
#include "str.hh"
#include "jdoc.h"
#include <climits>
using namespace jd; using pbt::Case; using pbt::Obs; using pbt::Op; using lcdf::Str; using lcdf::String; using lcdf::StringAccum; using std::string;
static string S(const String& s) { return string(s.data(), s.length()); }
static string content(uint64_t seed) { if (!seed) return ""; Rng r(seed); static const uint64_t len[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 100, 127, 128, 129, 500, 1000, 1100, 3000}; size_t n = r.chance(3, 4) ? r.below(20) : len[r.below(sizeof len / sizeof *len)]; int kind = r.below(4); string s; for (size_t i = 0; i < n; ++i) s += (char)(kind == 0 ? r.next() : kind == 1 ? 'a' + r.below(3) : kind == 2 ? " \taZ0\n9."[r.below(8)] : 32 + r.below(95)); return s; }
static String mk(const string& s, unsigned how) {   // the same text, owned in different ways
  switch (how % 6) { case 0: return String(s.data(), (int)s.size()); case 1: return String(s); case 2: { StringAccum sa; sa.append(s.data(), (int)s.size()); return sa.take_string(); } case 3: { String t("x"); t.append(s.data(), (int)s.size()); t.append("yy"); return t.substr(1, (int)s.size()); } case 4: { String t; for (size_t i = 0; i < s.size(); i += 3) t.append(s.data() + i, (int)std::min<size_t>(3, s.size() - i)); return t; } default: { String t(s.data(), s.data() + s.size()); String u = t; return u; } }
}
#define CK(v, m, ...) do { string g__ = S(v); PBT_CHECK(g__ == (m), __VA_ARGS__); } while (0)
// ---- histories
enum { ASSIGN, COPY, MOVE, APPEND, APPSELF, APPCSTR, APPFILL, APPUN, PLUS, SUBSTR, SUBPTR, CSTR, MUT, TRIM, UNIQ, SWAPS, ALIGN, SELFPTR, SA_APP, SA_SELF, SA_NUM, SA_FMT, SA_RES, SA_POP, SA_UTF, SA_TAKE, SA_FROM, SA_CSTR, SA_COPY, SA_ENC, NH };
static const std::vector<string> kH = {"assign", "copy", "move", "append", "append_self", "append_cstr", "append_fill", "append_uninitialized", "plus", "substr", "substring", "c_str", "mutable_data", "trim", "unique", "swap", "align", "assign_own_data", "sa_append", "sa_append_self", "sa_number", "sa_snprintf", "sa_resize", "sa_pop_back", "sa_utf8", "sa_take_string", "sa_transfer", "sa_c_str", "sa_copy", "sa_encode"};
static Case ghist(Rng& r, int size) { Case c; c.thr.resize(1); size_t n = r.range(1, 10 + size * 3); bool sa = r.chance(1, 3); for (size_t i = 0; i < n; ++i) c.thr[0].push_back({(uint32_t)(sa && r.chance(2, 3) ? r.range(SA_APP, SA_ENC) : r.below(NH)), r.below(16) | r.below(8) << 8, r.chance(1, 10) ? 0 : r.next(), r.next()}); return c; }
static int perlpos(long n, long pos, long len, long& b) { long e; if (pos < 0) pos += n; e = len < 0 ? n + len : pos + len; b = std::max(0L, pos); e = std::min(e, n); return (int)std::max(0L, e - b); }
static void rhist(const Case& c, Obs& o) {
  if (c.thr.empty()) return; String v[4]; string m[4]; StringAccum a[2]; string w[2]; size_t done = 0;
  for (auto& p : c.thr[0]) {
    int x = p.a & 3, y = p.a >> 2 & 3; String &V = v[x]; string &M = m[x]; unsigned how = p.a >> 8 & 7; Rng r(p.c); string t = content(p.b); StringAccum& A = a[x & 1]; string& W = w[x & 1]; uint32_t k = p.k % NH; const char* nm = kH[k].c_str();
    if (M.size() > 20000 || W.size() > 20000) { V = String(); M.clear(); A.clear(); W.clear(); }
    switch (k) {
      case ASSIGN: switch (how) { case 6: V = t; break; case 7: V.assign(t.data(), t.data() + t.size()); break; default: V = mk(t, how); } M = t; break;
      case COPY: if (how & 1) V = v[y]; else { String u(v[y]); V = u; } M = m[y]; break;
      case MOVE: { String u = v[y]; V = std::move(u); M = m[y]; break; }
      case APPEND: if (how & 1) V.append(t.data(), (int)t.size()); else { String u = mk(t, how); V.append(u); } M += t; break;
      case APPSELF: { if (how & 4) { V += v[y]; M += m[y]; } else { long b; int n = perlpos((long)M.size(), (long)r.below(M.size() + 1), (long)r.below(M.size() + 1), b); string q = M.substr(b, n); V.append(V.data() + b, n); M += q; } break; }
      case APPCSTR: { string z = t.substr(0, t.find('\0')); V += z.c_str(); M += z; if (how & 1) { V += 'q'; M += 'q'; } break; }
      case APPFILL: { int n = (int)r.below(40); V.append_fill('f', n); M += string(n, 'f'); break; }
      case APPUN: { char* q = V.append_uninitialized((int)t.size()); PBT_CHECK(!!q == !t.empty(), "append_uninitialized"); if (q) memcpy(q, t.data(), t.size()); M += t; break; }
      case PLUS: { String u = how & 1 ? V + v[y] : how & 2 ? V + "lit" : "lit" + V; string z = how & 1 ? M + m[y] : how & 2 ? M + "lit" : "lit" + M; CK(u, z, "operator+"); v[y] = u; m[y] = z; break; }
      case SUBSTR: { long pos = (long)r.below(M.size() * 2 + 3) - (long)M.size() - 1, len = r.chance(1, 8) ? INT_MAX : (long)r.below(M.size() * 2 + 3) - (long)M.size() - 1, b; int n = perlpos((long)M.size(), pos, len, b); string z = n ? M.substr(b, n) : ""; String u = V.substr((int)pos, (int)len); CK(u, z, "substr(%ld, %ld) of '%s' is '%s', expected '%s'", pos, len, esc(M.substr(0, 80)).c_str(), esc(S(u)).c_str(), esc(z).c_str()); v[y] = u; m[y] = z; break; }
      case SUBPTR: { size_t b = r.below(M.size() + 1), n = r.below(M.size() - b + 1); String u = how & 1 ? V.fast_substring(V.begin() + b, V.begin() + b + n) : V.substring(V.begin() + b, V.begin() + b + n); string z = M.substr(b, n); v[y] = u; m[y] = z; break; }
      case CSTR: { const char* q = V.c_str(); PBT_CHECK(!memcmp(q, M.data(), M.size()) && q[M.size()] == 0, "c_str() of '%s' gives '%s'", esc(M.substr(0, 80)).c_str(), esc(string(q).substr(0, 80)).c_str()); break; }
      case MUT: { char* q = how & 1 ? V.mutable_c_str() : V.mutable_data(); if (how & 1) PBT_CHECK(q[M.size()] == 0, "mutable_c_str is not terminated"); if (!M.empty()) { size_t i = r.below(M.size()); q[i] = (char)('A' + r.below(26)); M[i] = q[i]; } break; }
      case TRIM: { string z = M; size_t b = 0, e = z.size(); if (how % 3 != 1) while (b < e && isspace((unsigned char)z[b])) ++b; if (how % 3 != 0) while (e > b && isspace((unsigned char)z[e - 1])) --e; z = z.substr(b, e - b); V = how % 3 == 0 ? V.ltrim() : how % 3 == 1 ? V.rtrim() : V.trim(); M = z; break; }
      case UNIQ: { String u = V.unique(); CK(u, M, "unique"); V = u; break; } case SWAPS: V.swap(v[y]); std::swap(m[x], m[y]); break;
      case ALIGN: { int n = 1 << (how % 5); V.align(n); PBT_CHECK(M.empty() || (uintptr_t)V.data() % n == 0, "align(%d)", n); break; }
      case SELFPTR: { long b; int n = perlpos((long)M.size(), (long)r.below(M.size() + 1), (long)r.below(M.size() + 1), b); string z = M.substr(b, n); V.assign(V.data() + b, V.data() + b + n); M = z; break; }
      case SA_APP: switch (how) { case 0: A << mk(t, r.below(6)); break; case 1: A.append(t.data(), (int)t.size()); break; case 2: A.append(t.data(), t.data() + t.size()); break; case 3: { char* q = A.extend((int)t.size()); memcpy(q, t.data(), t.size()); break; } case 4: { char* q = A.reserve((int)t.size() + (int)r.below(20)); memcpy(q, t.data(), t.size()); A.adjust_length((int)t.size()); break; } case 5: for (char ch : t) A << ch; break; case 6: { int n = (int)r.below(20); A.append_fill('g', n); t = string(n, 'g'); break; } default: t = t.substr(0, t.find('\0')); A << t.c_str(); } W += t; break;
      case SA_SELF: { size_t b = r.below(W.size() + 1), n = r.below(W.size() - b + 1); string z = W.substr(b, n); if (how & 1 && n == W.size()) A << A; else A.append(A.data() + b, (int)n); W += z; break; }
      case SA_NUM: { uint64_t q = r.chance(1, 3) ? r.next() : r.next() >> r.below(64); switch (how) { case 0: A << (int)q; W += std::to_string((int)q); break; case 1: A << (unsigned)q; W += std::to_string((unsigned)q); break; case 2: A << (long)q; W += std::to_string((long)q); break; case 3: A << (unsigned long)q; W += std::to_string(q); break; case 4: A << (short)q; W += std::to_string((short)q); break; case 5: A << bool(q & 1); W += q & 1 ? "true" : "false"; break; case 6: { double d = (double)(int64_t)q / 1000; char b[64]; snprintf(b, sizeof b, "%.12g", d); A << d; W += b; String u(d); PBT_CHECK(S(u) == b, "String(double)"); break; } default: { String u((long)q), z((int)q), s((unsigned long)q); PBT_CHECK(S(u) == std::to_string((long)q) && S(z) == std::to_string((int)q) && S(s) == std::to_string(q), "String(number) of %llu", (unsigned long long)q); if ((long)q < 100000000000000000 && (long)q > -100000000000000000) PBT_CHECK(u.to_i() == (long)q, "to_i(%ld)", (long)q); } } break; }
      case SA_FMT: { int n = (int)r.below(30); string z = std::to_string(r.next() >> r.below(64)); A.snprintf(n, "<%s>", z.c_str()); W += ("<" + z + ">").substr(0, n); break; }
      case SA_RES: { size_t n = r.below(W.size() + 1); A.resize((int)n); W.resize(n); break; } case SA_POP: if (!W.empty()) { size_t n = 1 + r.below(std::min<size_t>(W.size(), 5)); A.pop_back((int)n); W.resize(W.size() - n); } break;
      case SA_UTF: { uint32_t cp = codepoint(r); if (!cp || cp == 0xfffe || cp == 0xffff) break; PBT_CHECK(A.append_utf8((int)cp), "append_utf8(%x) refuses", cp); utf8(W, cp); static const int bad[] = {-1, 0xd800, 0xdfff, 0x110000, 0x7fffffff}; PBT_CHECK(!A.append_utf8(bad[r.below(5)]), "append_utf8 accepts what is no character"); break; }
      case SA_TAKE: { V = A.take_string(); M = W; W.clear(); PBT_CHECK(A.length() == 0, "length after take_string"); break; }
      case SA_FROM: { if (how & 1) { String u = v[y]; A = StringAccum::make_transfer(u); PBT_CHECK(u.empty(), "make_transfer leaves the string"); W = m[y]; } else if (how & 2) { A = StringAccum::make_transfer(v[y]); W = m[y]; m[y].clear(); } else { A = StringAccum(std::move(v[y])); W = m[y]; v[y] = String(); m[y].clear(); } break; }
      case SA_CSTR: { const char* q = A.c_str(); PBT_CHECK(!memcmp(q, W.data(), W.size()) && !q[W.size()], "StringAccum::c_str"); break; }
      case SA_COPY: if (how & 1) { StringAccum b(A); a[1 - (x & 1)] = b; w[1 - (x & 1)] = W; } else if (how & 2) { a[0].swap(a[1]); std::swap(w[0], w[1]); } else { A.clear(); W.clear(); } break;
      default: { if (how & 1) { V.encode_base64(A, how & 2); static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string z; size_t i = 0; for (; i + 2 < M.size(); i += 3) { unsigned q = (unsigned char)M[i] << 16 | (unsigned char)M[i + 1] << 8 | (unsigned char)M[i + 2]; z += T[q >> 18]; z += T[q >> 12 & 63]; z += T[q >> 6 & 63]; z += T[q & 63]; } if (i < M.size()) { unsigned q = (unsigned char)M[i] << 16 | (i + 1 < M.size() ? (unsigned char)M[i + 1] << 8 : 0); z += T[q >> 18]; z += T[q >> 12 & 63]; if (i + 1 < M.size()) z += T[q >> 6 & 63]; else if (how & 2) z += '='; if (how & 2) z += '='; } W += z; PBT_CHECK(z == S(V.encode_base64(how & 2)), "encode_base64"); StringAccum d; PBT_CHECK(String(z).decode_base64(d) && S(d.take_string()) == M, "base64 of '%s' does not decode back", esc(M.substr(0, 60)).c_str()); } else { V.encode_uri_component(A); string z; char b[8]; for (unsigned char ch : M) { if (isalnum(ch) || strchr("-_.~", ch ? ch : 'X')) z += (char)ch; else { snprintf(b, sizeof b, "%%%02X", ch); z += b; } } W += z; } }
    }
    ++done; o.mark(nm);
    for (int i = 0; i < 4; ++i) CK(v[i], m[i], "after %s: v%d is '%s', expected '%s'", nm, i, esc(S(v[i]).substr(0, 100)).c_str(), esc(m[i].substr(0, 100)).c_str());
    for (int i = 0; i < 2; ++i) { string g(a[i].data(), a[i].length()); PBT_CHECK(g == w[i], "after %s: accumulator %d holds '%s', expected '%s'", nm, i, esc(g.substr(0, 100)).c_str(), esc(w[i].substr(0, 100)).c_str()); }
    PBT_CHECK((V == v[y]) == (M == m[y]) && (V < v[y]) == (M < m[y]) && (V.compare(v[y]) > 0) == (M > m[y]), "comparing strings"); if (M == m[y]) PBT_CHECK(V.hashcode() == v[y].hashcode(), "equal strings hash differently");
  }
  o.nontrivial(done >= 3);
}
// ---- functions of strings
enum { GLOB, FIND, NATURAL, CASES, PRINT, HEX, B64, UTF8, UTF16, W1252, JSONENC, NF };
static const std::vector<string> kF = {"glob", "find", "natural", "case", "printable", "hex", "base64", "utf8", "utf16", "windows1252", "json"};
static Case gfn(Rng& r, int) { Case c; c.thr.resize(1); c.thr[0].push_back({(uint32_t)r.below(NF), r.next(), r.next(), r.next()}); return c; }
static bool glob(const char* s, const char* se, const char* p, const char* pe) {
  if (p == pe) return s == se; if (*p == '*') return glob(s, se, p + 1, pe) || (s != se && glob(s + 1, se, p, pe)); if (s == se) return false;
  if (*p == '?') return glob(s + 1, se, p + 1, pe); if (*p == '\\' && p + 1 != pe) return p[1] == *s && glob(s + 1, se, p + 2, pe);
  if (*p == '[') { const char* q = p + 1; bool neg = q != pe && *q == '^'; if (neg) ++q; const char* b = q; const char* e = q == pe ? q : q + 1; while (e < pe && *e != ']') ++e; if (e < pe) { bool f = memchr(b, *s, e - b) != nullptr; return f != neg && glob(s + 1, se, e + 1, pe); } }
  return *p == *s && glob(s + 1, se, p + 1, pe);
}
static bool utfok(const string& t, size_t& i, uint32_t& cp) {   // a well-formed UTF-8 character at i
  unsigned char c = t[i]; int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0; if (!n || !c || i + n > t.size()) return false; cp = n == 1 ? c : c & (0x7f >> n); for (int k = 1; k < n; ++k) { if (((unsigned char)t[i + k] & 0xc0) != 0x80) return false; cp = cp << 6 | (t[i + k] & 63); } if ((n == 3 && cp < 0x800) || (n == 4 && cp < 0x10000) || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000)) return false; i += n; return true;
}
static void rfn(const Case& c, Obs& o) {
  if (c.thr.empty()) return;
  for (auto& p : c.thr[0]) {
    Rng r(p.a); uint32_t k = p.k % NF; o.mark(kF[k].c_str()); o.nontrivial(true); auto pick = [&](const char* al, size_t n) { string s; size_t len = strlen(al); for (size_t i = 0; i < n; ++i) s += al[r.below(len)]; return s; };
    auto tight = [](const string& s) { return std::unique_ptr<char[]>((char*)memcpy(new char[s.size() + !s.size()], s.data(), s.size())); };
    switch (k) {
      case GLOB: { string s = pick("ab]c", r.below(7)), q = pick("ab*?[]^\\c", r.below(8)); auto bs = tight(s), bq = tight(q); bool g = lcdf::String_generic::glob_match(bs.get(), (int)s.size(), bq.get(), (int)q.size()), w = glob(s.data(), s.data() + s.size(), q.data(), q.data() + q.size()); PBT_CHECK(g == w, "glob_match('%s', '%s') = %d, expected %d", esc(s).c_str(), esc(q).c_str(), g, w); break; }
      case FIND: {
        string s = pick("ab", r.below(12)), q = pick("ab", r.below(4)); auto bs = tight(s), bq = tight(q); int n = (int)s.size(), l = (int)q.size(), st = r.chance(1, 6) ? (r.chance(1, 2) ? INT_MAX : -1) : (int)r.below(n + 3); char ch = "abc"[r.below(3)];
        size_t f = st > n ? string::npos : s.find(q, std::max(0, st)); int w = f == string::npos ? -1 : (int)f, g = lcdf::String_generic::find_left(bs.get(), n, st, bq.get(), l); PBT_CHECK(g == w, "find_left('%s', from %d, '%s') = %d, expected %d", s.c_str(), st, q.c_str(), g, w);
        f = st < 0 ? string::npos : s.rfind(q, st); w = f == string::npos ? -1 : (int)f; g = lcdf::String_generic::find_right(bs.get(), n, st, bq.get(), l); PBT_CHECK(g == w, "find_right('%s', from %d, '%s') = %d, expected %d", s.c_str(), st, q.c_str(), g, w);
        f = st > n ? string::npos : s.find(ch, std::max(0, st)); w = f == string::npos ? -1 : (int)f; g = lcdf::String_generic::find_left(bs.get(), n, st, ch); PBT_CHECK(g == w, "find_left char"); f = st < 0 ? string::npos : s.rfind(ch, st); w = f == string::npos ? -1 : (int)f; g = lcdf::String_generic::find_right(bs.get(), n, st, ch); PBT_CHECK(g == w, "find_right char");
        PBT_CHECK(lcdf::String_generic::starts_with(bs.get(), n, bq.get(), l) == (s.compare(0, q.size(), q) == 0), "starts_with"); break;
      }
      case NATURAL: {
        auto cmp = [&](const string& a, const string& b) { auto x = tight(a), y = tight(b); int g = lcdf::String_generic::natural_compare(x.get(), (int)a.size(), y.get(), (int)b.size()); return g < 0 ? -1 : g > 0; };
        string s = pick("01.2a-A ", r.below(7)), q = r.chance(1, 4) ? s : pick("01.2a-A ", r.below(7)); if (r.chance(1, 2)) { string pre = pick("01.2a-", r.below(4)); s = pre + s; q = pre + q; }
        int g = cmp(s, q), h = cmp(q, s); PBT_CHECK(g == -h, "natural_compare('%s', '%s') = %d, the other way round %d", s.c_str(), q.c_str(), g, h); PBT_CHECK((g == 0) == (s == q), "natural_compare('%s', '%s') = %d", s.c_str(), q.c_str(), g);
        string al = pick("ab_", r.below(4)), ar = pick("xy", r.below(3)); uint64_t u = r.next() >> r.below(64), v = r.chance(1, 2) ? u + r.below(20) : r.next() >> r.below(64); g = cmp(al + std::to_string(u) + ar, al + std::to_string(v) + ar); int w = u < v ? -1 : u > v; PBT_CHECK(g == w, "natural_compare puts '%s%llu' and '%s%llu' in order %d", al.c_str(), (unsigned long long)u, al.c_str(), (unsigned long long)v, g); break;
      }
      case CASES: { string s = content(p.b), lo = s, up = s; for (auto& ch : lo) if (ch >= 'A' && ch <= 'Z') ch += 32; for (auto& ch : up) if (ch >= 'a' && ch <= 'z') ch -= 32; String x = mk(s, r.below(6)), l = x.lower(), u = x.upper(); CK(l, lo, "lower"); CK(u, up, "upper"); CK(x, s, "lower/upper changed its string"); break; }
      case PRINT: { string s = content(p.b); int ty = (int)r.below(3); string w; char b[8]; for (unsigned char ch : s) { if (ty == 2 && (ch == '\\' || ch == '"')) { w += '\\'; w += (char)ch; } else if (ch >= 32 && ch < 127) w += (char)ch; else if (ty == 2 && ch >= 9 && ch <= 13) { w += '\\'; w += "tnvfr"[ch - 9]; } else if (ty == 0 && ch < 32) { w += '^'; w += (char)(ch + 64); } else { snprintf(b, sizeof b, "\\%03o", ch); w += b; } } String x = mk(s, r.below(6)); CK(x.printable(ty), w, "printable(%d) of '%s' is '%s', expected '%s'", ty, esc(s.substr(0, 60)).c_str(), esc(S(x.printable(ty)).substr(0, 100)).c_str(), esc(w.substr(0, 100)).c_str()); break; }
      case HEX: { string s = content(p.b), w; char b[8]; for (unsigned char ch : s) { snprintf(b, sizeof b, "%02X", ch); w += b; } CK(mk(s, r.below(6)).to_hex(), w, "to_hex"); break; }
      case B64: { static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string s = pick(r.chance(1, 2) ? "ABz09+/" : "ABz09+/=-_ ", r.below(12)); if (r.chance(1, 6) && !s.empty()) s[r.below(s.size())] = (char)r.next(); string z = s, w; while (!z.empty() && z.back() == '=') z.pop_back(); bool ok = z.size() % 4 != 1; unsigned acc = 0; int bits = 0; for (char ch : z) { const char* q = ch ? strchr(T, ch) : nullptr; if (!q) { ok = false; break; } acc = acc << 6 | (unsigned)(q - T); bits += 6; if (bits >= 8) { bits -= 8; w += (char)(acc >> bits); } } auto bs = tight(s); StringAccum d; bool g = Str(bs.get(), (int)s.size()).decode_base64(d); string gs = S(d.take_string()); PBT_CHECK(g == ok && (!ok || gs == w), "decode_base64('%s') = %d '%s', expected %d '%s'", esc(s).c_str(), g, esc(gs).c_str(), ok, esc(w).c_str()); break; }
      case UTF8: {
        static const char* bits[] = {"a", "\x7f", "\0", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9d\x84\x9e", "\xed\xa0\xb4\xed\xb4\x9e", "\xed\xaf\xbf\xed\xbf\xbf", "\xed\xa0\x80", "\xed\xb0\x80", "\xc0\x80", "\xf5\x80\x80\x80", "\x80", "\xe2\x82", "\xf0\x9f", "\xff", "\xc3"}; string s; size_t n = r.below(7); bool bom = r.chance(1, 5); if (bom) s = "\xef\xbb\xbf"; for (size_t i = 0; i < n; ++i) { size_t b = r.below(17); s += b == 2 ? string(1, '\0') : bits[b]; }
        int fl = (int)r.below(2) * String::utf_strip_bom + (int)r.below(2) * String::utf_replacement; string w, cw; for (int mode = 0; mode < 2; ++mode) { string& z = mode ? cw : w; size_t i = (fl & String::utf_strip_bom) && bom ? 3 : 0; while (i < s.size()) { size_t b = i; uint32_t cp; if (utfok(s, i, cp)) { z += s.substr(b, i - b); continue; } auto U = [&](size_t q) { return i + q < s.size() ? (unsigned char)s[i + q] : 0; }; if (mode && U(0) == 0xed && U(1) >= 0xa0 && U(1) < 0xb0 && (U(2) & 0xc0) == 0x80 && U(3) == 0xed && U(4) >= 0xb0 && U(4) < 0xc0 && (U(5) & 0xc0) == 0x80) { utf8(z, 0x10000 + ((((U(1) & 15) << 6 | (U(2) & 63)) << 10) | ((U(4) & 15) << 6 | (U(5) & 63)))); i += 6; continue; } if ((fl & String::utf_replacement) && s[i]) z += "\xef\xbf\xbd"; for (++i; i < s.size() && ((unsigned char)s[i] & 0xc0) == 0x80;) ++i; } }
        String x = mk(s, r.below(6)), g = x.utf8_to_utf8(fl), h = x.cesu8_to_utf8(fl); CK(g, w, "utf8_to_utf8('%s', %d) = '%s', expected '%s'", esc(s).c_str(), fl, esc(S(g)).c_str(), esc(w).c_str()); CK(h, cw, "cesu8_to_utf8('%s', %d) = '%s', expected '%s'", esc(s).c_str(), fl, esc(S(h)).c_str(), esc(cw).c_str()); break;
      }
      case UTF16: {
        std::vector<uint32_t> cps = text(p.b); string be_, le, w; int fl = (int)r.below(2) * String::utf_replacement + (int)r.below(2) * String::utf_strip_bom; bool bom = r.chance(1, 4); auto put = [&](uint32_t u) { be_ += (char)(u >> 8); be_ += (char)u; le += (char)u; le += (char)(u >> 8); }; if (bom) { put(0xfeff); if (!(fl & String::utf_strip_bom)) utf8(w, 0xfeff); }
        for (auto cp : cps) { if (r.chance(1, 12)) { put(r.chance(1, 2) ? 0xdc00 + r.below(0x400) : 0xd800 + r.below(0x400)); if (fl & String::utf_replacement) w += "\xef\xbf\xbd"; put('z'); w += 'z'; } if (cp == 0xfffe || cp == 0xffff) continue; if (cp < 0x10000) put(cp); else { put(0xd800 + ((cp - 0x10000) >> 10)); put(0xdc00 + ((cp - 0x10000) & 0x3ff)); } if (cp) utf8(w, cp); } if (r.chance(1, 6)) { be_ += 'x'; le += 'x'; }
        CK(mk(be_, r.below(6)).utf16be_to_utf8(fl), w, "utf16be_to_utf8('%s')", esc(be_.substr(0, 80)).c_str()); CK(mk(le, r.below(6)).utf16le_to_utf8(fl), w, "utf16le_to_utf8('%s')", esc(le.substr(0, 80)).c_str()); if (bom) { CK(mk(be_, 0).utf16_to_utf8(fl), w, "utf16_to_utf8 of big-endian text"); CK(mk(le, 0).utf16_to_utf8(fl), w, "utf16_to_utf8 of little-endian text"); } break;
      }
      case W1252: { string s = content(p.b), w; static const uint16_t c1[32] = {0x20AC, 0x81, 0x201A, 0x192, 0x201E, 0x2026, 0x2020, 0x2021, 0x2C6, 0x2030, 0x160, 0x2039, 0x152, 0x8D, 0x17D, 0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x2DC, 0x2122, 0x161, 0x203A, 0x153, 0x9D, 0x17E, 0x178}; for (unsigned char ch : s) if (ch) utf8(w, ch >= 128 && ch < 160 ? c1[ch - 128] : ch); CK(mk(s, r.below(6)).windows1252_to_utf8(), w, "windows1252_to_utf8('%s')", esc(s.substr(0, 60)).c_str()); break; }
      default: { string s = utf8s(text(p.b)); if (s.find("\xef\xbf\xbe") != string::npos || s.find("\xef\xbf\xbf") != string::npos) break; String x = mk(s, r.below(6)), e = x.encode_json(); string j = "\"" + S(e) + "\""; Ref ref(j); D d; PBT_CHECK(ref.parse(d) && d.t == D::STR && d.s == s, "encode_json('%s') = %s", esc(s.substr(0, 80)).c_str(), esc(j.substr(0, 120)).c_str()); PBT_CHECK(j.find("\xe2\x80\xa8") == string::npos && j.find("\xe2\x80\xa9") == string::npos, "encode_json leaves U+2028/9"); }
    }
  }
}
PBT_HARNESS(a, {"hist", "operations on four strings and two accumulators sharing storage, against std::string; non-trivial: at least three operations", kH, ghist, rhist, 3});
PBT_HARNESS(b, {"fn", "searches, comparisons and encodings of generated strings, against their definitions", kF, gfn, rfn, 3});
