// tlx string utilities: splitting, joining, quoting, case-insensitive orders, search, replacing, parsing,
// formatting and line reading, against plain reference definitions and round trips.
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <tlx/container/string_view.hpp>
#include <tlx/string.hpp>
#include <tlx/string/appendline.hpp>
#include <tlx/string/expand_environment_variables.hpp>
#include <tlx/string/parse_uri.hpp>
#include <tlx/string/parse_uri_form_data.hpp>
#include <tlx/string/split_quoted.hpp>
#include <tlx/string/join_quoted.hpp>
#include <tlx/string/ssprintf_generic.hpp>
#include "pbt.h"
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng; using std::string; using std::vector;
namespace {
using L = vector<string>; const size_t N = string::npos;
// a case spells three strings, one character per operation: k = which string, a = which character of the alphabet
const vector<string> kSpell = {"s0", "s1", "s2"};
const string& alpha(uint64_t i) {
  static const vector<string> A = {"ab,", "aAbB,. ", "a ,\t\n\rB", "ab \"\\n", "ab%4=&+?#/1F", "\xff\x80 azAZ~\x7f,", string("ab,\0\xff", 5), "$A{}B_1 \xe9", "aab", "&<>\"';a"}; return A[i % A.size()];
}
Case spell(Rng& r, int size, std::initializer_list<int> alphas) {
  Case c; vector<int> al(alphas); c.cfg = {(uint64_t)al[r.below(al.size())], r.below(8), r.below(10), r.below(64), r.below(4), r.next()}; c.thr.resize(1);
  size_t l[3] = {r.below(4 + size / 3), r.below(r.chance(1, 2) ? 3 : 4 + size / 6), r.below(r.chance(1, 2) ? 3 : 4 + size / 6)}; if (r.chance(1, 4)) l[1] = l[0];
  for (unsigned k = 0; k < 3; ++k) for (size_t i = 0; i < l[k]; ++i) { uint64_t a = r.below(12); if (k == 1 && l[1] == l[0] && r.chance(3, 4)) a = c.thr[0][i].a; c.thr[0].push_back({k, a, 0, 0}); }
  return c;
}
struct Sp { string s[3]; };
Sp read(const Case& c) { Sp p; const string& A = alpha(c.c(0)); if (!c.thr.empty()) for (const Op& op : c.thr[0]) { string& s = p.s[op.k % 3]; if (s.size() < 300) s += A[op.a % A.size()]; } return p; }
string cut0(const string& s) { return s.substr(0, s.find('\0')); }
string show(const string& s) { string o; for (unsigned char ch : s) { char b[8]; if (ch >= 32 && ch < 127) o += (char)ch; else { snprintf(b, 8, "\\x%02x", ch); o += b; } } return o; }
string showl(const L& l) { string o = "["; for (auto& s : l) o += "'" + show(s) + "' "; return o + "]"; }
#define EQ(got, want, ...) do { auto g_ = (got); decltype(g_) w_ = (want); if (!(g_ == w_)) { char b_[900]; snprintf(b_, 900, __VA_ARGS__); ::pbt::fail("%s", b_); } } while (0)
#define S(x) show(x).c_str()
// ---- split and join
L rsplit(const string& sep, const string& s, size_t limit) {
  L o; if (!limit) return o; if (sep.empty()) { for (size_t i = 0; i < s.size(); ++i) { if (o.size() + 1 == limit) { o.push_back(s.substr(i)); break; } o.push_back(s.substr(i, 1)); } return o; }
  size_t p = 0; while (o.size() + 1 < limit) { size_t q = s.find(sep, p); if (q == N) break; o.push_back(s.substr(p, q - p)); p = q + sep.size(); } o.push_back(s.substr(p)); return o;
}
bool white(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
L rwords(const string& s, size_t limit) { L o; size_t p = 0; if (!limit) return o; for (;;) { while (p < s.size() && white(s[p])) ++p; if (p == s.size()) return o; size_t q = p; while (q < s.size() && !white(s[q])) ++q; if (o.size() + 1 == limit && q < s.size()) { o.push_back(s.substr(p)); return o; } o.push_back(s.substr(p, q - p)); p = q; } }
string rjoin(const string& g, const L& l) { string o; for (size_t i = 0; i < l.size(); ++i) { if (i) o += g; o += l[i]; } return o; }
Case gsplit(Rng& r, int size) { return spell(r, size, {0, 0, 1, 2, 5, 6, 8, 8}); }
void rsplit_(const Case& c, Obs& o) {
  Sp p = read(c); const string &s = p.s[0], &sep = p.s[1]; static const char seps[] = ", abA\xff\t"; char ch = seps[c.c(1) % 8]; string chs(1, ch); size_t lims[] = {N, 0, 1, 2, 3, 4, 7, N}, lim = lims[c.c(2) % 8], mn = c.c(3) % 6;
  const string cs = cut0(sep); L want = rsplit(chs, s, lim), into = {"old", "older"};
  EQ(tlx::split(ch, s, lim), want, "split('%s', '%s', %zd) gave %s", S(chs), S(s), lim, showl(g_).c_str());
  EQ(tlx::split(&into, ch, s, lim), want, "split(into, char)"); PBT_CHECK(into == want, "split(into) left %s", showl(into).c_str());
  EQ(tlx::split(chs, s, lim), want, "split(string of one char '%s', '%s', %zd) gave %s", S(chs), S(s), lim, showl(g_).c_str());
  L w2 = rsplit(sep, s, lim), w3 = rsplit(cs, s, lim); if (lim == N) { EQ(tlx::split(sep, s), w2, "split('%s', '%s') gave %s, not %s", S(sep), S(s), showl(g_).c_str(), showl(w_).c_str()); EQ(tlx::split(ch, s), want, "split(char)"); }
  EQ(tlx::split(sep, s, lim), w2, "split('%s', '%s', %zd) gave %s, not %s", S(sep), S(s), lim, showl(g_).c_str(), showl(w_).c_str()); EQ(tlx::split(&into, sep, s, lim), w2, "split(into, string)");
  EQ(tlx::split(cs.c_str(), s, lim), w3, "split(C string '%s', '%s', %zd) gave %s", S(cs), S(s), lim, showl(g_).c_str()); EQ(tlx::split(&into, cs.c_str(), s, lim), w3, "split(into, C string)");
  auto pad = [&](L l) { if (l.size() < mn) l.resize(mn); return l; };
  if (mn <= lim) { EQ(tlx::split(ch, s, mn, lim), pad(want), "split(char, min %zu, limit %zd) gave %s", mn, lim, showl(g_).c_str()); EQ(tlx::split(sep, s, mn, lim), pad(w2), "split(string, min %zu, limit %zd) gave %s", mn, lim, showl(g_).c_str()); EQ(tlx::split(cs.c_str(), s, mn, lim), pad(w3), "split(C string, min %zu, limit %zd)", mn, lim); EQ(tlx::split(&into, ch, s, mn, lim), pad(want), "split(into, char, min)"); EQ(tlx::split(&into, sep, s, mn, lim), pad(w2), "split(into, string, min)"); EQ(tlx::split(&into, cs.c_str(), s, mn, lim), pad(w3), "split(into, C string, min)"); }
  { L v; tlx::split_view(ch, s, [&](const tlx::StringView& x) { v.emplace_back(x.data(), x.size()); }, lim); EQ(v, want, "split_view('%s', '%s', %zd) gave %s, not %s", S(chs), S(s), lim, showl(g_).c_str(), showl(w_).c_str()); }
  EQ(tlx::split_words(s, lim), rwords(s, lim), "split_words('%s', %zd) gave %s", S(s), lim, showl(g_).c_str());
  // joining is the opposite
  L full = rsplit(chs, s, N); EQ(tlx::join(ch, full), s, "join(char) of the split of '%s'", S(s)); EQ(tlx::join(chs, full), s, "join(string)"); if (ch) EQ(tlx::join(chs.c_str(), full), s, "join(C string)");
  if (!sep.empty()) { L f2 = rsplit(sep, s, N); EQ(tlx::join(sep, f2), s, "join('%s') of the split of '%s'", S(sep), S(s)); EQ(tlx::split(sep, tlx::join(sep, f2)), f2, "split of the join"); }
  EQ(tlx::join(p.s[2], full), rjoin(p.s[2], full), "join with '%s'", S(p.s[2])); EQ(tlx::join(',', full.begin(), full.end()), rjoin(",", full), "join of a range"); { std::set<string> st(full.begin(), full.end()); EQ(tlx::join(sep, st), rjoin(sep, L(st.begin(), st.end())), "join of a set"); vector<int> nums; for (auto& f : full) nums.push_back((int)f.size()); L ns; for (int x : nums) ns.push_back(std::to_string(x)); EQ(tlx::join(", ", nums), rjoin(", ", ns), "join of numbers"); }
  EQ(tlx::join(cs.c_str(), full), rjoin(cs, full), "join with a C string"); EQ(tlx::join("+", L()), string(), "join of nothing");
  o.nontrivial(w2.size() >= 2 || want.size() >= 2); if (sep.size() >= 2 && w2.size() >= 2) o.mark("longer_separator"); if (lim != N && w2.size() == lim) o.mark("limited");
}
// ---- quoting
Case gquote(Rng& r, int size) { Case c = spell(r, size, {3, 3, 3, 2, 0, 5}); size_t n = c.thr[0].size(); for (size_t i = 0; i < n; ++i) c.thr[0][i].b = r.below(4), c.thr[0][i].c = r.below(16); return c; }
template <class F> bool throws(F f) { try { f(); return false; } catch (const std::runtime_error&) { return true; } }
void rquote(const Case& c, Obs& o) {
  if (c.thr.empty()) return; static const char* sets[] = {" \"\\", ",'\\", "ab,", " ,b", "\t\"%"}; const char* q = sets[c.c(1) % 5]; char sep = q[0], quo = q[1], esc = q[2]; const string& A = alpha(c.c(0));
  L f(1); for (const Op& op : c.thr[0]) { if (op.b % 4 == 0) f.emplace_back(); if (op.c % 4 == 0) f.back() += q[op.c / 4 % 3]; else f.back() += A[op.a % A.size()]; if (f.size() > 60) break; } if (c.c(2) == 0) f.clear();
  string j = tlx::join_quoted(f, sep, quo, esc); L back; try { back = tlx::split_quoted(j, sep, quo, esc); } catch (const std::runtime_error& e) { pbt::fail("split_quoted of join_quoted %s = '%s' throws: %s", showl(f).c_str(), S(j), e.what()); }
  PBT_CHECK(back == f, "split_quoted of join_quoted %s = '%s' is %s", showl(f).c_str(), S(j), showl(back).c_str()); if (c.c(1) % 5 == 0) { EQ(tlx::join_quoted(f), j, "join_quoted with defaults"); EQ(tlx::split_quoted(j), f, "split_quoted with defaults"); }
  // the documented syntax, written another way: any field quoted, separators repeated
  Rng r(c.c(5)); string w; size_t spaces = r.below(3); w.append(spaces, sep); for (size_t i = 0; i < f.size(); ++i) { if (i) w.append(1 + r.below(3), sep); bool plain = !f[i].empty() && f[i].find(sep) == N && f[i][0] != quo && r.chance(1, 2); if (plain) { w += f[i]; continue; } w += quo; for (char ch : f[i]) { if (ch == quo || ch == esc) w += esc, w += ch; else if ((ch == '\n' || ch == '\r' || ch == '\t') && quo != 'n' && esc != 'n' && r.chance(1, 2)) w += esc, w += ch == '\n' ? 'n' : ch == '\r' ? 'r' : 't'; else w += ch; } w += quo; } if (!f.empty()) w.append(r.below(3), sep);
  L got; try { got = tlx::split_quoted(w, sep, quo, esc); } catch (const std::runtime_error& e) { pbt::fail("split_quoted('%s') throws: %s", S(w), e.what()); } PBT_CHECK(got == f, "split_quoted('%s') is %s, not %s", S(w), showl(got).c_str(), showl(f).c_str());
  // damage is reported, whatever was read before it
  string open = w + sep + quo + "x"; PBT_CHECK(throws([&] { tlx::split_quoted(open, sep, quo, esc); }), "split_quoted accepts an open quote in '%s'", S(open)); string extra = w + sep + quo + "x" + quo + "y"; if (sep != 'y') PBT_CHECK(throws([&] { tlx::split_quoted(extra, sep, quo, esc); }), "split_quoted accepts '%s'", S(extra)); string ue = w + sep + quo + esc + "z" + quo; PBT_CHECK(throws([&] { tlx::split_quoted(ue, sep, quo, esc); }), "split_quoted accepts the escape in '%s'", S(ue)); string le = w + sep + quo + esc; PBT_CHECK(throws([&] { tlx::split_quoted(le, sep, quo, esc); }), "split_quoted accepts a last escape in '%s'", S(le));
  bool need = false, empty = false; for (auto& x : f) { need |= x.find(sep) != N; empty |= x.empty(); } o.nontrivial(need && f.size() >= 2); if (empty) o.mark("empty_field");
}
// ---- letter case, prefixes, suffixes, distances
string low(string s) { for (char& ch : s) if (ch >= 'A' && ch <= 'Z') ch = (char)(ch + 32); return s; }
string up(string s) { for (char& ch : s) if (ch >= 'a' && ch <= 'z') ch = (char)(ch - 32); return s; }
int sgn(int x) { return (x > 0) - (x < 0); }
size_t dist(const string& a, const string& b, size_t id, size_t re) { vector<vector<size_t>> d(a.size() + 1, vector<size_t>(b.size() + 1)); for (size_t i = 0; i <= a.size(); ++i) for (size_t j = 0; j <= b.size(); ++j) { if (!i || !j) { d[i][j] = (i + j) * id; continue; } d[i][j] = std::min({d[i - 1][j] + id, d[i][j - 1] + id, d[i - 1][j - 1] + (a[i - 1] == b[j - 1] ? 0 : re)}); } return d[a.size()][b.size()]; }
struct Costs { static const unsigned int cost_insert_delete = 2; static const unsigned int cost_replace = 3; static bool char_equal(const char& a, const char& b) { return a == b; } };
Case gcase(Rng& r, int size) { Case c = spell(r, size, {1, 1, 1, 5, 8}); if (r.chance(1, 3)) for (Op& op : c.thr[0]) if (op.k && r.chance(1, 2)) op.a ^= 1; return c; }
void rcase(const Case& c, Obs& o) {
  Sp p = read(c); const string &a = p.s[0], &b = p.s[1]; string la = low(a), lb = low(b); const char *ca = a.c_str(), *cb = b.c_str(); bool ascii = true; for (unsigned char x : a + b) ascii &= x < 128; string x = a + b;
  EQ(tlx::to_lower(x), low(x), "to_lower('%s')", S(x)); EQ(tlx::to_upper(x), up(x), "to_upper('%s')", S(x)); { string y = x; PBT_CHECK(&tlx::to_lower(&y) == &y && y == low(x), "to_lower in place"); y = x; PBT_CHECK(&tlx::to_upper(&y) == &y && y == up(x), "to_upper in place"); for (char ch : x) PBT_CHECK(tlx::to_lower(ch) == low(string(1, ch))[0] && tlx::to_upper(ch) == up(string(1, ch))[0], "to_lower/upper of a character"); }
  int cmp[4] = {tlx::compare_icase(ca, cb), tlx::compare_icase(ca, b), tlx::compare_icase(a, cb), tlx::compare_icase(a, b)}, rev[4] = {tlx::compare_icase(cb, ca), tlx::compare_icase(cb, a), tlx::compare_icase(b, ca), tlx::compare_icase(b, a)};
  bool eq[4] = {tlx::equal_icase(ca, cb), tlx::equal_icase(ca, b), tlx::equal_icase(a, cb), tlx::equal_icase(a, b)}, le[4] = {tlx::less_icase(ca, cb), tlx::less_icase(ca, b), tlx::less_icase(a, cb), tlx::less_icase(a, b)}, ge[4] = {tlx::less_icase(cb, ca), tlx::less_icase(cb, a), tlx::less_icase(b, ca), tlx::less_icase(b, a)};
  for (int i = 0; i < 4; ++i) {
    PBT_CHECK(eq[i] == (la == lb), "equal_icase('%s', '%s') overload %d is %d", S(a), S(b), i, eq[i]);
    PBT_CHECK(cmp[i] == -rev[i] && (cmp[i] == 0) == (la == lb) && cmp[i] >= -1 && cmp[i] <= 1, "compare_icase('%s', '%s') overload %d is %d, reversed %d", S(a), S(b), i, cmp[i], rev[i]); PBT_CHECK(le[i] == (cmp[i] < 0) && ge[i] == (cmp[i] > 0), "less_icase('%s', '%s') overload %d is %d and %d, compare_icase is %d", S(a), S(b), i, le[i], ge[i], cmp[i]);
    if (ascii) PBT_CHECK(cmp[i] == sgn(strcmp(la.c_str(), lb.c_str())), "compare_icase('%s', '%s') overload %d is %d, strcmp says %d", S(a), S(b), i, cmp[i], strcmp(la.c_str(), lb.c_str()));
    PBT_CHECK(cmp[i] == cmp[0], "compare_icase overloads differ on '%s', '%s'", S(a), S(b));
  }
  tlx::less_icase_asc asc; tlx::less_icase_desc desc; PBT_CHECK(asc(a, b) == le[3] && asc(b, a) == ge[3] && !asc(a, a), "less_icase_asc"); PBT_CHECK(desc(a, b) == ge[3] && desc(b, a) == le[3] && !desc(a, a), "less_icase_desc('%s', '%s') is %d, reversed %d, of itself %d", S(a), S(b), desc(a, b), desc(b, a), desc(a, a));
  bool sw = a.compare(0, b.size(), b) == 0, swi = la.compare(0, lb.size(), lb) == 0, ew = a.size() >= b.size() && a.compare(a.size() - b.size(), N, b) == 0, ewi = a.size() >= b.size() && la.compare(a.size() - b.size(), N, lb) == 0;
  PBT_CHECK(tlx::starts_with(ca, cb) == sw && tlx::starts_with(ca, b) == sw && tlx::starts_with(a, cb) == sw && tlx::starts_with(a, b) == sw, "starts_with('%s', '%s')", S(a), S(b)); PBT_CHECK(tlx::starts_with_icase(ca, cb) == swi && tlx::starts_with_icase(ca, b) == swi && tlx::starts_with_icase(a, cb) == swi && tlx::starts_with_icase(a, b) == swi, "starts_with_icase('%s', '%s')", S(a), S(b));
  PBT_CHECK(tlx::ends_with(ca, cb) == ew && tlx::ends_with(ca, b) == ew && tlx::ends_with(a, cb) == ew && tlx::ends_with(a, b) == ew, "ends_with('%s', '%s')", S(a), S(b)); PBT_CHECK(tlx::ends_with_icase(a, cb) == ewi && tlx::ends_with_icase(a, b) == ewi && tlx::ends_with_icase(ca, cb) == ewi && tlx::ends_with_icase(ca, b) == ewi, "ends_with_icase('%s', '%s')", S(a), S(b));
  PBT_CHECK(tlx::contains(a, b) == (a.find(b) != N) && tlx::contains(a, cb) == (a.find(b) != N), "contains('%s', '%s')", S(a), S(b)); if (!b.empty()) PBT_CHECK(tlx::contains(a, b[0]) == (a.find(b[0]) != N), "contains of a character");
  PBT_CHECK(tlx::levenshtein(a, b) == dist(a, b, 1, 1) && tlx::levenshtein(ca, cb) == dist(a, b, 1, 1), "levenshtein('%s', '%s') is %zu, not %zu", S(a), S(b), tlx::levenshtein(a, b), dist(a, b, 1, 1)); PBT_CHECK(tlx::levenshtein_icase(a, b) == dist(la, lb, 1, 1) && tlx::levenshtein_icase(ca, cb) == dist(la, lb, 1, 1), "levenshtein_icase('%s', '%s')", S(a), S(b)); PBT_CHECK(tlx::levenshtein_algorithm<Costs>(a.data(), a.size(), b.data(), b.size()) == dist(a, b, 2, 3), "levenshtein of '%s', '%s' with costs 2 and 3 is %zu, not %zu", S(a), S(b), tlx::levenshtein_algorithm<Costs>(a.data(), a.size(), b.data(), b.size()), dist(a, b, 2, 3));
  // index_of
  L l = rsplit(",", a, N); size_t want = N, wi = N; string key = c.c(1) % 2 && !l.empty() ? up(l[c.c(3) % l.size()]) : b; for (size_t i = l.size(); i-- > 0;) { if (l[i] == key) want = i; if (low(l[i]) == low(key)) wi = i; }
  auto idx = [](auto f) { try { return f(); } catch (const std::runtime_error&) { return N; } }; PBT_CHECK(idx([&] { return tlx::index_of(l, key); }) == want && idx([&] { return tlx::index_of(l, key.c_str()); }) == want, "index_of(%s, '%s')", showl(l).c_str(), S(key)); PBT_CHECK(idx([&] { return tlx::index_of_icase(l, key); }) == wi, "index_of_icase(%s, '%s') is not %zd", showl(l).c_str(), S(key), wi); PBT_CHECK(idx([&] { return tlx::index_of_icase(l, key.c_str()); }) == wi, "index_of_icase(%s, C string '%s') is not %zd", showl(l).c_str(), S(key), wi);
  o.nontrivial(a.size() >= 2 && !b.empty()); if (la == lb && a != b) o.mark("equal_but_case"); if (swi && la != lb) o.mark("prefix");
}
// ---- trimming, erasing, replacing, words, wrapping
string rtrim(const string& s, const string& d, int side) { size_t i = 0, j = s.size(); if (side & 1) while (i < j && d.find(s[i]) != N) ++i; if (side & 2) while (j > i && d.find(s[j - 1]) != N) --j; return s.substr(i, j - i); }
string rrepl(const string& s, const string& n, const string& w, bool all) { string o; size_t p = 0; for (;;) { size_t q = s.find(n, p); if (q == N) break; o += s.substr(p, q - p) + w; p = q + n.size(); if (!all) break; } return o + s.substr(p); }
Case gtrim(Rng& r, int size) { return spell(r, size, {0, 1, 2, 2, 8, 5, 3}); }
void rtrim_(const Case& c, Obs& o) {
  Sp p = read(c); const string &s = p.s[0], &d = p.s[1], &w = p.s[2]; string x, ws = " \r\n\t"; const char *cd = d.c_str(), *cw = w.c_str();
#define BOTH(fn, side) EQ(tlx::fn(s), rtrim(s, ws, side), #fn "('%s')", S(s)); EQ(tlx::fn(s, d), rtrim(s, d, side), #fn "('%s', '%s') gave '%s'", S(s), S(d), S(g_)); EQ(tlx::fn(s, cd), rtrim(s, d, side), #fn "('%s', C string '%s') gave '%s'", S(s), S(d), S(g_)); x = s; PBT_CHECK(&tlx::fn(&x) == &x && x == rtrim(s, ws, side), #fn " in place of '%s'", S(s)); x = s; tlx::fn(&x, d); PBT_CHECK(x == rtrim(s, d, side), #fn " in place ('%s', '%s') gave '%s'", S(s), S(d), S(x)); x = s; tlx::fn(&x, cd); PBT_CHECK(x == rtrim(s, d, side), #fn " in place ('%s', C string '%s')", S(s), S(d))
  BOTH(trim, 3); BOTH(trim_left, 1); BOTH(trim_right, 2);
  auto er = [&](const string& dd) { string y; for (char ch : s) if (dd.find(ch) == N) y += ch; return y; };
  EQ(tlx::erase_all(s), er(" "), "erase_all('%s')", S(s)); EQ(tlx::erase_all(s, ','), er(","), "erase_all(char)"); EQ(tlx::erase_all(s, d), er(d), "erase_all('%s', '%s')", S(s), S(d)); EQ(tlx::erase_all(s, cd), er(d), "erase_all(C string)"); x = s; EQ(tlx::erase_all(&x), er(" "), "erase_all in place"); x = s; EQ(tlx::erase_all(&x, 'a'), er("a"), "erase_all in place (char)"); x = s; EQ(tlx::erase_all(&x, d), er(d), "erase_all in place ('%s', '%s') gave '%s'", S(s), S(d), S(g_)); x = s; EQ(tlx::erase_all(&x, cd), er(d), "erase_all in place (C string)");
  for (int all = 0; all < 2; ++all) { if (d.empty()) break; string want = rrepl(s, d, w, all); const char* nm = all ? "replace_all" : "replace_first";
    string g[4] = {all ? tlx::replace_all(s, d, w) : tlx::replace_first(s, d, w), all ? tlx::replace_all(s, d, cw) : tlx::replace_first(s, d, cw), all ? tlx::replace_all(s, cd, w) : tlx::replace_first(s, cd, w), all ? tlx::replace_all(s, cd, cw) : tlx::replace_first(s, cd, cw)}, m[4] = {s, s, s, s}; if (all) tlx::replace_all(&m[0], d, w), tlx::replace_all(&m[1], d, cw), tlx::replace_all(&m[2], cd, w), tlx::replace_all(&m[3], cd, cw); else tlx::replace_first(&m[0], d, w), tlx::replace_first(&m[1], d, cw), tlx::replace_first(&m[2], cd, w), tlx::replace_first(&m[3], cd, cw);
    for (int i = 0; i < 4; ++i) PBT_CHECK(g[i] == want && m[i] == want, "%s('%s', '%s', '%s') overload %d gave '%s' and '%s', not '%s'", nm, S(s), S(d), S(w), i, S(g[i]), S(m[i]), S(want));
    if (want != s) o.mark("replaced"); }
  { char n = 'a', t = ','; EQ(tlx::replace_all(s, n, t), rrepl(s, "a", ",", true), "replace_all(char)"); EQ(tlx::replace_first(s, n, t), rrepl(s, "a", ",", false), "replace_first(char)"); x = s; EQ(tlx::replace_all(&x, n, t), rrepl(s, "a", ",", true), "replace_all in place (char)"); x = s; EQ(tlx::replace_first(&x, n, t), rrepl(s, "a", ",", false), "replace_first in place (char)"); }
  // words
  L sw = rwords(s, N), dw = rwords(d, N); for (auto& word : dw) { bool in = std::find(sw.begin(), sw.end(), word) != sw.end(); PBT_CHECK(tlx::contains_word(s, word) == in && tlx::contains_word(s, word.c_str()) == in, "contains_word('%s', '%s') is not %d", S(s), S(word), in); if (in) o.mark("word_found"); } PBT_CHECK(tlx::contains_word(s, "") && tlx::contains_word(s, string()), "contains_word of nothing");
  { string u = tlx::union_words(s, d); L uw = rwords(u, N); std::set<string> a(uw.begin(), uw.end()), want(sw.begin(), sw.end()); want.insert(dw.begin(), dw.end()); PBT_CHECK(a == want, "union_words('%s', '%s') is '%s'", S(s), S(d), S(u)); if (std::set<string>(sw.begin(), sw.end()).size() == sw.size()) PBT_CHECK(uw.size() == a.size(), "union_words('%s', '%s') repeats a word: '%s'", S(s), S(d), S(u)); }
  { auto ex = [&]() -> string { size_t i = s.find(d); if (i == N) return ""; i += d.size(); size_t j = s.find(w, i); return j == N ? "" : s.substr(i, j - i); }; string want = ex(); PBT_CHECK(tlx::extract_between(s, d, w) == want && tlx::extract_between(s, cd, w) == want && tlx::extract_between(s, d, cw) == want && tlx::extract_between(s, cd, cw) == want, "extract_between('%s', '%s', '%s') is '%s', not '%s'", S(s), S(d), S(w), S(tlx::extract_between(s, d, w)), S(want)); }
  { size_t n = c.c(3) % 50; string want = s.substr(0, n); want.append(n - want.size(), '.'); EQ(tlx::pad(s, n, '.'), want, "pad"); }
  { unsigned wr = (unsigned)(c.c(2) + c.c(1) % 3 * 8); string g = tlx::word_wrap(s, wr); PBT_CHECK(g.size() == s.size(), "word_wrap('%s', %u) has %zu characters", S(s), wr, g.size()); size_t line = 0; bool sp = false; auto isp = [](char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); };
    for (size_t i = 0; i <= g.size(); ++i) { if (i < g.size() && g[i] != s[i]) PBT_CHECK(g[i] == '\n' && isp(s[i]), "word_wrap('%s', %u) changes character %zu", S(s), wr, i); if (i == g.size() || g[i] == '\n') { PBT_CHECK(line <= wr || !sp, "word_wrap('%s', %u) leaves a line of %zu with a space in it: '%s'", S(s), wr, line, S(g)); line = 0; sp = false; } else { ++line; sp |= isp(g[i]); } } }
  o.nontrivial(s.size() >= 3 && !d.empty());
}
// ---- URIs, form data, HTML, environment
string hexc(char ch) { char b[4]; snprintf(b, 4, "%%%02X", (unsigned char)ch); return b; }
string rdec(const string& s) { string o; auto hx = [](char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '%' && i + 2 < s.size() && hx(s[i + 1]) >= 0 && hx(s[i + 2]) >= 0) { o += (char)(16 * hx(s[i + 1]) + hx(s[i + 2])); i += 2; } else o += s[i] == '+' ? ' ' : s[i]; } return o; }
Case guri(Rng& r, int size) { return spell(r, size, {4, 4, 4, 5, 6, 7, 7, 9}); }
void ruri(const Case& c, Obs& o) {
  Sp p = read(c); const string& s = p.s[0]; string z = cut0(s), e;
  for (char ch : s) e += isalnum((unsigned char)ch) || strchr("-_.~", ch ? ch : '!') ? string(1, ch) : hexc(ch); EQ(tlx::escape_uri(s), e, "escape_uri('%s')", S(s)); EQ(tlx::escape_uri(z.c_str()), e.substr(0, tlx::escape_uri(z).size()), "escape_uri(C string '%s')", S(z));
  EQ(tlx::parse_uri_form_data_decode(e.c_str()), s, "decode of escape_uri('%s') gave '%s'", S(s), S(g_)); EQ(tlx::parse_uri_form_data_decode(z.c_str()), rdec(z), "decode('%s') gave '%s', not '%s'", S(z), S(g_), S(w_));
  { size_t k = c.c(3) % (z.size() + 1); EQ(tlx::parse_uri_form_data_decode(z.c_str(), z.c_str() + k), rdec(z.substr(0, k)), "decode of the first %zu characters of '%s' gave '%s'", k, S(z), S(g_)); std::unique_ptr<char[]> m(new char[k]); memcpy(m.get(), z.data(), k); EQ(tlx::parse_uri_form_data_decode(m.get(), m.get() + k), rdec(z.substr(0, k)), "decode of a range of %zu characters of '%s' gave '%s'", k, S(z), S(g_)); }
  { size_t h = z.find('#'), q = z.find('?'); if (q != N && h != N && q > h) q = N; string path = z.substr(0, std::min(q, h)), qs = q == N ? "" : z.substr(q + 1, h == N ? N : h - q - 1), fr = h == N ? "" : z.substr(h + 1); tlx::string_view a, b, f; tlx::parse_uri(z, &a, &b, &f); PBT_CHECK(a == path && b == qs && f == fr, "parse_uri('%s') is '%s', '%s', '%s'", S(z), S(string(a.data(), a.size())), S(string(b.data(), b.size())), S(string(f.data(), f.size()))); tlx::parse_uri(z.c_str(), &a, &b, &f); PBT_CHECK(a == path && b == qs && f == fr, "parse_uri(C string '%s')", S(z)); if (h != N && q != N) o.mark("query_and_fragment"); }
  { Rng r(c.c(5)); L k, v, ks, vs; size_t n = r.below(5); string form; for (size_t i = 0; i < n; ++i) { string kk = p.s[r.below(3)].substr(0, 1 + r.below(6)), vv = p.s[r.below(3)].substr(0, r.below(8)); if (kk.empty()) kk = "k"; auto enc = [&](const string& t) { string y; for (char ch : t) { if (isalnum((unsigned char)ch)) y += ch; else if (ch == ' ' && r.chance(1, 2)) y += '+'; else { string hc = hexc(ch); if (r.chance(1, 3)) hc = low(hc); y += hc; } } return y; }; k.push_back(kk); bool bare = i + 1 == n && r.chance(1, 4); v.push_back(bare ? "" : vv); if (i) form += '&'; form += enc(kk); if (!bare) { form += '='; form += enc(vv); if (i + 1 == n && r.chance(1, 2)) form += '&'; } }
    ks = {"old"}; tlx::parse_uri_form_data(form, &ks, &vs); PBT_CHECK(ks == k && vs == v, "parse_uri_form_data('%s') is %s %s", S(form), showl(ks).c_str(), showl(vs).c_str()); tlx::parse_uri_form_data(form.c_str(), &ks, &vs); PBT_CHECK(ks == k && vs == v, "parse_uri_form_data(C string)"); }
  { string h; for (char ch : s) h += ch == '&' ? "&amp;" : ch == '<' ? "&lt;" : ch == '>' ? "&gt;" : ch == '"' ? "&quot;" : string(1, ch); EQ(tlx::escape_html(s), h, "escape_html('%s')", S(s)); EQ(tlx::escape_html(z.c_str()), tlx::escape_html(z), "escape_html(C string)"); }
  { setenv("A", p.s[1].find('\0') == N && c.c(1) % 4 ? p.s[1].c_str() : "", 1); setenv("B1_", "b}$A", 1); if (c.c(2) % 3 == 0) unsetenv("A"); setenv("B", "$B", 1); setenv("AB", "{", 1); auto get = [](const string& n) -> string { const char* q = getenv(n.c_str()); return q ? q : ""; }; string w; auto al = [](char ch) { return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || ch == '_'; };
    for (size_t i = 0; i < z.size();) { if (z[i] != '$') { w += z[i++]; continue; } if (i + 1 < z.size() && z[i + 1] == '{') { size_t j = z.find('}', i + 2); if (j == N) { w += z[i++]; continue; } w += get(z.substr(i + 2, j - i - 2)); i = j + 1; o.mark("braced_variable"); } else if (i + 1 < z.size() && al(z[i + 1])) { size_t j = i + 1; while (j < z.size() && (al(z[j]) || (z[j] >= '0' && z[j] <= '9'))) ++j; w += get(z.substr(i + 1, j - i - 1)); i = j; } else w += z[i++]; }
    string m = z; EQ(tlx::expand_environment_variables(&m), w, "expand_environment_variables('%s') with A='%s' is '%s', not '%s'", S(z), S(get("A")), S(g_), S(w_)); EQ(tlx::expand_environment_variables(z), w, "expand_environment_variables copy"); EQ(tlx::expand_environment_variables(z.c_str()), w, "expand_environment_variables C string"); }
  o.nontrivial(s.size() >= 3);
}
// ---- units
Case gunit(Rng& r, int) { Case c; c.cfg = {r.next() >> r.below(64), r.below(6), r.below(4), r.below(4), r.below(4), r.below(12), r.below(5), r.next(), r.below(8)}; if (r.chance(1, 3)) { uint64_t b = r.chance(1, 2) ? 1000 : 1024, v = 1; for (uint64_t i = r.below(7); i--;) v *= b; c.cfg[0] = v * r.range(1, 3) + r.below(3) - 1; } c.thr.resize(1); c.thr[0].push_back({0, 0, 0, 0}); return c; }
void runit(const Case& c, Obs& o) {
  uint64_t v = c.c(0); int prec = (int)(c.c(1) % 6);
  for (int iec = 0; iec < 2; ++iec) { string g = iec ? tlx::format_iec_units(v, prec) : tlx::format_si_units(v, prec), d3 = iec ? tlx::format_iec_units(v) : tlx::format_si_units(v); if (prec == 3) PBT_CHECK(g == d3, "default precision"); size_t sp = g.find(' '); PBT_CHECK(sp != N, "'%s'", g.c_str()); string num = g.substr(0, sp), u = g.substr(sp + 1); static const char *si[] = {"", "k", "M", "G", "T", "P", "E"}, *ie[] = {"", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei"}; int sc = -1; for (int i = 0; i < 7; ++i) if (u == (iec ? ie : si)[i]) sc = i; PBT_CHECK(sc >= 0, "%llu is formatted as '%s'", (unsigned long long)v, g.c_str());
    size_t dot = num.find('.'); PBT_CHECK(prec ? dot != N && num.size() - dot - 1 == (size_t)prec : dot == N, "%llu with precision %d is '%s'", (unsigned long long)v, prec, g.c_str()); long double m = 1; for (int i = 0; i < sc; ++i) m *= iec ? 1024 : 1000; long double x = strtold(num.c_str(), nullptr), half = 0.5L * powl(10, -prec); PBT_CHECK(fabsl(x * m - (long double)v) <= half * m * 1.0001L + (long double)v * 1e-15L, "%llu is formatted as '%s'", (unsigned long long)v, g.c_str()); PBT_CHECK(x <= (iec ? 1024 : 1000) && (!sc || x >= 1), "%llu is formatted as '%s'", (unsigned long long)v, g.c_str()); }
  // parsing
  Rng r(c.c(7)); static const char* pw = "kmgtp"; int pi = (int)(c.c(5) % 6); bool i = pi && c.c(2) % 2, b = c.c(3) % 2; uint64_t base = i ? 1024 : 1000; static const char defs[] = {0, 'k', 'm', 'g', 't', 'p', 'K', 'M', 'G', 'T', 'P', 'x'}; char def = defs[c.c(5) / 1 * 5 % 12]; def = defs[r.below(12)];
  int power = pi; if (!pi && !b) { const char* q = def && def != 'x' ? strchr("kmgtp", tolower(def)) : nullptr; if (q) { power = (int)(q - pw) + 1; base = def >= 'a' ? 1000 : 1024; } }
  uint64_t mult = 1; for (int k = 0; k < power; ++k) mult *= base; uint64_t n = v; while (n && (n > UINT64_MAX / mult)) n >>= 3; string t(r.below(3) == 0 ? r.below(3) : 0, ' '); t += std::to_string(n); t.append(r.below(3), ' '); if (pi) { char ch = pw[pi - 1]; t += r.chance(1, 2) ? (char)toupper(ch) : ch; } if (i) t += r.chance(1, 2) ? 'i' : 'I'; if (b) t += r.chance(1, 2) ? 'b' : 'B'; t.append(r.below(3), ' ');
  uint64_t got = 7; bool ok = tlx::parse_si_iec_units(t, &got, def); PBT_CHECK(ok && got == n * mult, "parse_si_iec_units('%s', default '%c') is %d, %llu, not %llu", t.c_str(), def ? def : '0', ok, (unsigned long long)got, (unsigned long long)(n * mult)); got = 7; PBT_CHECK(tlx::parse_si_iec_units(t.c_str(), &got, def) && got == n * mult, "parse_si_iec_units(C string '%s')", t.c_str());
  // no number, or something after the unit: not parsed
  string unit = t.substr(t.find_last_of("0123456789") + 1); PBT_CHECK(!tlx::parse_si_iec_units(unit, &got, def), "parse_si_iec_units accepts '%s'", unit.c_str()); string junk = t + "x"; PBT_CHECK(!tlx::parse_si_iec_units(junk, &got, def), "parse_si_iec_units accepts '%s'", junk.c_str()); junk = "x" + t; PBT_CHECK(!tlx::parse_si_iec_units(junk, &got, def), "parse_si_iec_units accepts '%s'", junk.c_str());
  o.nontrivial(power > 0); if (i) o.mark("binary_unit");
}
// ---- reading lines and formatting
Case gline(Rng& r, int size) { Case c = spell(r, size, {0, 2, 6, 8}); c.cfg[3] = r.below(300); if (r.chance(1, 3)) for (Op& op : c.thr[0]) if (r.chance(2, 3)) op.a = 0; for (Op& op : c.thr[0]) op.b = r.chance(1, 3) ? r.below(90) : 1; return c; }
void rline(const Case& c, Obs& o) {
  if (c.thr.empty()) return; const string& A = alpha(c.c(0)); string data; for (const Op& op : c.thr[0]) if (data.size() < 4000) data.append(1 + op.b % 100, A[op.a % A.size()]); char delim = c.c(1) % 2 ? ',' : '\n'; if (delim == '\n') for (char& ch : data) if (ch == ',') ch = '\n';
  std::istringstream x(data), y(data); string acc, ref; Rng r(c.c(5)); size_t lines = 0, grown = 0; bool keep = c.c(4) % 2;
  if (c.c(2) == 0) { x.setstate(std::ios::failbit); y.setstate(std::ios::failbit); }
  for (int n = 0; n < 60; ++n) {
    if (r.chance(1, 3)) { size_t cap = r.below(40); acc.reserve(cap); } if (r.chance(1, 4)) acc.shrink_to_fit(); if (r.chance(1, 8)) { size_t fill = acc.capacity() - acc.size() - std::min<size_t>(r.below(3), acc.capacity() - acc.size()); acc.append(fill, '#'); ref.append(fill, '#'); }
    size_t cap0 = acc.capacity(); string line; std::getline(y, line, delim); ref += line; tlx::appendline(x, acc, delim); grown += acc.capacity() != cap0; ++lines;
    PBT_CHECK(acc == ref, "appendline number %d of '%s' left '%s', not '%s'", n, S(data), S(acc), S(ref)); PBT_CHECK(x.rdstate() == y.rdstate(), "appendline number %d of '%s' leaves stream state %d, getline %d", n, S(data), (int)x.rdstate(), (int)y.rdstate()); PBT_CHECK(acc.c_str()[acc.size()] == 0, "appendline: no terminator");
    if (!keep) acc.clear(), ref.clear(); if (!y && r.chance(2, 3)) break;
  }
  // printf into strings, around the first buffer size
  size_t k = c.c(3) % 300; string s = data.substr(0, k); s = cut0(s); s.resize(std::min<size_t>(s.size() + (c.c(4) & 2 ? 110 : 0), 400), 'z'); int num = (int)(c.c(5) % 20001) - 10000; vector<char> big(s.size() + 100); snprintf(big.data(), big.size(), "%d:%s/%.3f%%%c", num, s.c_str(), num / 8.0, 'q'); string want = big.data(), g = tlx::ssprintf("%d:%s/%.3f%%%c", num, s.c_str(), num / 8.0, 'q');
  PBT_CHECK(g == want, "ssprintf of %zu characters gave '%s', not '%s'", want.size(), S(g), S(want)); g = tlx::ssprintf_generic<string>("%d:%s/%.3f%%%c", num, s.c_str(), num / 8.0, 'q'); PBT_CHECK(g == want, "ssprintf_generic of %zu characters gave '%s'", want.size(), S(g));
  size_t mx = c.c(2) * 20 + c.c(1); g = tlx::ssnprintf(mx, "%d:%s/%.3f%%%c", num, s.c_str(), num / 8.0, 'q'); PBT_CHECK(g == want.substr(0, mx), "ssnprintf(%zu) gave '%s'", mx, S(g)); g = tlx::ssnprintf_generic<string>(mx, "%d:%s/%.3f%%%c", num, s.c_str(), num / 8.0, 'q'); PBT_CHECK(g == want.substr(0, mx), "ssnprintf_generic(%zu) gave '%s'", mx, S(g)); if (want.size() >= 128) o.mark("formatted_beyond_first_buffer");
  o.nontrivial(lines >= 3 && grown > 0);
}
const vector<string> kOne = {"case"};
PBT_HARNESS(s1, {"split_join", "random strings over small alphabets split at characters, strings, words with limits and least sizes, and joined again, against a find-based definition; non-trivial: two parts", kSpell, gsplit, rsplit_, 4});
PBT_HARNESS(s2, {"quoted", "random fields with separators, quotes and escapes joined and split again, written in other allowed ways, and damaged; non-trivial: two fields, one holding the separator", kSpell, gquote, rquote, 3});
PBT_HARNESS(s3, {"letter_case", "pairs of random strings, often equal but for case or prefixes of each other, through every comparison, prefix, suffix, index and distance function; non-trivial: two characters and one", kSpell, gcase, rcase, 3});
PBT_HARNESS(s4, {"editing", "random strings trimmed, erased, replaced, searched for words, extracted, padded and wrapped, against plain loops; non-trivial: three characters and a non-empty argument", kSpell, gtrim, rtrim_, 3});
PBT_HARNESS(s5, {"uri_html_env", "random strings escaped, parsed and decoded, form data made and parsed back, variables expanded; non-trivial: three characters", kSpell, guri, ruri, 3});
PBT_HARNESS(s6, {"units", "random numbers formatted with units and unit strings parsed; non-trivial: a unit", kOne, gunit, runit, 2});
PBT_HARNESS(s7, {"lines_printf", "random streams read line by line into strings of any capacity, against std::getline, and formatted output around the buffer size; non-trivial: three lines and a string that had to grow", kSpell, gline, rline, 2});
}  // namespace
