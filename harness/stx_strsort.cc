// tlx string sorters: every algorithm on every kind of string set, with and without common-prefix output, under memory limits.
#include <algorithm>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <tlx/sort/strings.hpp>
#include <tlx/sort/strings_parallel.hpp>
#include "pbt.h"
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng; using std::string; using std::vector;
namespace {
namespace D = tlx::sort_strings_detail;
const vector<string> kOne = {"part"};
struct Small : D::PS5ParametersDefault { static const size_t smallsort_threshold = 48; static const size_t inssort_threshold = 6; static const unsigned TreeBits = 3; using Classify = D::SSClassifyTreeCalcUnrollInterleave<size_t, 3>; };
struct Small2 : D::PS5ParametersDefault { static const bool enable_rest_size = true; static const size_t smallsort_threshold = 200; static const size_t inssort_threshold = 16; using key_type = uint32_t; static const unsigned TreeBits = 4; using Classify = D::SSClassifyEqualUnroll<uint32_t, 4>; };
struct Small3 : D::PS5ParametersDefault { static const bool enable_parallel_sample_sort = false; static const size_t smallsort_threshold = 32; static const size_t inssort_threshold = 4; static const unsigned TreeBits = 4; using Classify = D::SSClassifyTreeUnrollInterleave<size_t, 4>; };
// cfg: size, seed, style, algorithm, memory; each operation appends a block of strings of its own style
Case gen(Rng& r, int size) {
  Case c; bool large = r.chance(1, 1500); c.cfg = {0, r.next(), r.below(64), r.below(14), r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.below(3000) : r.below(1 << r.range(2, 22)), r.next()}; c.thr.resize(1); size_t k = 1 + r.below(3);
  for (size_t i = 0; i < k; ++i) c.thr[0].push_back({0, large ? 60000 + r.below(20000) : r.chance(1, 3) ? r.below(60) : r.below(40 + size * 12), r.below(7), r.next()}); if (large) while (c.thr[0].size() > 2) c.thr[0].pop_back(); return c;
}
vector<string> make(const Case& c) {
  vector<string> v; for (const Op& op : c.thr.at(0)) { Rng r(op.c); size_t n = op.a % 100000; string pre; unsigned al = (unsigned)r.range(1, 4); if (r.chance(1, 3)) for (size_t k = r.below(40); k--;) pre += (char)('a' + r.below(al)); size_t cap = n > 2000 ? 12 : 30;
    vector<string> stem; for (int i = 0; i < 4; ++i) { string s; for (size_t k = r.below(20); k--;) s += (char)(1 + r.below(255)); stem.push_back(s); }
    for (size_t i = 0; i < n; ++i) { string s = pre; switch (op.b % 7) {
        case 0: for (size_t k = r.below(cap); k--;) s += (char)('a' + r.below(al)); break;
        case 1: for (size_t k = r.below(6); k--;) s += (char)(1 + r.below(255)); break;
        case 2: break;                                                       // all equal
        case 3: s += string(r.below(cap), 'x'); break;                       // each a prefix of others
        case 4: s += stem[r.below(4)]; if (r.chance(1, 2)) s += (char)(1 + r.below(255)); break;
        case 5: s += std::to_string(r.below(n + 1)); break;
        case 6: for (size_t k = r.below(10); k--;) s += "\x01\x7f\x80\xff"[r.below(4)]; break; }
      v.push_back(s); } }
  return v;
}
// a small memory limit makes the sorters fall back to quadratic insertion sort: only with few strings
size_t memlim(const Case& c, size_t n) { size_t m = c.c(4); return m && n > 3000 ? m | (1 << 24) : m; }
size_t lcpof(const string& a, const string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return i; }
void verify(vector<string> in, const vector<string>& out, const vector<uint32_t>* lcp, const char* what) {
  std::sort(in.begin(), in.end(), [](const string& a, const string& b) { return a.compare(b) < 0; }); PBT_CHECK(in.size() == out.size(), "%s: %zu strings", what, out.size());
  for (size_t i = 0; i < in.size(); ++i) PBT_CHECK(in[i] == out[i], "%s: string %zu of %zu is '%s', not '%s'", what, i, in.size(), out[i].c_str(), in[i].c_str());
  if (lcp) for (size_t i = 1; i < in.size(); ++i) PBT_CHECK((*lcp)[i] == lcpof(out[i - 1], out[i]), "%s: common prefix %zu of %zu is %u, not %zu ('%s', '%s')", what, i, in.size(), (*lcp)[i], lcpof(out[i - 1], out[i]), out[i - 1].c_str(), out[i].c_str());
}
const char* kAlgo[] = {"sort", "radixsort_CE0", "radixsort_CE2", "radixsort_CE3", "radixsort_CI2", "radixsort_CI3", "multikey_quicksort", "insertion_sort", "parallel_sample_sort", "parallel_sample_sort_params"};
template <class P> void algo(unsigned a, const P& p, size_t mem, unsigned which) {
  switch (a) {
    case 0: case 3: D::radixsort_CE3(p, 0, mem); break; case 1: D::radixsort_CE0(p, 0, mem); break; case 2: D::radixsort_CE2(p, 0, mem); break; case 4: D::radixsort_CI2(p, 0, mem); break; case 5: D::radixsort_CI3(p, 0, mem); break; case 6: D::multikey_quicksort(p, 0, mem); break;
    case 7: if (p.size() < 300) D::insertion_sort(p, 0, mem); else D::radixsort_CE2(p, 0, mem); break;
    case 8: D::parallel_sample_sort(p, 0, mem); break; case 9: which %= 3; if (which == 0) D::parallel_sample_sort_params<Small>(p, 0, mem); else if (which == 1) D::parallel_sample_sort_params<Small2>(p, 0, mem); else D::parallel_sample_sort_params<Small3>(p, 0, mem); break; }
}
template <class SS> void both(const SS& ss, const Case& c, vector<uint32_t>& lcp, bool with) { unsigned a = c.c(3) % 14; if (a > 9) a = 9; size_t mem = memlim(c, ss.size()); if (with) algo(a, D::StringLcpPtr<SS, uint32_t>(ss, lcp.data()), mem, (unsigned)c.c(5)); else algo(a, D::StringPtr<SS>(ss), mem, (unsigned)c.c(5)); }
const char* nm(const Case& c) { return kAlgo[std::min<unsigned>(9, c.c(3) % 14)]; }
void note(const Case& c, Obs& o, const vector<string>& in) { size_t dup = 0; for (size_t i = 1; i < in.size() && i < 200; ++i) dup += lcpof(in[i - 1], in[i]) > 0; o.nontrivial(in.size() >= 3 && dup); if (c.c(3) % 14 >= 9) o.mark("small_parallel_steps"); if (in.size() >= 65536) o.mark("more_than_65536_strings"); }
// C strings, each in an allocation of its own
struct Own { vector<std::unique_ptr<char[]>> mem; vector<char*> p; explicit Own(const vector<string>& in) { for (auto& s : in) { mem.emplace_back(new char[s.size() + 1]); memcpy(mem.back().get(), s.c_str(), s.size() + 1); p.push_back(mem.back().get()); } } };
template <class C> void same(vector<C*> now, const vector<char*>& was, const char* what) { vector<const void*> a(now.begin(), now.end()), b(was.begin(), was.end()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); PBT_CHECK(a == b, "%s: the pointers are not the given ones", what); }
template <class C, bool API> void rchar(const Case& c, Obs& o) {
  using U = std::conditional_t<std::is_const_v<C>, const unsigned char, unsigned char>; if (c.thr.empty()) return; auto in = make(c); Own w(in); size_t n = in.size(); bool with = c.c(2) & 1; vector<uint32_t> lcp(n, 77777); vector<C*> v(w.p.begin(), w.p.end()); vector<U*> u; for (auto x : v) u.push_back((U*)x); size_t mem = memlim(c, n); bool par = c.c(3) % 4 == 3, asu = c.c(2) & 2, vec = c.c(2) & 4; const char* what = API ? (par ? "sort_strings_parallel" : "sort_strings") : nm(c);
  if constexpr (API) {
    if (asu && vec) { if (par) { if (with) tlx::sort_strings_parallel_lcp(u, lcp.data(), mem); else tlx::sort_strings_parallel(u, mem); } else { if (with) tlx::sort_strings_lcp(u, lcp.data(), mem); else tlx::sort_strings(u, mem); } }
    else if (asu) { if (par) { if (with) tlx::sort_strings_parallel_lcp(u.data(), n, lcp.data(), mem); else tlx::sort_strings_parallel(u.data(), n, mem); } else { if (with) tlx::sort_strings_lcp(u.data(), n, lcp.data(), mem); else tlx::sort_strings(u.data(), n, mem); } }
    else if (vec) { if (par) { if (with) tlx::sort_strings_parallel_lcp(v, lcp.data(), mem); else tlx::sort_strings_parallel(v, mem); } else { if (with) tlx::sort_strings_lcp(v, lcp.data(), mem); else tlx::sort_strings(v, mem); } }
    else { if (par) { if (with) tlx::sort_strings_parallel_lcp(v.data(), n, lcp.data(), mem); else tlx::sort_strings_parallel(v.data(), n, mem); } else { if (with) tlx::sort_strings_lcp(v.data(), n, lcp.data(), mem); else tlx::sort_strings(v.data(), n, mem); } }
    if (!asu) { u.clear(); for (auto x : v) u.push_back((U*)x); }
  } else { using SS = std::conditional_t<std::is_const_v<C>, D::CUCharStringSet, D::UCharStringSet>; both(SS(u.data(), u.data() + n), c, lcp, with); }
  vector<string> out; for (auto x : u) out.push_back((const char*)x); verify(in, out, with ? &lcp : nullptr, what); same(u, w.p, what); note(c, o, in);
}
template <bool API> void rstd(const Case& c, Obs& o) {
  if (c.thr.empty()) return; auto in = make(c); auto v = in; size_t n = in.size(); bool with = c.c(2) & 1; vector<uint32_t> lcp(n, 77777); size_t mem = memlim(c, n); bool par = c.c(3) % 4 == 3, vec = c.c(2) & 4;
  if constexpr (API) { if (vec) { if (par) { if (with) tlx::sort_strings_parallel_lcp(v, lcp.data(), mem); else tlx::sort_strings_parallel(v, mem); } else { if (with) tlx::sort_strings_lcp(v, lcp.data(), mem); else tlx::sort_strings(v, mem); } } else { if (par) { if (with) tlx::sort_strings_parallel_lcp(v.data(), n, lcp.data(), mem); else tlx::sort_strings_parallel(v.data(), n, mem); } else { if (with) tlx::sort_strings_lcp(v.data(), n, lcp.data(), mem); else tlx::sort_strings(v.data(), n, mem); } } }
  else both(D::StdStringSet(v.data(), v.data() + n), c, lcp, with);
  verify(in, v, with ? &lcp : nullptr, API ? (par ? "sort_strings_parallel" : "sort_strings") : nm(c)); note(c, o, in);
}
void ruptr(const Case& c, Obs& o) {
  if (c.thr.empty()) return; auto in = make(c); vector<std::unique_ptr<string>> v; for (auto& s : in) v.emplace_back(new string(s)); bool with = c.c(2) & 1; vector<uint32_t> lcp(in.size(), 77777); both(D::UPtrStdStringSet(v.data(), v.data() + v.size()), c, lcp, with);
  vector<string> out; for (auto& p : v) { PBT_CHECK(p != nullptr, "%s: a string is lost", nm(c)); out.push_back(*p); } verify(in, out, with ? &lcp : nullptr, nm(c)); note(c, o, in);
}
void rsuf(const Case& c, Obs& o) {
  if (c.thr.empty()) return; string text; for (auto& s : make(c)) { if (text.size() > 3000) break; text += s; } size_t cap = c.c(2) & 8 ? 1200 : 200; if (text.size() > cap) text.resize(cap); if (c.c(2) & 16 && text.size() > 20) { if (text.size() > 300) text.resize(300); text.resize(text.size() / 2); text += text; }
  vector<size_t> sa; auto ss = D::StringSuffixSet::Initialize(text, sa); bool with = c.c(2) & 1; vector<uint32_t> lcp(text.size(), 77777); both(ss, c, lcp, with); vector<bool> seen(text.size()); PBT_CHECK(sa.size() == text.size(), "suffix count");
  for (size_t i = 0; i < sa.size(); ++i) { PBT_CHECK(sa[i] < text.size() && !seen[sa[i]], "%s: suffix %zu twice", nm(c), sa[i]); seen[sa[i]] = true; if (!i) continue; PBT_CHECK(text.compare(sa[i - 1], string::npos, text, sa[i], string::npos) < 0, "%s: suffixes %zu and %zu are out of order", nm(c), sa[i - 1], sa[i]); if (with) { size_t l = 0, a = sa[i - 1], b = sa[i]; while (a + l < text.size() && b + l < text.size() && text[a + l] == text[b + l]) ++l; PBT_CHECK(lcp[i] == l, "%s: common prefix of suffixes is %u, not %zu", nm(c), lcp[i], l); } }
  o.nontrivial(text.size() >= 3); if (c.c(3) % 14 >= 9) o.mark("small_parallel_steps");
}
#define R "random blocks of strings (few letters, shared prefixes, prefixes of each other, equal ones, high bytes) sorted by a random algorithm with or without a memory limit and common prefixes, against std::sort; non-trivial: three strings, some neighbours sharing a first character"
#if PART == 0
PBT_HARNESS(a1, {"uchar_strings", R, kOne, gen, (rchar<char, false>), 3});
#elif PART == 1
PBT_HARNESS(a2, {"const_strings", R, kOne, gen, (rchar<const char, false>), 1});
#elif PART == 2
PBT_HARNESS(a3, {"std_strings", R, kOne, gen, rstd<false>, 2});
#elif PART == 3
PBT_HARNESS(a4, {"pointer_strings", R, kOne, gen, ruptr, 1});
#elif PART == 4
PBT_HARNESS(a5, {"suffixes", "the suffixes of a random text sorted by a random algorithm, against direct comparison; non-trivial: three suffixes", kOne, gen, rsuf, 1});
#elif PART == 5
PBT_HARNESS(a6, {"interface_mutable", R, kOne, gen, (rchar<char, true>), 2});
#elif PART == 6
PBT_HARNESS(a7, {"interface_const", R, kOne, gen, (rchar<const char, true>), 1});
#else
PBT_HARNESS(a8, {"interface_std", R, kOne, gen, rstd<true>, 1});
#endif
}  // namespace
