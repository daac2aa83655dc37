// tlx merging: multiway merge (sequential, with sentinels, parallel), splitting, mergesort, sorting networks, small algorithms.
#include <algorithm>
#include <array>
#include <atomic>
#include <cstring>
#include <memory>
#include <numeric>
#include <random>
#include <string>
#include <tlx/algorithm/exclusive_scan.hpp>
#include <tlx/algorithm/is_sorted_cmp.hpp>
#include <tlx/algorithm/merge_advance.hpp>
#include <tlx/algorithm/merge_combine.hpp>
#include <tlx/algorithm/multisequence_partition.hpp>
#include <tlx/algorithm/multisequence_selection.hpp>
#include <tlx/algorithm/multiway_merge.hpp>
#include <tlx/algorithm/parallel_multiway_merge.hpp>
#include <tlx/algorithm/random_bipartition_shuffle.hpp>
#include <tlx/sort/networks/best.hpp>
#include <tlx/sort/networks/bose_nelson.hpp>
#include <tlx/sort/networks/bose_nelson_parameter.hpp>
#include <tlx/sort/parallel_mergesort.hpp>
#include "pbt.h"
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng; using std::string; using std::vector;
namespace {
// elements: equal keys are told apart by where they came from; the second kind owns memory and counts its instances
struct E { uint32_t key = 0, seq = 0, pos = 0; };
std::atomic<long> g_live{0};
struct S { std::unique_ptr<E> e; S() : e(new E) { ++g_live; } S(uint32_t k, uint32_t s, uint32_t p) : e(new E{k, s, p}) { ++g_live; } S(const S& o) : e(o.e ? new E(*o.e) : nullptr) { ++g_live; } S(S&& o) noexcept : e(std::move(o.e)) { ++g_live; } S& operator=(const S& o) { e.reset(o.e ? new E(*o.e) : nullptr); return *this; } S& operator=(S&& o) noexcept { e = std::move(o.e); return *this; } ~S() { --g_live; } };
struct B20 { E e; char pad[40]; B20(uint32_t k = 0, uint32_t s = 0, uint32_t p = 0) : e{k, s, p} { memset(pad, (int)k, sizeof pad); } };
const E& get(const E& x) { return x; } const E& get(const S& x) { return *x.e; } const E& get(const B20& x) { return x.e; }
template <class T> T make(uint32_t k, uint32_t s, uint32_t p) { return T{k, s, p}; }
bool g_desc = false;
template <class T> struct Less { bool desc = false; bool operator()(const T& a, const T& b) const { return desc ? get(b).key < get(a).key : get(a).key < get(b).key; } };
const vector<string> kSeq = {"seq"};
template <int MAXK> Case gmerge(Rng& r, int size) {
  Case c; c.cfg = {r.next(), r.next(), r.below(6), r.below(4), r.below(2), r.next()}; c.thr.resize(1); size_t k = r.chance(1, 2) ? r.below(6) : r.below(MAXK + 1); int style = (int)r.below(4);
  for (size_t i = 0; i < k; ++i) c.thr[0].push_back({0, style == 0 ? r.below(4) : style == 1 ? r.range(1, 5) : r.chance(1, 8) ? 0 : r.below(4 + size), r.next(), r.chance(1, 3) ? r.range(1, 3) : r.range(1, 60)}); return c;
}
template <class T> struct In { vector<vector<T>> v; vector<T> all; size_t total = 0; };   // all: the stable merge
template <class T> In<T> input(const Case& c, const Less<T>& cmp, bool nonempty) {
  In<T> in; uint32_t s = 0; for (auto& p : c.thr[0]) { Rng r(p.b); size_t n = p.a % 200; if (!n && nonempty) n = 1; vector<uint32_t> k; uint64_t off = r.chance(1, 3) ? r.below(40) : 0; for (size_t i = 0; i < n; ++i) k.push_back((uint32_t)(off + r.below(p.c ? p.c : 1))); std::sort(k.begin(), k.end()); if (cmp.desc) std::reverse(k.begin(), k.end()); vector<T> t; for (size_t i = 0; i < n; ++i) t.push_back(make<T>(k[i], s, (uint32_t)i)); in.v.push_back(std::move(t)); ++s; }
  for (auto& t : in.v) for (auto& x : t) in.all.push_back(x); in.total = in.all.size(); std::stable_sort(in.all.begin(), in.all.end(), cmp); return in;
}
size_t chooseSize(const Case& c, size_t total) { switch (c.c(2)) { case 0: case 1: case 2: return total; case 3: return total ? c.c(0) % (total + 1) : 0; case 4: return total - std::min<size_t>(total, c.c(0) % 3); default: return std::min<size_t>(total, c.c(0) % 4); } }
// what a merge of the first n elements must have written and consumed
template <class T, class Its> void judge(const In<T>& in, const vector<T>& out, size_t n, bool stable, const Less<T>& cmp, const Its& its, const char* what, bool consumed = true) {
  vector<size_t> took(in.v.size(), 0); for (size_t i = 0; i < n; ++i) { const E &g = get(out[i]), &w = get(in.all[i]); PBT_CHECK(g.key == w.key, "%s: element %zu of %zu has key %u, expected %u", what, i, n, g.key, w.key); if (stable) PBT_CHECK(g.seq == w.seq && g.pos == w.pos, "%s: element %zu (key %u) comes from sequence %u, the stable merge takes it from %u", what, i, g.key, g.seq, w.seq); PBT_CHECK(g.seq < in.v.size() && g.pos == took[g.seq]++, "%s: element %zu of sequence %u comes out of order, twice, or is none of the input", what, (size_t)g.pos, g.seq); }
  if (consumed) for (size_t s = 0; s < in.v.size(); ++s) PBT_CHECK((size_t)(its[s].first - in.v[s].begin()) == took[s], "%s: sequence %zu is advanced by %zd, %zu were taken", what, s, (ssize_t)(its[s].first - in.v[s].begin()), took[s]);
  (void)cmp;
}
template <class T> void rmerge(const Case& c, Obs& o) {
  if (c.thr.empty()) return; g_live = 0; { Less<T> cmp{(bool)(c.c(4) & 1)}; bool stable = c.c(1) & 1, sentinels = c.c(1) & 2; auto in = input<T>(c, cmp, false); size_t n = chooseSize(c, in.total); auto algo = (tlx::MultiwayMergeAlgorithm)(c.c(3) % tlx::MWMA_ALGORITHM_LAST); if (!sentinels && algo == tlx::MWMA_LOSER_TREE_SENTINEL && (c.c(1) & 4)) algo = tlx::MWMA_LOSER_TREE;
    size_t k = in.v.size(); if (sentinels) for (auto& t : in.v) t.push_back(make<T>(cmp.desc ? 0 : 1000, 999, 999)); if (sentinels && cmp.desc) { for (auto& t : in.v) for (size_t i = 0; i + 1 < t.size(); ++i) t[i] = make<T>(get(t[i]).key + 1, get(t[i]).seq, get(t[i]).pos); for (auto& x : in.all) x = make<T>(get(x).key + 1, get(x).seq, get(x).pos); }
    using It = typename vector<T>::iterator; vector<std::pair<It, It>> its; for (auto& t : in.v) its.emplace_back(t.begin(), t.end() - (sentinels ? 1 : 0)); vector<T> out; out.resize(n); typename vector<T>::iterator e;
    if (sentinels) e = stable ? tlx::stable_multiway_merge_sentinels(its.begin(), its.end(), out.begin(), n, cmp, algo) : tlx::multiway_merge_sentinels(its.begin(), its.end(), out.begin(), n, cmp, algo);
    else e = stable ? tlx::stable_multiway_merge(its.begin(), its.end(), out.begin(), n, cmp, algo) : tlx::multiway_merge(its.begin(), its.end(), out.begin(), n, cmp, algo);
    PBT_CHECK(e == out.end(), "the end returned is %zd elements from the last one written", (ssize_t)(out.end() - e)); judge(in, out, n, stable, cmp, its, "merge"); for (size_t s = 0; s < k; ++s) PBT_CHECK(its[s].second == in.v[s].end() - (sentinels ? 1 : 0), "the end of sequence %zu is changed", s);
    o.mark(algo == tlx::MWMA_BUBBLE ? "bubble" : algo == tlx::MWMA_LOSER_TREE_COMBINED ? "combined" : algo == tlx::MWMA_LOSER_TREE ? "losertree" : "sentinel"); o.nontrivial(k >= 2 && n >= 3); }
  PBT_CHECK(g_live == 0, "%ld elements are never destroyed", g_live.load());
}
template <class T> void rpmerge(const Case& c, Obs& o) {
  if (c.thr.empty()) return; g_live = 0; { Less<T> cmp{(bool)(c.c(4) & 1)}; bool stable = c.c(1) & 1, sentinels = c.c(1) & 2; auto in = input<T>(c, cmp, false); size_t n = chooseSize(c, in.total), threads = 1 + (c.c(5) % 5); auto algo = (tlx::MultiwayMergeAlgorithm)(c.c(3) % tlx::MWMA_ALGORITHM_LAST); auto split = (c.c(1) & 8) ? tlx::MWMSA_SAMPLING : tlx::MWMSA_EXACT;
    if (sentinels) for (auto& t : in.v) { if (cmp.desc) for (auto& x : t) x = make<T>(get(x).key + 1, get(x).seq, get(x).pos); t.push_back(make<T>(cmp.desc ? 0 : 1000, 999, 999)); } if (sentinels && cmp.desc) for (auto& x : in.all) x = make<T>(get(x).key + 1, get(x).seq, get(x).pos);
    using It = typename vector<T>::iterator; vector<std::pair<It, It>> its; for (auto& t : in.v) its.emplace_back(t.begin(), t.end() - (sentinels ? 1 : 0)); vector<T> out; out.resize(n); typename vector<T>::iterator e;
    bool seq = c.c(1) & 16; tlx::parallel_multiway_merge_force_parallel = !seq; tlx::parallel_multiway_merge_force_sequential = seq && (c.c(1) & 32); tlx::parallel_multiway_merge_minimal_k = c.c(1) & 64 ? 2 : 5; tlx::parallel_multiway_merge_minimal_n = c.c(1) & 128 ? 10 : 1000; tlx::parallel_multiway_merge_oversampling = 1 + (c.c(1) >> 8) % 12;
    if (sentinels) e = stable ? tlx::stable_parallel_multiway_merge_sentinels(its.begin(), its.end(), out.begin(), n, cmp, algo, split, threads) : tlx::parallel_multiway_merge_sentinels(its.begin(), its.end(), out.begin(), n, cmp, algo, split, threads);
    else e = stable ? tlx::stable_parallel_multiway_merge(its.begin(), its.end(), out.begin(), n, cmp, algo, split, threads) : tlx::parallel_multiway_merge(its.begin(), its.end(), out.begin(), n, cmp, algo, split, threads);
    PBT_CHECK(e == out.end(), "the end returned is %zd elements from the last one written", (ssize_t)(out.end() - e)); judge(in, out, n, stable, cmp, its, "parallel merge"); o.mark(split == tlx::MWMSA_SAMPLING ? "sampling" : "exact"); o.nontrivial(in.v.size() >= 2 && n >= 4 && threads > 1 && !seq); }
  PBT_CHECK(g_live == 0, "%ld elements are never destroyed", g_live.load());
}
// ---- partition, selection, merge_advance
template <class T> void rsplit(const Case& c, Obs& o) {
  if (c.thr.empty() || c.thr[0].empty()) return; Less<T> cmp{(bool)(c.c(4) & 1)}; auto in = input<T>(c, cmp, true); size_t k = in.v.size(); using It = typename vector<T>::iterator; vector<std::pair<It, It>> its; for (auto& t : in.v) its.emplace_back(t.begin(), t.end());
  Rng r(c.c(0)); for (int q = 0; q < 8; ++q) {
    ptrdiff_t rank = q == 0 ? 0 : q == 1 ? (ptrdiff_t)in.total : q == 2 ? (ptrdiff_t)in.total - 1 : (ptrdiff_t)r.below(in.total + 1); vector<It> off(k); tlx::multisequence_partition(its.begin(), its.end(), rank, off.begin(), cmp); vector<size_t> want(k, 0); for (ptrdiff_t i = 0; i < rank; ++i) ++want[get(in.all[i]).seq];
    size_t sum = 0; for (size_t s = 0; s < k; ++s) { size_t g = (size_t)(off[s] - its[s].first); sum += g; PBT_CHECK(g == want[s], "partition of %zu at rank %zd: %zu of sequence %zu go left, expected %zu", in.total, (ssize_t)rank, g, s, want[s]); } PBT_CHECK((ptrdiff_t)sum == rank, "rank");
    if (rank < (ptrdiff_t)in.total) { ptrdiff_t offset = -7; T v = tlx::multisequence_selection<T>(its.begin(), its.end(), rank, offset, cmp); PBT_CHECK(get(v).key == get(in.all[rank]).key, "selection at rank %zd of %zu gives key %u, expected %u", (ssize_t)rank, in.total, get(v).key, get(in.all[rank]).key); ptrdiff_t w = 0; while (w < rank && get(in.all[rank - 1 - w]).key == get(v).key) ++w; PBT_CHECK(offset == w, "selection at rank %zd: offset %zd among the equal elements, expected %zd", (ssize_t)rank, (ssize_t)offset, (ssize_t)w); }
  }
  if (k >= 2) { size_t n0 = in.v[0].size(), n1 = in.v[1].size(); In<T> two; two.v = {in.v[0], in.v[1]}; for (auto& t : two.v) for (auto& x : t) two.all.push_back(x); std::stable_sort(two.all.begin(), two.all.end(), cmp); for (int how = 0; how < 3; ++how) { size_t n = how == 2 ? n0 + n1 : r.below(n0 + n1 + 1); vector<T> out(n); std::pair<It, It> p[2] = {{two.v[0].begin(), two.v[0].end()}, {two.v[1].begin(), two.v[1].end()}}; It e = how == 0 ? tlx::merge_advance_usual(p[0].first, p[0].second, p[1].first, p[1].second, out.begin(), (ptrdiff_t)n, cmp) : how == 1 ? tlx::merge_advance_movc(p[0].first, p[0].second, p[1].first, p[1].second, out.begin(), (ptrdiff_t)n, cmp) : tlx::merge_advance(p[0].first, p[0].second, p[1].first, p[1].second, out.begin(), (ptrdiff_t)n, cmp); PBT_CHECK(e == out.end(), "merge_advance returns another end"); judge(two, out, n, true, cmp, p, "merge_advance"); } }
  o.nontrivial(k >= 2 && in.total >= 4);
}
// ---- mergesort
template <class T> Case gsort(Rng& r, int size) { Case c; c.cfg = {r.below(3 + size * 4), r.next(), r.range(1, 9), r.next(), r.range(1, r.chance(1, 2) ? 4 : 300)}; c.thr.resize(1); c.thr[0].push_back({0, 0, 0, 0}); return c; }
template <class T> void rmsort(const Case& c, Obs& o) {
  g_live = 0; { size_t n = c.c(0) % 5000; Rng r(c.c(1)); Less<T> cmp{(bool)(c.c(3) & 1)}; bool stable = c.c(3) & 2; vector<T> v; int shape = (int)(c.c(3) >> 8) % 4; for (size_t i = 0; i < n; ++i) v.push_back(make<T>(shape == 0 ? (uint32_t)(i * 3 / (c.c(4) ? c.c(4) : 1)) : shape == 1 ? (uint32_t)(n - i) : (uint32_t)r.below(c.c(4) ? c.c(4) : 1), 0, (uint32_t)i)); vector<T> w = v; std::stable_sort(w.begin(), w.end(), cmp);
    auto split = (c.c(3) & 4) ? tlx::MWMSA_SAMPLING : tlx::MWMSA_EXACT; tlx::parallel_multiway_merge_oversampling = 1 + (c.c(3) >> 16) % 12; size_t threads = std::max<size_t>(1, c.c(2)); vector<T> v0 = v; if (stable) tlx::stable_parallel_mergesort(v.begin(), v.end(), cmp, threads, split); else tlx::parallel_mergesort(v.begin(), v.end(), cmp, threads, split);
    vector<bool> seen(n); for (size_t i = 0; i < n; ++i) { PBT_CHECK(get(v[i]).key == get(w[i]).key, "element %zu of %zu has key %u, expected %u", i, n, get(v[i]).key, get(w[i]).key); PBT_CHECK(get(v[i]).pos < n && !seen[get(v[i]).pos] && get(v0[get(v[i]).pos]).key == get(v[i]).key, "element %zu is there twice or not from the input", i); seen[get(v[i]).pos] = true; if (stable) PBT_CHECK(get(v[i]).pos == get(w[i]).pos, "equal elements change their order at %zu", i); } o.mark(split == tlx::MWMSA_SAMPLING ? "sampling" : "exact"); o.nontrivial(n >= 8 && threads > 1); }
  PBT_CHECK(g_live == 0, "%ld elements are never destroyed", g_live.load());
}
// ---- sorting networks: blocks of 0-1 inputs, and random inputs
Case gnet(Rng& r, int) { Case c; c.cfg = {r.below(17), r.next(), r.below(3)}; c.thr.resize(1); c.thr[0].push_back({0, 0, 0, 0}); return c; }
void rnet(const Case& c, Obs& o) {
  namespace N = tlx::sort_networks; size_t n = c.c(0) % 17; Rng r(c.c(1)); auto one = [&](vector<uint32_t> v, bool desc) { vector<uint32_t> w = v, in = v; std::sort(w.begin(), w.end()); if (desc) std::reverse(w.begin(), w.end()); auto run = [&](auto cmp) { switch (c.c(2) % 3) { case 0: N::best::sort(v.begin(), v.end(), cmp); break; case 1: N::bose_nelson::sort(v.begin(), v.end(), cmp); break; default: N::bose_nelson_parameter::sort(v.begin(), v.end(), cmp); } }; if (desc) run(std::greater<uint32_t>()); else run(std::less<uint32_t>()); if (v != w) { string s; for (auto x : in) s += std::to_string(x) + " "; pbt::fail("a network for %zu elements does not sort %s", n, s.c_str()); } };
  uint64_t base = (r.next() & ((1ull << n) - 1)) & ~63ull; for (uint64_t m = base; m < base + 64 && m < (1ull << n); ++m) { vector<uint32_t> v; for (size_t i = 0; i < n; ++i) v.push_back(m >> i & 1); one(v, false); } for (int q = 0; q < 4; ++q) { vector<uint32_t> v; for (size_t i = 0; i < n; ++i) v.push_back((uint32_t)r.below(q < 2 ? 5 : 1000)); one(v, q & 1); } o.nontrivial(n >= 3);
}
// ---- scan, combine, sortedness, shuffle
Case gsm(Rng& r, int size) { Case c; c.cfg = {r.below(4 + size / 2), r.below(4 + size / 2), r.next(), r.below(4)}; c.thr.resize(1); c.thr[0].push_back({0, 0, 0, 0}); return c; }
void rsmall(const Case& c, Obs& o) {
  Rng r(c.c(2)); size_t n = c.c(0) % 300, m = c.c(1) % 300; vector<int64_t> a, b; uint64_t span = r.range(1, 40); for (size_t i = 0; i < n; ++i) a.push_back((int64_t)r.below(span) - 5); for (size_t i = 0; i < m; ++i) b.push_back((int64_t)r.below(span) - 5);
  { vector<int64_t> out(n + 1, -99); tlx::exclusive_scan(a.begin(), a.end(), out.begin(), int64_t(7)); int64_t s = 7; for (size_t i = 0; i < n; ++i) { PBT_CHECK(out[i] == s, "exclusive_scan: sum %zu", i); s += a[i]; } vector<int64_t> mx(n + 1, -99); tlx::exclusive_scan(a.begin(), a.end(), mx.begin(), int64_t(-100), [](int64_t x, int64_t y) { return std::max(x, y); }); s = -100; for (size_t i = 0; i < n; ++i) { PBT_CHECK(mx[i] == s, "exclusive_scan with max, %zu", i); s = std::max(s, a[i]); } }
  auto cmp = [](int64_t x, int64_t y) { return x < y ? -1 : x > y ? 1 : 0; }; { auto v = a; if (r.chance(1, 2)) std::sort(v.begin(), v.end()); if (v.size() > 2 && r.chance(1, 3)) std::swap(v[r.below(v.size())], v[r.below(v.size())]); PBT_CHECK(tlx::is_sorted_cmp(v.begin(), v.end(), cmp) == std::is_sorted(v.begin(), v.end()), "is_sorted_cmp"); PBT_CHECK(tlx::is_sorted_until_cmp(v.begin(), v.end(), cmp) == std::is_sorted_until(v.begin(), v.end()), "is_sorted_until_cmp"); }
  { struct P { int64_t k, v; }; vector<P> x, y; auto fill = [&](vector<P>& t, vector<int64_t> k) { std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end()); for (auto q : k) t.push_back({q, (int64_t)r.below(1000)}); }; fill(x, a); fill(y, b); vector<P> out(x.size() + y.size()), w; size_t i = 0, j = 0; while (i < x.size() || j < y.size()) { if (j == y.size() || (i < x.size() && x[i].k < y[j].k)) w.push_back(x[i++]); else if (i == x.size() || y[j].k < x[i].k) w.push_back(y[j++]); else { w.push_back({x[i].k, x[i].v * 1000 + y[j].v}); ++i, ++j; } }
    auto e = tlx::merge_combine(x.begin(), x.end(), y.begin(), y.end(), out.begin(), [](const P& p, const P& q) { return p.k < q.k ? -1 : p.k > q.k ? 1 : 0; }, [](const P& p, const P& q) { return P{p.k, p.v * 1000 + q.v}; }); PBT_CHECK((size_t)(e - out.begin()) == w.size(), "merge_combine gives %zd elements, expected %zu", (ssize_t)(e - out.begin()), w.size()); for (size_t q = 0; q < w.size(); ++q) PBT_CHECK(out[q].k == w[q].k && out[q].v == w[q].v, "merge_combine, element %zu", q); }
  { size_t left = r.below(n + 1); vector<size_t> v(n); std::iota(v.begin(), v.end(), 0); std::mt19937_64 g(r.next()); tlx::random_bipartition_shuffle(v.begin(), v.end(), left, g); auto s = v; std::sort(s.begin(), s.end()); for (size_t i = 0; i < n; ++i) PBT_CHECK(s[i] == i, "random_bipartition_shuffle: %zu is lost", i); }
  if (c.c(3) == 0 && n >= 2) { // every element goes left equally often: 6 standard deviations
    size_t k = 2 + n % 7, left = 1 + m % (k - 1); vector<size_t> cnt(k); const size_t T = 4000; std::mt19937_64 g(r.next()); for (size_t t = 0; t < T; ++t) { vector<size_t> v(k); std::iota(v.begin(), v.end(), 0); tlx::random_bipartition_shuffle(v.begin(), v.end(), left, g); for (size_t i = 0; i < left; ++i) ++cnt[v[i]]; } double p = double(left) / k, sd = std::sqrt(T * p * (1 - p)); for (size_t i = 0; i < k; ++i) PBT_CHECK(std::abs(cnt[i] - T * p) < 6 * sd, "random_bipartition_shuffle puts element %zu of %zu left %zu times in %zu, expected about %.0f", i, k, cnt[i], T, T * p); }
  o.nontrivial(n >= 3 && m >= 2);
}
#define RM "random sorted sequences (many ties, some empty) merged up to a random size with a random algorithm, against a stable sort with every element's origin; non-trivial: two sequences, three elements"
#define RQ "random sorted sequences merged or split by several threads, against a stable sort with every element's origin; non-trivial: two sequences, four elements, two threads"
#define RT "random arrays sorted by several threads, against a stable sort; non-trivial: eight elements, two threads"
#define RN "a random block of 64 of the 0-1 inputs of a sorting network for up to sixteen elements plus random inputs (0-1 principle); non-trivial: three elements"
PBT_HARNESS(m1, {"merge_small", RM, kSeq, gmerge<20>, rmerge<E>, 6});
PBT_HARNESS(m2, {"merge_large", RM, kSeq, gmerge<12>, rmerge<B20>, 3});
PBT_HARNESS(m3, {"merge_owning", RM, kSeq, gmerge<12>, rmerge<S>, 2});
PBT_HARNESS(p1, {"parallel_merge", RQ, kSeq, gmerge<12>, rpmerge<E>, 2});
PBT_HARNESS(p2, {"parallel_merge_owning", RQ, kSeq, gmerge<12>, rpmerge<S>, 1});
PBT_HARNESS(x1, {"split", RQ, kSeq, gmerge<10>, rsplit<E>, 3});
PBT_HARNESS(s1, {"mergesort", RT, kSeq, gsort<E>, rmsort<E>, 2});
PBT_HARNESS(s2, {"mergesort_owning", RT, kSeq, gsort<S>, rmsort<S>, 1});
PBT_HARNESS(n1, {"networks", RN, kSeq, gnet, rnet, 3});
PBT_HARNESS(a1, {"small_algorithms", "random sequences through exclusive_scan, is_sorted_cmp, merge_combine and random_bipartition_shuffle, against direct definitions; non-trivial: three and two elements", kSeq, gsm, rsmall, 1});
}  // namespace
