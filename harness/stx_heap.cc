// tlx priority queues: d-ary heaps (plain and addressable), the monotone radix heap with its bit array, and loser trees.
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <tlx/container/d_ary_addressable_int_heap.hpp>
#include <tlx/container/d_ary_heap.hpp>
#include <tlx/container/loser_tree.hpp>
#include <tlx/container/radix_heap.hpp>
#include "pbt.h"
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng; using std::string; using std::vector;
namespace {
Case gops(Rng& r, int size, unsigned kinds) {
  Case c; c.cfg = {r.below(6), r.next(), r.below(8)}; c.thr.resize(1); size_t n = r.range(1, 20 + size * 3); int phase = 0; size_t left = 0;
  for (size_t i = 0; i < n; ++i) { if (!left) { phase = (int)r.below(3); left = r.range(3, 60); } --left; uint32_t k = phase == 0 && r.chance(2, 3) ? 0 : phase == 1 && r.chance(2, 3) ? 1 : (uint32_t)r.below(kinds); c.thr[0].push_back({k, r.below(64) < 40 ? r.below(40) : r.next(), r.next(), r.below(1000)}); }
  return c;
}
// ---- plain heap
const vector<string> kHeap = {"push", "pop", "extract_top", "build_heap", "clear", "copy", "update_all", "drain", "reserve"};
struct ByPrio { const vector<uint32_t>* p = nullptr; bool operator()(uint32_t a, uint32_t b) const { return (*p)[a] < (*p)[b]; } };
template <class K> K mk(uint64_t x) { if constexpr (std::is_same_v<K, string>) return string(x % 23, (char)('a' + x % 3)) + std::to_string(x % 97); else return (K)x; }
template <class K, unsigned A, class Cmp> void rheap(const Case& c, Obs& o) {
  if (c.thr.empty()) return; vector<uint32_t> prio(64); Cmp cmp{}; const bool ext = std::is_same_v<Cmp, ByPrio>; if constexpr (std::is_same_v<Cmp, ByPrio>) { cmp.p = &prio; Rng q(c.c(1)); for (auto& x : prio) x = (uint32_t)q.below(30); }
  tlx::DAryHeap<K, A, Cmp> h(cmp); vector<K> m; size_t most = 0, pops = 0;
  auto key = [&](uint64_t x) { return ext ? mk<K>(x % 64) : mk<K>(x); };
  auto best = [&]() { size_t b = 0; for (size_t i = 1; i < m.size(); ++i) if (cmp(m[i], m[b])) b = i; return b; };
  auto took = [&](const K& t) { size_t b = best(); PBT_CHECK(!cmp(m[b], t), "the top is not a smallest key"); auto it = std::find(m.begin(), m.end(), t); PBT_CHECK(it != m.end(), "the top is no stored key"); m.erase(it); ++pops; };
  auto drain = [&](tlx::DAryHeap<K, A, Cmp> g) { vector<K> out; while (!g.empty()) { PBT_CHECK(out.size() <= m.size(), "more keys come out than went in"); out.push_back(g.extract_top()); if (out.size() > 1) PBT_CHECK(!cmp(out.back(), out[out.size() - 2]), "keys come out in the wrong order"); } vector<K> a = m; std::sort(a.begin(), a.end()); std::sort(out.begin(), out.end()); PBT_CHECK(a == out, "%zu keys went in, others (%zu) come out", a.size(), out.size()); };
  for (auto& p : c.thr[0]) {
    switch (p.k % kHeap.size()) {
      case 0: { K k = key(p.a); m.push_back(k); if (p.c & 1) h.push(k); else h.push(std::move(k)); break; }
      case 1: if (m.size()) { K t = h.top(); h.pop(); took(t); } break;
      case 2: if (m.size()) took(h.extract_top()); break;
      case 3: { Rng r(p.b); vector<K> v; size_t n = r.below(50); for (size_t i = 0; i < n; ++i) v.push_back(key(r.below(80))); m = v; if (p.c % 3 == 0) h.build_heap(v.begin(), v.end()); else if (p.c % 3 == 1) { const auto& w = v; h.build_heap(w); } else h.build_heap(std::move(v)); break; }
      case 4: if (p.c < 300) { h.clear(); m.clear(); } break;
      case 5: { auto g = h; drain(g); h = g; auto q = std::move(g); h = std::move(q); break; }
      case 6: if (ext) { Rng r(p.b); size_t n = r.below(64); for (size_t i = 0; i < n; ++i) prio[r.below(64)] = (uint32_t)r.below(30); } h.update_all(); break;
      case 7: drain(h); break;
      default: h.reserve(m.size() + p.c); PBT_CHECK(h.capacity() >= m.size() + p.c, "reserve");
    }
    PBT_CHECK(h.size() == m.size() && h.empty() == m.empty(), "size %zu, expected %zu", h.size(), m.size()); most = std::max(most, m.size());
    if (m.size()) PBT_CHECK(!cmp(m[best()], h.top()) && std::find(m.begin(), m.end(), h.top()) != m.end(), "after %s: the top is not a smallest stored key", kHeap[p.k % kHeap.size()].c_str());
    PBT_CHECK(h.sanity_check(), "sanity_check fails");
  }
  drain(h); o.mark("pops", pops); o.nontrivial(most >= 4 && pops);
}
// ---- addressable heap of distinct unsigned integers, ordered by a priority that changes
const vector<string> kInt = {"push", "pop", "extract_top", "remove", "update", "update_all", "build_heap", "clear", "copy", "drain", "reserve"};
template <class P> struct ByP { const P* p; bool operator()(uint64_t a, uint64_t b) const { return (*p)[a] < (*p)[b]; } };
template <class K, unsigned A> void rint(const Case& c, Obs& o) {
  if (c.thr.empty()) return; const uint64_t U = sizeof(K) == 1 && c.c(0) == 0 ? 255 : 60; vector<uint32_t> prio(256); Rng q(c.c(1)); uint64_t span = c.c(2) ? 20 : 3; for (auto& x : prio) x = (uint32_t)q.below(span);
  using H = tlx::DAryAddressableIntHeap<K, A, ByP<vector<uint32_t>>>; H h(ByP<vector<uint32_t>>{&prio}); std::set<uint64_t> m; size_t most = 0, pops = 0;
  auto chk = [&](H& h, const char* what) { PBT_CHECK(h.size() == m.size() && h.empty() == m.empty(), "%s: size %zu, expected %zu", what, h.size(), m.size()); for (uint64_t k = 0; k < U + (sizeof(K) > 1); ++k) PBT_CHECK(h.contains((K)k) == (m.count(k) != 0), "%s: contains(%llu) is %d", what, (unsigned long long)k, h.contains((K)k));
    if (m.size()) { uint32_t best = ~0u; for (uint64_t k : m) best = std::min(best, prio[k]); PBT_CHECK(m.count(h.top()) && prio[h.top()] == best, "%s: the top %llu (priority %u) is not a smallest key (priority %u)", what, (unsigned long long)h.top(), prio[h.top()], best); } PBT_CHECK(h.sanity_check(), "%s: sanity_check fails", what); };
  auto drain = [&](H g) { std::set<uint64_t> s; uint32_t last = 0; while (!g.empty()) { K t = g.extract_top(); PBT_CHECK(prio[t] >= last && s.insert(t).second && m.count(t), "draining gives %llu out of order, twice, or from nowhere", (unsigned long long)t); last = prio[t]; PBT_CHECK(!g.contains(t), "extracted and still contained"); } PBT_CHECK(s == m, "draining gives %zu of %zu keys", s.size(), m.size()); };
  for (auto& p : c.thr[0]) {
    uint64_t k = p.a % U; uint32_t kind = p.k % kInt.size();
    switch (kind) {
      case 0: if (!m.count(k)) { K x = (K)k; if (p.c & 1) h.push(x); else h.push(std::move(x)); m.insert(k); } break;
      case 1: if (m.size()) { m.erase(h.top()); h.pop(); ++pops; } break;
      case 2: if (m.size()) { K t = h.extract_top(); PBT_CHECK(m.erase(t), "extract_top gives %llu, which is not stored", (unsigned long long)t); ++pops; } break;
      case 3: if (m.size()) { auto it = m.lower_bound(k); if (it == m.end()) it = m.begin(); uint64_t x = *it; m.erase(it); h.remove((K)x); ++pops; } break;
      case 4: { if (m.count(k)) prio[k] = (uint32_t)(p.b % span); h.update((K)k); m.insert(k); break; }
      case 5: { Rng r(p.b); size_t n = r.below(40); for (size_t i = 0; i < n; ++i) prio[r.below(U)] = (uint32_t)r.below(span); h.update_all(); break; }
      case 6: { Rng r(p.b); std::set<uint64_t> s; size_t n = r.below(30); while (s.size() < n) s.insert(r.below(U)); vector<K> v; for (uint64_t x : s) v.push_back((K)x); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); m = s; if (p.c % 3 == 0) h.build_heap(v.begin(), v.end()); else if (p.c % 3 == 1) { const auto& w = v; h.build_heap(w); } else h.build_heap(std::move(v)); break; }
      case 7: if (p.c < 300) { h.clear(); m.clear(); } break;
      case 8: { H g = h; chk(g, "copy"); drain(g); h = g; H q = std::move(g); h = std::move(q); break; } case 9: drain(h); break; default: h.reserve(p.c % 100);
    }
    chk(h, kInt[kind].c_str()); most = std::max(most, m.size());
  }
  drain(h); o.mark("pops", pops); o.nontrivial(most >= 4 && pops);
}
// ---- radix heap
const vector<string> kRad = {"push", "pop", "top", "emplace", "emplace_keyfirst", "swap_top_bucket", "clear", "peak", "copy"};
template <class K, unsigned R> void rrad(const Case& c, Obs& o) {
  if (c.thr.empty()) return; using H = tlx::RadixHeapPair<K, uint32_t, R>; H h; std::multimap<K, uint32_t> m; using L = std::numeric_limits<K>; K front = L::min(); uint32_t id = 0; size_t most = 0, pops = 0, big = 0;
  auto key = [&](const Op& p) -> K { using U = std::make_unsigned_t<K>; U room = (U)((U)L::max() - (U)front), d; Rng r(p.b); switch (r.below(6)) { case 0: d = 0; break; case 1: d = (U)r.below(4); break; case 2: d = (U)r.below(R + 2); break; case 3: d = (U)(r.next() >> r.below(64)); break; case 4: d = (U)(room - (U)r.below(3)); break; default: d = (U)(1ull << r.below(sizeof(K) * 8)); d += (U)(r.below(3) - 1); } if (d > room) d = r.chance(1, 2) ? room : (U)(d % (room == (U)~(U)0 ? room : (U)(room + 1))); return (K)(U)((U)front + d); };
  auto topok = [&](const std::pair<K, uint32_t>& t) { PBT_CHECK(t.first == m.begin()->first, "the top has key %lld, the smallest is %lld", (long long)t.first, (long long)m.begin()->first); auto e = m.equal_range(t.first); for (auto it = e.first; it != e.second; ++it) if (it->second == t.second) return it; pbt::fail("the top's datum %u does not belong to its key", t.second); };
  for (auto& p : c.thr[0]) {
    uint32_t kind = p.k % kRad.size(); PBT_CHECK(h.size() == m.size() && h.empty() == m.empty(), "size %zu, expected %zu", h.size(), m.size()); if (m.size()) PBT_CHECK(h.peak_top_key() == m.begin()->first, "peak_top_key %lld, the smallest key is %lld", (long long)h.peak_top_key(), (long long)m.begin()->first);
    switch (kind) {
      case 0: { K k = key(p); std::pair<K, uint32_t> v(k, id); size_t b = h.get_bucket(v), b2 = h.get_bucket_key(k); if (p.c & 1) { size_t g = h.push(v); PBT_CHECK(g == b, "push into another bucket than get_bucket says"); } else h.push_to_bucket(b, v); PBT_CHECK(b == b2, "get_bucket and get_bucket_key differ"); m.emplace(k, id++); big += k != front; break; }
      case 3: { K k = key(p); if (p.c & 1) h.emplace(k, k, id); else h.emplace_in_bucket(h.get_bucket_key(k), k, id); m.emplace(k, id++); break; } case 4: { K k = key(p); h.emplace_keyfirst(k, id); m.emplace(k, id++); break; }
      case 1: if (m.size()) { if (m.count(m.begin()->first) == 1 && p.c & 1) { front = m.begin()->first; h.pop(); m.erase(m.begin()); } else { auto t = h.top(); auto it = topok(t); front = t.first; h.pop(); m.erase(it); } ++pops; } break;
      case 2: if (m.size()) { auto t = h.top(); topok(t); front = t.first; } break;
      case 5: if (m.size()) { typename H::bucket_data_type b; K k = m.begin()->first; h.swap_top_bucket(b); PBT_CHECK(!b.empty(), "swap_top_bucket gives nothing"); for (auto& x : b) { auto it = topok(x); PBT_CHECK(x.first == k, "the top bucket holds several keys"); if (m.count(k) == 1 && &x != &b.back()) pbt::fail("the top bucket holds more than was stored"); m.erase(it); } front = k; ++pops; } break;
      case 6: if (p.c < 200) { h.clear(); m.clear(); front = L::min(); } break;
      case 8: { H g(h); auto mm = m; while (!g.empty()) { auto t = g.top(); PBT_CHECK(mm.size() && t.first == mm.begin()->first, "a copy gives key %lld", (long long)t.first); mm.erase(mm.begin()); g.pop(); } PBT_CHECK(mm.empty(), "a copy misses %zu elements", mm.size()); break; }
      default: break;
    }
    most = std::max(most, m.size());
  }
  while (m.size()) { auto t = h.top(); m.erase(topok(t)); h.pop(); } PBT_CHECK(h.empty(), "not empty at the end"); o.mark("pops", pops); o.nontrivial(most >= 4 && pops && big);
}
// ---- bit array
const vector<string> kBit = {"set_bit", "clear_bit", "clear_all", "copy"};
template <size_t N> void rbit(const Case& c, Obs& o) {
  if (c.thr.empty()) return; tlx::radix_heap_detail::BitArray<N> b; b.clear_all(); std::set<size_t> m; size_t most = 0;
  for (auto& p : c.thr[0]) { size_t i = (p.a < 40 ? (p.b & 1 ? p.a : N - 1 - p.a % N) : p.a) % N; switch (p.k % 4) { case 0: b.set_bit(i); m.insert(i); break; case 1: if (p.c & 1 && m.size()) i = *m.begin(); b.clear_bit(i); m.erase(i); break; case 2: if (p.c < 100) { b.clear_all(); m.clear(); } break; default: { auto d = b; b = d; } } PBT_CHECK(b.empty() == m.empty(), "empty() of %zu bits", m.size()); if (m.size()) PBT_CHECK(b.find_lsb() == *m.begin(), "find_lsb %zu, expected %zu", b.find_lsb(), *m.begin()); PBT_CHECK(b.is_set(i) == (m.count(i) != 0), "is_set(%zu)", i); most = std::max(most, m.size()); }
  for (size_t i = 0; i < N; ++i) PBT_CHECK(b.is_set(i) == (m.count(i) != 0), "is_set(%zu) at the end", i); o.nontrivial(most >= 2 || (N < 3 && most));
}
// ---- loser trees: k sequences merged
const vector<string> kSeq = {"sequence"};
Case gseq(Rng& r, int size) { Case c; c.cfg = {r.chance(1, 4) ? r.below(4) + 2 : r.below(1000) + 2, r.below(2)}; c.thr.resize(1); size_t k = r.chance(1, 8) ? r.range(1, 70) : r.range(1, 12); for (size_t i = 0; i < k; ++i) c.thr[0].push_back({0, r.chance(1, 6) ? 0 : r.below(3 + size / 2), r.next(), 0}); return c; }
template <class T> struct Elem { T key; uint32_t seq, idx; bool operator==(const Elem& o) const { return key == o.key && seq == o.seq && idx == o.idx; } };
struct Lt { template <class E> bool operator()(const E& a, const E& b) const { return a.key < b.key; } };
template <template <bool, class, class> class Tree, bool Stable, class T, bool Unguarded> void rlt(const Case& c, Obs& o) {
  if (c.thr.empty() || c.thr[0].empty()) return; using E = Elem<T>; vector<vector<E>> s; uint64_t span = c.c(0, 5); size_t total = 0; auto key = [&](uint64_t x) { if constexpr (std::is_same_v<T, string>) { char b[16]; snprintf(b, sizeof b, "%06u", (unsigned)x); return string(b) + "................................"; } else return (T)x; };
  for (auto& p : c.thr[0]) { Rng r(p.b); vector<uint64_t> v; for (uint64_t i = 0; i < p.a % 400; ++i) v.push_back(r.below(span)); std::sort(v.begin(), v.end()); s.emplace_back(); for (uint64_t x : v) s.back().push_back({key(x), (uint32_t)s.size() - 1, (uint32_t)s.back().size()}); total += v.size(); }
  vector<E> want; for (auto& v : s) want.insert(want.end(), v.begin(), v.end()); std::stable_sort(want.begin(), want.end(), Lt());
  E sentinel{key(span + 1), ~0u, ~0u}; if (Unguarded) for (auto& v : s) v.push_back(sentinel);
  uint32_t k = (uint32_t)s.size(); vector<size_t> at(k, 0); vector<E> got;
  auto merge = [&](auto& lt) { for (uint32_t t = 0; t < k; ++t) lt.insert_start(s[t].empty() ? nullptr : &s[t][0], t, s[t].empty()); lt.init(); for (size_t i = 0; i < total; ++i) { uint32_t q = lt.min_source(); PBT_CHECK(q < k && at[q] < s[q].size() - Unguarded, "element %zu of %zu comes from source %u, which has none left", i, total, q); got.push_back(s[q][at[q]++]); bool end = at[q] == s[q].size(); lt.delete_min_insert(end ? nullptr : &s[q][at[q]], end); } };
  if constexpr (Unguarded) { Tree<Stable, E, Lt> lt(k, sentinel); merge(lt); } else { Tree<Stable, E, Lt> lt(k); merge(lt); }
  for (size_t i = 0; i < total; ++i) { PBT_CHECK(got[i].key == want[i].key, "element %zu of the merge is out of order", i); if (Stable) PBT_CHECK(got[i] == want[i], "element %zu: equal keys come from sequence %u before %u", i, got[i].seq, want[i].seq); }
  o.mark("merged", total); o.nontrivial(k >= 2 && total >= 4);
}
template <bool S, class E, class L> using Cp = tlx::LoserTreeCopy<S, E, L>; template <bool S, class E, class L> using Pt = tlx::LoserTreePointer<S, E, L>; template <bool S, class E, class L> using Cu = tlx::LoserTreeCopyUnguarded<S, E, L>; template <bool S, class E, class L> using Pu = tlx::LoserTreePointerUnguarded<S, E, L>; template <bool S, class E, class L> using Au = tlx::LoserTree<S, E, L>;
template <int N> Case gk(Rng& r, int s) { return gops(r, s, N); }
#define RH "random phases of heap operations against a plain collection of the stored keys: the top is a smallest stored key after every operation, the content drains in order and completely; non-trivial: four keys at once and one taken out"
#define RL "k sorted sequences (some empty, few distinct keys) merged through the loser tree, against a stable sort; the stable variants must keep equal keys in sequence order; non-trivial: two sequences, four elements"
#define RB "random bits set and cleared against a set, with the lowest set bit after every step; non-trivial: two bits set"
}  // namespace
#if PART == 0
PBT_HARNESS(h1, {"heap_u32_2", RH, kHeap, gk<9>, rheap<uint32_t, 2, std::less<uint32_t>>, 2});
PBT_HARNESS(h2, {"heap_string_3_greater", RH, kHeap, gk<9>, rheap<string, 3, std::greater<string>>, 1});
PBT_HARNESS(h3, {"heap_external_priority_4", RH, kHeap, gk<9>, rheap<uint32_t, 4, ByPrio>, 2});
PBT_HARNESS(h4, {"heap_i64_1", RH, kHeap, gk<9>, rheap<int64_t, 1, std::less<int64_t>>, 1});
PBT_HARNESS(h5, {"heap_u8_8", RH, kHeap, gk<9>, rheap<uint8_t, 8, std::less<uint8_t>>, 1});
PBT_HARNESS(i1, {"intheap_u32_2", RH, kInt, gk<11>, rint<uint32_t, 2>, 2});
PBT_HARNESS(i2, {"intheap_u8_3", RH, kInt, gk<11>, rint<uint8_t, 3>, 1});
PBT_HARNESS(i3, {"intheap_u64_1", RH, kInt, gk<11>, rint<uint64_t, 1>, 1});
PBT_HARNESS(i4, {"intheap_u16_5", RH, kInt, gk<11>, rint<uint16_t, 5>, 1});
#elif PART == 1
PBT_HARNESS(r1, {"radix_u64_8", RH, kRad, gk<9>, rrad<uint64_t, 8>, 2});
PBT_HARNESS(r2, {"radix_i32_16", RH, kRad, gk<9>, rrad<int32_t, 16>, 2});
PBT_HARNESS(r3, {"radix_u8_4", RH, kRad, gk<9>, rrad<uint8_t, 4>, 1});
PBT_HARNESS(r4, {"radix_i8_2", RH, kRad, gk<9>, rrad<int8_t, 2>, 1});
PBT_HARNESS(r5, {"radix_u16_64", RH, kRad, gk<9>, rrad<uint16_t, 64>, 1});
PBT_HARNESS(r6, {"radix_i64_64", RH, kRad, gk<9>, rrad<int64_t, 64>, 1});
PBT_HARNESS(r7, {"radix_u32_32", RH, kRad, gk<9>, rrad<uint32_t, 32>, 1});
PBT_HARNESS(r8, {"radix_i16_8", RH, kRad, gk<9>, rrad<int16_t, 8>, 1});
#define B(n) PBT_HARNESS(b##n, {"bits_" #n, RB, kBit, gk<4>, rbit<n>, 1})
B(1); B(5); B(32); B(33); B(64); B(65); B(100); B(512); B(646); B(4096); B(5000);
#else
#define LT(id, name, T, S, K, U) PBT_HARNESS(id, {name, RL, kSeq, gseq, rlt<T, S, K, U>, 1})
LT(l1, "copy", Cp, false, uint32_t, false); LT(l2, "copy_stable", Cp, true, uint32_t, false); LT(l3, "copy_string_stable", Cp, true, string, false); LT(l4, "pointer", Pt, false, string, false); LT(l5, "pointer_stable", Pt, true, string, false);
LT(l6, "copy_unguarded", Cu, false, uint32_t, true); LT(l7, "copy_unguarded_stable", Cu, true, uint32_t, true); LT(l8, "pointer_unguarded", Pu, false, string, true); LT(l9, "pointer_unguarded_stable", Pu, true, string, true); LT(l10, "chosen_stable", Au, true, string, false);
#endif
