// Google btree containers: operation histories compared, element by element and in order, with a plain sorted vector.
// -DMULTI: multimap/multiset; otherwise map/set.
#include <algorithm>
#include <cmath>
#include <functional>
#include <iterator>
#include <ostream>
#include <memory>
#include <sstream>
#include "btree_map.h"
#include "pbt.h"
#include "vkeys.h"
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng;
namespace {
enum { INS, HINT, IDX, ERK, ERI, ERR, FIND, BND, FULL, RINS, COPY, ASSIGN, SWAP, CLEAR, WALK, STAT, ALIAS };
static const std::vector<std::string> kNames = {"insert", "insert_hint", "index", "erase_key", "erase_iter", "erase_range", "find", "bounds", "full", "insert_range", "copy", "assign", "swap", "clear", "walk", "stats", "alias"};

static long g_live = 0, g_bytes = 0;
// a value that owns memory and counts itself
struct Tracked {
  uint64_t* p; Tracked(uint64_t v = 0) : p(new uint64_t(v)) { ++g_live; } Tracked(const Tracked& o) : p(new uint64_t(*o.p)) { ++g_live; }
  Tracked& operator=(const Tracked& o) { *p = *o.p; return *this; } ~Tracked() { delete p; p = nullptr; --g_live; }
  bool operator==(const Tracked& o) const { return *p == *o.p; } bool operator!=(const Tracked& o) const { return !(*this == o); }
};
template <class T> struct CountAlloc : std::allocator<T> {
  template <class U> struct rebind { typedef CountAlloc<U> other; };
  CountAlloc() {} template <class U> CountAlloc(const CountAlloc<U>&) {}
  T* allocate(size_t n, const void* = nullptr) { g_bytes += n * sizeof(T); return std::allocator<T>::allocate(n); }
  void deallocate(T* p, size_t n) { g_bytes -= n * sizeof(T); std::allocator<T>::deallocate(p, n); }
};
template <unsigned PAD> struct Wide { uint64_t k; char pad[PAD]; Wide(uint64_t x = 0) : k(x) { memset(pad, 0x21, PAD); } bool operator<(const Wide& o) const { return k < o.k; } bool operator==(const Wide& o) const { return k == o.k; } bool operator!=(const Wide& o) const { return k != o.k; } };
template <class K> K mkkey(const Case& c, uint64_t i);
template <> uint64_t mkkey<uint64_t>(const Case& c, uint64_t i) { return keys::ikey(c.c(1), c.c(2), i); }
template <> int32_t mkkey<int32_t>(const Case& c, uint64_t i) { return (int32_t)keys::ikey(c.c(1), c.c(2), i); }
template <> int8_t mkkey<int8_t>(const Case& c, uint64_t i) { return (int8_t)keys::ikey(c.c(1), c.c(2), i); }
template <> std::string mkkey<std::string>(const Case& c, uint64_t i) { return keys::skey(c.c(1), c.c(2), i, 60, true); }
template <> Wide<40> mkkey<Wide<40>>(const Case& c, uint64_t i) { return Wide<40>(keys::ikey(c.c(1), c.c(2), i)); }
static std::string sk(const std::string& s) { return keys::hex(s); }
template <unsigned P> std::string sk(const Wide<P>& w) { return std::to_string(w.k); }
template <class K> std::string sk(const K& k) { return std::to_string(k); }
template <class V> V mkval(uint64_t u) { return V(u); }
template <> std::string mkval<std::string>(uint64_t u) { return std::string(u % 40, 'v') + std::to_string(u); }

template <class C, class = void> struct IsMap : std::false_type {};
template <class C> struct IsMap<C, std::void_t<typename C::value_type::second_type>> : std::true_type {};
template <class C> const typename C::key_type& K1(const typename C::value_type& x) { if constexpr (IsMap<C>::value) return x.first; else return x; }
template <class C> typename C::value_type mkelem(const typename C::key_type& k, uint64_t u) { if constexpr (IsMap<C>::value) return {k, mkval<typename C::value_type::second_type>(u)}; else return k; }

template <class C, class Less> void run(const Case& c, Obs& o) {
  using K = typename C::key_type; using E = typename C::value_type; using It = typename C::iterator; using CIt = typename C::const_iterator;
#ifdef MULTI
  const bool multi = true;
#else
  const bool multi = false;
#endif
  g_live = g_bytes = 0;
  struct M { std::vector<std::pair<K, uint64_t>> v; };      // (key, tag); the element is mkelem(key, tag)
  Less less{};
  uint64_t hits = 0, erased = 0, maxn = 0, maxh = 0, uniq = 1, ins = 0, merges = 0;
  {
    C t, t2; M m, m2;
    uint64_t pool = std::max<uint64_t>(1, c.c(0));
    auto key = [&](uint64_t i) { return mkkey<K>(c, i % pool); };
    auto lb = [&](M& m, const K& k) { return std::lower_bound(m.v.begin(), m.v.end(), k, [&](auto& a, auto& b) { return less(a.first, b); }) - m.v.begin(); };
    auto ub = [&](M& m, const K& k) { return std::upper_bound(m.v.begin(), m.v.end(), k, [&](auto& a, auto& b) { return less(a, b.first); }) - m.v.begin(); };
    auto same = [&](const E& e, const std::pair<K, uint64_t>& r) { if constexpr (IsMap<C>::value) return e.first == r.first && e.second == mkval<typename E::second_type>(r.second); else return e == r.first; };
    auto pos = [&](C& t, It it) { size_t n = 0; for (It i = t.begin(); i != it; ++i) { ++n; PBT_CHECK(n <= 100000, "the iterator is not in the container"); } return n; };
    auto at = [&](C& t, M& m, It it, size_t i, const char* what) {
      if (i == m.v.size()) { PBT_CHECK(it == t.end(), "%s: expected end()", what); return; }
      PBT_CHECK(it != t.end(), "%s: end(), expected key %s (element %zu of %zu)", what, sk(m.v[i].first).c_str(), i, m.v.size());
      PBT_CHECK(same(*it, m.v[i]), "%s: at key %s, expected key %s (or its value differs)", what, sk(K1<C>(*it)).c_str(), sk(m.v[i].first).c_str());
    };
    auto full = [&](C& t, M& m, const char* what) {
      PBT_CHECK(t.size() == m.v.size(), "%s: size %zu, expected %zu", what, (size_t)t.size(), m.v.size()); PBT_CHECK(t.empty() == m.v.empty(), "%s: empty() wrong", what);
      size_t i = 0; for (It it = t.begin(); it != t.end(); ++it, ++i) { PBT_CHECK(i < m.v.size(), "%s: more elements than inserted", what); PBT_CHECK(same(*it, m.v[i]), "%s: element %zu has key %s, expected %s (or its value differs)", what, i, sk(K1<C>(*it)).c_str(), sk(m.v[i].first).c_str()); }
      PBT_CHECK(i == m.v.size(), "%s: iteration ended after %zu of %zu elements", what, i, m.v.size());
      const C& ct = t; for (auto it = ct.rbegin(); it != ct.rend(); ++it) { PBT_CHECK(i > 0, "%s: reverse iteration runs past the start", what); --i; PBT_CHECK(same(*it, m.v[i]), "%s: reverse iteration differs at element %zu", what, i); }
      PBT_CHECK(i == 0, "%s: reverse iteration missed %zu elements", what, i);
    };
    full(t, m, "a new container");
    for (auto& op : c.thr.empty() ? pbt::Ops{} : c.thr[0]) {
      K k = key(op.a), k2 = key(op.b); const C& ct = t; size_t l = lb(m, k), u = ub(m, k), l2 = lb(m, k2); uint64_t tag = uniq++;
      switch (op.k) {
        case INS: case HINT: {
          ++ins;
          if (op.k == HINT) {
            It h = op.c & 1 ? t.lower_bound(k2) : op.c & 2 ? t.upper_bound(k) : op.c & 4 ? t.begin() : t.end();
            It r = t.insert(h, mkelem<C>(k, tag));
            PBT_CHECK(r != t.end(), "hinted insert returned end()");
            if (!multi && l != u) at(t, m, r, l, "hinted insert of a present key");
            else { size_t p = pos(t, r); PBT_CHECK(p >= l && p <= u, "hinted insert of %s put it at position %zu; sorted positions are %zu..%zu", sk(k).c_str(), p, l, u); m.v.insert(m.v.begin() + p, {k, tag}); at(t, m, r, p, "hinted insert"); }
          } else {
#ifdef MULTI
            It r = t.insert(mkelem<C>(k, tag)); size_t p = pos(t, r); PBT_CHECK(p >= l && p <= u, "insert of %s put it at position %zu; sorted positions are %zu..%zu", sk(k).c_str(), p, l, u); m.v.insert(m.v.begin() + p, {k, tag}); at(t, m, r, p, "insert");
#else
            auto r = t.insert(mkelem<C>(k, tag)); PBT_CHECK(r.second == (l == u), "insert of %s returned %d, the key was %s", sk(k).c_str(), r.second, l != u ? "present" : "absent");
            if (r.second) m.v.insert(m.v.begin() + l, {k, tag});
            at(t, m, r.first, l, "insert"); 
#endif
          }
          break;
        }
        case IDX: {
#ifndef MULTI
          if constexpr (IsMap<C>::value) {
            auto& ref = t[k]; using V = typename E::second_type;
            if (l == u) { PBT_CHECK(ref == V(), "operator[] of the absent key %s gives a value that is not the default", sk(k).c_str()); m.v.insert(m.v.begin() + l, {k, tag}); }
            else { PBT_CHECK(ref == mkval<V>(m.v[l].second), "operator[] of %s gives another value than the stored one", sk(k).c_str()); m.v[l].second = tag; }
            ref = mkval<V>(tag);
          }
#endif
          break;
        }
        case ALIAS: {   // arguments that are references into the container itself
          if (m.v.empty()) break;
          size_t p = op.c % m.v.size(); It it = t.begin(); std::advance(it, p); auto e = m.v[p]; size_t el = lb(m, e.first), eu = ub(m, e.first);
          if (op.b % 4 == 0) { int r = t.erase(K1<C>(*it)); PBT_CHECK(r == (int)(eu - el), "erase by a reference to a stored key removed %d, expected %zu", r, eu - el); m.v.erase(m.v.begin() + el, m.v.begin() + eu); erased += eu - el; break; }
#ifdef MULTI
          It r = op.b % 4 == 1 ? t.insert(op.b & 8 ? it : t.end(), *it) : t.insert(*it); size_t q = pos(t, r); PBT_CHECK(q >= el && q <= eu, "insert of a copy of element %zu put it at position %zu; sorted positions are %zu..%zu", p, q, el, eu); m.v.insert(m.v.begin() + q, e); at(t, m, r, q, "insert of a copy of a stored element"); ++ins;
#else
          auto r = t.insert(*it); PBT_CHECK(!r.second, "insert of a stored element succeeded"); at(t, m, r.first, el, "insert of a stored element");
#endif
          break;
        }
        case ERK: { int r = t.erase(k); PBT_CHECK(r == (int)(u - l), "erase of %s removed %d, expected %zu", sk(k).c_str(), r, u - l); m.v.erase(m.v.begin() + l, m.v.begin() + u); erased += u - l; break; }
        case ERI: {
          if (m.v.empty()) break;
          size_t p = op.c % 3 == 0 ? l2 : op.c % m.v.size(); if (p == m.v.size()) p = op.c & 1 ? 0 : p - 1;
          It it = t.begin(); if (op.c % 3 == 0 && p == l2) it = t.lower_bound(k2); else std::advance(it, p);
          int n = 1 + op.c % 4;   // several in a row through the returned iterator
          while (n-- && p < m.v.size()) { at(t, m, it, p, "iterator before erase"); it = t.erase(it); m.v.erase(m.v.begin() + p); ++erased; at(t, m, it, p, "iterator returned by erase"); }
          break;
        }
        case ERR: {
          size_t a = std::min(l, l2), b = std::max(l, l2); if (op.c % 4 == 0) { a = 0; b = m.v.size(); if (op.c % 8) b /= 2; }
          It x = t.begin(), y; std::advance(x, a); y = x; std::advance(y, b - a); t.erase(x, y); m.v.erase(m.v.begin() + a, m.v.begin() + b); erased += b - a; break;
        }
        case FIND: {
          It it = t.find(k); CIt ci = ct.find(k); hits += l != u;
          if (l == u) { PBT_CHECK(it == t.end() && ci == ct.end(), "find of the absent key %s finds something", sk(k).c_str()); }
          else { size_t p = l; PBT_CHECK(it != t.end() && ci != ct.end(), "find of the present key %s finds nothing", sk(k).c_str()); if (multi) p = pos(t, it); PBT_CHECK(p >= l && p < u, "find of %s: wrong element", sk(k).c_str()); at(t, m, it, p, "find"); }
          break;
        }
        case BND: {
          at(t, m, t.lower_bound(k), l, "lower_bound"); at(t, m, t.upper_bound(k), u, "upper_bound");
          auto e = t.equal_range(k); at(t, m, e.first, l, "equal_range.first"); at(t, m, e.second, u, "equal_range.second");
          PBT_CHECK(ct.lower_bound(k) == CIt(t.lower_bound(k)) && ct.upper_bound(k) == CIt(t.upper_bound(k)), "const and non-const bounds differ");
          auto ce = ct.equal_range(k); PBT_CHECK(ce.first == CIt(e.first) && ce.second == CIt(e.second), "const and non-const equal_range differ");
          PBT_CHECK(ct.count(k) == u - l, "count of %s is %zu, expected %zu", sk(k).c_str(), (size_t)ct.count(k), u - l); hits += u - l;
          size_t n = 0; for (It i = e.first; i != e.second && n < 1000000; ++i) ++n; PBT_CHECK(n == u - l, "equal_range of %s covers %zu elements, expected %zu", sk(k).c_str(), n, u - l);
          break;
        }
        case FULL: full(t, m, "full traversal"); break;
        case RINS: {
          std::vector<E> v; std::vector<std::pair<K, uint64_t>> tags; uint64_t n = op.c % 40;
          for (uint64_t i = 0; i < n; ++i) { K kk = key(op.a + i * (op.b % 5)); uint64_t tg = uniq++; v.push_back(mkelem<C>(kk, tg)); tags.push_back({kk, tg}); }
          t.insert(v.begin(), v.end());
          for (auto& x : tags) { size_t a = lb(m, x.first), b = ub(m, x.first); if (multi) m.v.insert(m.v.begin() + b, x); else if (a == b) m.v.insert(m.v.begin() + a, x); }
          if (multi) { // any order among equal keys: take the container's, if it is a permutation
            std::vector<std::pair<K, uint64_t>> left = m.v; size_t i = 0;
            for (It it = t.begin(); it != t.end() && i < left.size(); ++it, ++i) {
              if (same(*it, left[i])) continue;
              size_t j = i + 1; while (j < left.size() && left[j].first == left[i].first && !same(*it, left[j])) ++j;
              if (j < left.size() && left[j].first == left[i].first) std::swap(left[i], left[j]);
            }
            m.v = left;
          }
          full(t, m, "after a range insertion"); break;
        }
        case COPY: { C n(t); full(n, m, "copy"); PBT_CHECK(n == t && !(n != t), "a copy differs from the original"); if (m.v.size()) { n.erase(n.begin()); PBT_CHECK(n != t, "containers of different contents compare equal"); } full(t, m, "original after changing its copy"); C n2(ct.begin(), ct.end()); PBT_CHECK(n2 == t, "a container built from a range differs"); break; }
        case ASSIGN: { t2 = t; m2 = m; full(t2, m2, "assigned container"); full(t, m, "source of an assignment"); t = *&t; full(t, m, "after self-assignment"); break; }
        case SWAP: { if (op.c & 1) t.swap(t2); else { using std::swap; swap(t, t2); } std::swap(m, m2); full(t, m, "after swap"); full(t2, m2, "other after swap"); break; }
        case CLEAR: t.clear(); m.v.clear(); full(t, m, "after clear"); break;
        case WALK: {
          if (m.v.empty()) break;
          size_t p = l2; It it = t.lower_bound(k2); uint64_t h = op.c * 0x9e3779b97f4a7c15ull + 1;
          for (int i = 0; i < 60; ++i) { h = pbt::Rng::mix(h); bool up = (h & 3) ? (op.c & 1) : (h & 4); if (up && p < m.v.size()) { if (h & 8) ++it; else it++; ++p; } else if (!up && p > 0) { if (h & 8) --it; else it--; --p; } at(t, m, it, p, "walking iterator"); }
          break;
        }
        case STAT: {
          size_t n = m.v.size(), nodes = t.nodes(), leaf = t.leaf_nodes(), in = t.internal_nodes(), h = t.height();
          PBT_CHECK(nodes == leaf + in, "nodes() %zu is not leaf_nodes() %zu + internal_nodes() %zu", nodes, leaf, in);
          PBT_CHECK((n == 0) == (nodes == 0), "%zu nodes hold %zu elements", nodes, n); PBT_CHECK((h == 0) == (n == 0), "height %zu with %zu elements", h, n); PBT_CHECK(in == 0 || h >= 2, "height %zu with internal nodes", h);
          if (n) { double f = t.fullness(); PBT_CHECK(f > 0 && f <= 1, "fullness %g", f); }
          PBT_CHECK(leaf <= n && in <= leaf, "%zu leaves and %zu internal nodes for %zu elements", leaf, in, n);
          if (in) { double lg = std::log((double)n + 1) / std::log(2.0); PBT_CHECK(h <= lg + 2, "height %zu for %zu elements: the tree is not balanced", h, n); }
          maxh = std::max<uint64_t>(maxh, h); break;
        }
      }
      PBT_CHECK(t.size() == m.v.size(), "after %s: size %zu, expected %zu", kNames[op.k % kNames.size()].c_str(), (size_t)t.size(), m.v.size());
      maxn = std::max<uint64_t>(maxn, m.v.size());
    }
    maxh = std::max<uint64_t>(maxh, t.height());
    full(t, m, "at the end"); full(t2, m2, "the second container at the end");
  }
  PBT_CHECK(g_live == 0, "%ld values were constructed and never destroyed (or destroyed twice)", g_live);
  PBT_CHECK(g_bytes == 0, "%ld bytes of node memory not given back", g_bytes);
  o.mark("erased", erased); o.mark("hits", hits); if (maxh >= 3) o.mark("cases_height_3_or_more"); if (maxh >= 5) o.mark("cases_height_5_or_more");
  o.nontrivial(maxn >= 8 && erased >= 1 && hits >= 1);
}
static Case gen(Rng& r, int size) {
  Case c; uint64_t pool = r.chance(1, 4) ? r.range(1, 12) : r.range(10, 400); c.cfg = {pool, r.below(8), r.below(1000)};
  size_t n = r.range(2, 20 + size * size / 8); c.thr.resize(1); auto& v = c.thr[0]; int phase = 0, dir = 0; size_t left = 0; uint64_t cur = 0;
  for (size_t i = 0; i < n; ++i) {
    if (!left) { phase = r.weighted({5, 4, 2}); dir = r.weighted({3, 2, 2, 1}); left = r.range(5, 120); cur = r.below(pool); }
    --left; uint64_t a = dir == 0 ? r.below(pool) : dir == 1 ? (cur + 1) % pool : dir == 2 ? (cur + pool - 1) % pool : (cur + pool / 3 + 1) % pool; cur = a;
    int k = phase == 0 ? r.weighted({12, 4, 3, 1, 1, 0, 2, 1, 0, 1}) : phase == 1 ? r.weighted({1, 1, 0, 12, 4, 0, 2, 1, 0, 0}) : r.weighted({4, 2, 2, 3, 2, 0, 3, 3, 0, 0});
    if (r.chance(1, 25)) k = ERR + r.weighted({2, 0, 0, 2, 3, 1, 1, 1, 0, 4, 2, 4});
    if (k == FIND && r.chance(1, 12)) k = FULL;
    if (k == CLEAR && r.chance(2, 3)) k = STAT;
    if (k == ERR && r.chance(1, 2)) k = WALK;
    v.push_back({(uint32_t)k, a, r.below(pool), r.below(1000)});
  }
  return c;
}
#define RULE "histories of every container operation (insert with and without hint, indexing, erase by key/iterator/range, searches, bounds, copies, swaps, range insertions, bidirectional walks), checked element by element, in order, forward and backward, against a sorted vector; live values and node bytes are counted and must return to zero; non-trivial: at least 8 elements at once, an erasure and a hit"

template <class K, class V> using Al = CountAlloc<std::pair<const K, V>>;
#ifdef MULTI
template <class K, class V, class L, int N> using MapT = ::btree::btree_multimap<K, V, L, Al<K, V>, N>;
template <class K, class L, int N> using SetT = ::btree::btree_multi_container<::btree::btree<::btree::btree_set_params<K, L, CountAlloc<K>, N>>>;
#else
template <class K, class V, class L, int N> using MapT = ::btree::btree_map<K, V, L, Al<K, V>, N>;
template <class K, class L, int N> using SetT = ::btree::btree_unique_container<::btree::btree<::btree::btree_set_params<K, L, CountAlloc<K>, N>>>;
#endif
}  // namespace
#if PART == 0
PBT_HARNESS(a, {"map_u64_tracked", RULE, kNames, gen, run<MapT<uint64_t, Tracked, std::less<uint64_t>, 64>, std::less<uint64_t>>, 3});
#endif
#if PART == 0
PBT_HARNESS(b, {"map_u64_greater_wide_node", RULE, kNames, gen, run<MapT<uint64_t, uint64_t, std::greater<uint64_t>, 256>, std::greater<uint64_t>>, 1});
#endif
#if PART == 1
PBT_HARNESS(d, {"map_str_str", RULE, kNames, gen, run<MapT<std::string, std::string, std::less<std::string>, 256>, std::less<std::string>>, 2});
#endif
#if PART == 1
PBT_HARNESS(e, {"map_str_greater", RULE, kNames, gen, run<MapT<std::string, Tracked, std::greater<std::string>, 200>, std::greater<std::string>>, 1});
#endif
#if PART == 2
PBT_HARNESS(f, {"set_i32", RULE, kNames, gen, run<SetT<int32_t, std::less<int32_t>, 32>, std::less<int32_t>>, 2});
#endif
#if PART == 2
PBT_HARNESS(g, {"set_i8", RULE, kNames, gen, run<SetT<int8_t, std::less<int8_t>, 24>, std::less<int8_t>>, 1});
#endif
#if PART == 3
PBT_HARNESS(h, {"set_str", RULE, kNames, gen, run<SetT<std::string, std::less<std::string>, 128>, std::less<std::string>>, 2});
#endif
#if PART == 3
PBT_HARNESS(i, {"map_wide_key", RULE, kNames, gen, run<MapT<Wide<40>, uint64_t, std::less<Wide<40>>, 256>, std::less<Wide<40>>>, 1});
#endif
#if PART == 4
PBT_HARNESS(j, {"set_u64_big_node", RULE, kNames, gen, run<SetT<uint64_t, std::less<uint64_t>, 512>, std::less<uint64_t>>, 1});
#endif
