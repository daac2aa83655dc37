// STX (tlx) B+ tree containers: operation histories compared, element by element and in order, with a plain sorted vector.
// -DMULTI: multimap/multiset; otherwise map/set.
#include <algorithm>
#include <cmath>
#include <functional>
#include <iterator>
#include <ostream>
#include <memory>
#include <sstream>
#include <tlx/container/btree_map.hpp>
#include <tlx/container/btree_multimap.hpp>
#include <tlx/container/btree_multiset.hpp>
#include <tlx/container/btree_set.hpp>
#include "pbt.h"
#include "vkeys.h"
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng;
namespace {
enum { INS, HINT, IDX, ERK, ER1, ERI, FIND, BND, FULL, RINS, COPY, ASSIGN, SWAP, CLEAR, WALK, VERIFY, BULK, CMP, ALIAS };
static const std::vector<std::string> kNames = {"insert", "insert_hint", "index_or_insert2", "erase_key", "erase_one", "erase_iter", "find", "bounds", "full", "insert_range", "copy", "assign", "swap", "clear", "walk", "verify", "bulk_load", "compare", "alias"};

static long g_live = 0, g_bytes = 0;
// a value that owns memory and counts itself
struct Tracked {
  uint64_t* p; Tracked(uint64_t v = 0) : p(new uint64_t(v)) { ++g_live; } Tracked(const Tracked& o) : p(new uint64_t(*o.p)) { ++g_live; }
  Tracked& operator=(const Tracked& o) { *p = *o.p; return *this; } ~Tracked() { delete p; p = nullptr; --g_live; }
  bool operator==(const Tracked& o) const { return *p == *o.p; } bool operator!=(const Tracked& o) const { return !(*this == o); }
};
// traits: slots per node, and the node size above which searches are binary
template <int L, int I, size_t B> struct Tr { static const bool self_verify = false, debug = false; static const int leaf_slots = L, inner_slots = I; static const size_t binsearch_threshold = B; };
// a comparison with state
struct ModLess { uint64_t x = 0; bool operator()(uint64_t a, uint64_t b) const { return (a ^ x) < (b ^ x); } };
template <class T> struct CountAlloc : std::allocator<T> {
  template <class U> struct rebind { typedef CountAlloc<U> other; };
  CountAlloc() {} template <class U> CountAlloc(const CountAlloc<U>&) {}
  T* allocate(size_t n, const void* = nullptr) { g_bytes += n * sizeof(T); return std::allocator<T>::allocate(n); }
  void deallocate(T* p, size_t n) { g_bytes -= n * sizeof(T); std::allocator<T>::deallocate(p, n); }
};
template <unsigned PAD> struct Wide { uint64_t k; char pad[PAD]; Wide(uint64_t x = 0) : k(x) { memset(pad, 0x21, PAD); } bool operator<(const Wide& o) const { return k < o.k; } bool operator==(const Wide& o) const { return k == o.k; } bool operator!=(const Wide& o) const { return k != o.k; } };
template <class K> K mkkey(const Case& c, uint64_t i);
template <> uint64_t mkkey<uint64_t>(const Case& c, uint64_t i) { return keys::ikey(c.c(1), c.c(2), i); }
template <> int32_t mkkey<int32_t>(const Case& c, uint64_t i) { return (int32_t)keys::ikey(c.c(1), c.c(2), i); }
template <> int8_t mkkey<int8_t>(const Case& c, uint64_t i) { return (int8_t)keys::ikey(c.c(1), c.c(2), i); }
template <> std::string mkkey<std::string>(const Case& c, uint64_t i) { return keys::skey(c.c(1), c.c(2), i, 60, true); }
template <> Wide<40> mkkey<Wide<40>>(const Case& c, uint64_t i) { return Wide<40>(keys::ikey(c.c(1), c.c(2), i)); }
static std::string sk(const std::string& s) { return keys::hex(s); }
template <unsigned P> std::string sk(const Wide<P>& w) { return std::to_string(w.k); }
template <class K> std::string sk(const K& k) { return std::to_string(k); }
template <class V> V mkval(uint64_t u) { return V(u); }
template <> std::string mkval<std::string>(uint64_t u) { return std::string(u % 40, 'v') + std::to_string(u); }

template <class C, class = void> struct IsMap : std::false_type {};
template <class C> struct IsMap<C, std::void_t<typename C::value_type::second_type>> : std::true_type {};
template <class C> const typename C::key_type& K1(const typename C::value_type& x) { if constexpr (IsMap<C>::value) return x.first; else return x; }
template <class C> typename C::value_type mkelem(const typename C::key_type& k, uint64_t u) { if constexpr (IsMap<C>::value) return {k, mkval<typename C::value_type::second_type>(u)}; else return k; }

template <class C, class Less> void run(const Case& c, Obs& o) {
  using K = typename C::key_type; using E = typename C::value_type; using It = typename C::iterator; using CIt = typename C::const_iterator;
#ifdef MULTI
  const bool multi = true;
#else
  const bool multi = false;
#endif
  g_live = g_bytes = 0;
  struct M { std::vector<std::pair<K, uint64_t>> v; };      // (key, tag); the element is mkelem(key, tag)
  Less less{}; if constexpr (std::is_same_v<Less, ModLess>) less.x = pbt::Rng::mix(c.c(2)) >> (c.c(2) % 60);
  uint64_t hits = 0, erased = 0, maxn = 0, deep = 0, uniq = 1;
  {
    C t(less), t2(less); M m, m2;
    uint64_t pool = std::max<uint64_t>(1, c.c(0));
    auto key = [&](uint64_t i) { return mkkey<K>(c, i % pool); };
    auto lb = [&](M& m, const K& k) { return std::lower_bound(m.v.begin(), m.v.end(), k, [&](auto& a, auto& b) { return less(a.first, b); }) - m.v.begin(); };
    auto ub = [&](M& m, const K& k) { return std::upper_bound(m.v.begin(), m.v.end(), k, [&](auto& a, auto& b) { return less(a, b.first); }) - m.v.begin(); };
    auto same = [&](const E& e, const std::pair<K, uint64_t>& r) { if constexpr (IsMap<C>::value) return e.first == r.first && e.second == mkval<typename E::second_type>(r.second); else return e == r.first; };
    auto pos = [&](C& t, It it) { size_t n = 0; for (It i = t.begin(); i != it; ++i) { ++n; PBT_CHECK(n <= 100000 && i != t.end(), "the iterator is not in the container"); } return n; };
    auto at = [&](C& t, M& m, It it, size_t i, const char* what) {
      if (i == m.v.size()) { PBT_CHECK(it == t.end(), "%s: expected end()", what); return; }
      PBT_CHECK(it != t.end(), "%s: end(), expected key %s (element %zu of %zu)", what, sk(m.v[i].first).c_str(), i, m.v.size());
      PBT_CHECK(same(*it, m.v[i]), "%s: at key %s, expected key %s (or its value differs)", what, sk(K1<C>(*it)).c_str(), sk(m.v[i].first).c_str());
      PBT_CHECK(it.key() == m.v[i].first, "%s: iterator.key() differs", what); if constexpr (IsMap<C>::value) PBT_CHECK(it->first == m.v[i].first, "%s: operator-> differs", what);
    };
    auto full = [&](C& t, M& m, const char* what) {
      PBT_CHECK(t.size() == m.v.size(), "%s: size %zu, expected %zu", what, (size_t)t.size(), m.v.size()); PBT_CHECK(t.empty() == m.v.empty(), "%s: empty() wrong", what);
      size_t i = 0; for (It it = t.begin(); it != t.end(); ++it, ++i) { PBT_CHECK(i < m.v.size(), "%s: more elements than inserted", what); PBT_CHECK(same(*it, m.v[i]), "%s: element %zu has key %s, expected %s (or its value differs)", what, i, sk(K1<C>(*it)).c_str(), sk(m.v[i].first).c_str()); }
      PBT_CHECK(i == m.v.size(), "%s: iteration ended after %zu of %zu elements", what, i, m.v.size());
      const C& ct = t; for (auto it = ct.rbegin(); it != ct.rend(); ++it) { PBT_CHECK(i > 0, "%s: reverse iteration runs past the start", what); --i; PBT_CHECK(same(*it, m.v[i]) && it.key() == m.v[i].first, "%s: reverse iteration differs at element %zu", what, i); }
      PBT_CHECK(i == 0, "%s: reverse iteration missed %zu elements", what, i);
      for (auto it = t.rbegin(); it != t.rend(); it++, ++i) PBT_CHECK(i < m.v.size() && same(*it, m.v[m.v.size() - 1 - i]), "%s: reverse iteration differs at element %zu from the end", what, i);
      i = m.v.size(); for (CIt it = ct.end(); it != ct.begin();) { --it; PBT_CHECK(i > 0, "%s: backward iteration runs past the start", what); --i; PBT_CHECK(same(*it, m.v[i]), "%s: backward iteration differs at element %zu", what, i); } PBT_CHECK(i == 0, "%s: backward iteration missed %zu elements", what, i);
      t.verify(); auto& st = t.get_stats(); PBT_CHECK(st.size == m.v.size() && (st.leaves == 0) == m.v.empty() && st.nodes() == st.leaves + st.inner_nodes, "%s: statistics: %zu elements in %zu leaves and %zu inner nodes", what, (size_t)st.size, (size_t)st.leaves, (size_t)st.inner_nodes);
      if (st.inner_nodes > C::inner_slotmax + 2u) deep = 1;
    };
    auto relax = [&](C& t, M& m) { if (!multi) return;   // any order among equal keys: take the container's, if it is a permutation
      std::vector<std::pair<K, uint64_t>>& left = m.v; size_t i = 0;
      for (It it = t.begin(); it != t.end() && i < left.size(); ++it, ++i) { if (same(*it, left[i])) continue; size_t j = i + 1; while (j < left.size() && left[j].first == left[i].first && !same(*it, left[j])) ++j; if (j < left.size() && left[j].first == left[i].first) std::swap(left[i], left[j]); } };
    full(t, m, "a new container");
    for (auto& op : c.thr.empty() ? pbt::Ops{} : c.thr[0]) {
      K k = key(op.a), k2 = key(op.b); const C& ct = t; size_t l = lb(m, k), u = ub(m, k), l2 = lb(m, k2); uint64_t tag = uniq++; uint32_t kind = op.k % kNames.size();
      switch (kind) {
        case INS: case HINT: {
          It r; bool two = false, fresh = false;
          It h = op.c & 1 ? t.lower_bound(k2) : op.c & 2 ? t.upper_bound(k) : op.c & 4 ? t.begin() : t.end();
          if constexpr (IsMap<C>::value) { auto v = mkval<typename E::second_type>(tag);
            if (kind == HINT) r = op.c & 8 ? t.insert2(h, k, v) : t.insert(h, E(k, v));
            else if constexpr (multi) r = op.c & 8 ? t.insert2(k, v) : t.insert(E(k, v)); else { auto p = op.c & 8 ? t.insert2(k, v) : t.insert(E(k, v)); r = p.first; two = true; fresh = p.second; }
          } else { if (kind == HINT) r = t.insert(h, k); else if constexpr (multi) r = t.insert(k); else { auto p = t.insert(k); r = p.first; two = true; fresh = p.second; } }
          PBT_CHECK(r != t.end(), "insert returned end()");
          if (two) PBT_CHECK(fresh == (l == u), "insert of %s returned %d, the key was %s", sk(k).c_str(), fresh, l != u ? "present" : "absent");
          if (!multi && l != u) at(t, m, r, l, "insert of a present key");
          else { size_t p = pos(t, r); PBT_CHECK(p >= l && p <= u, "insert of %s put it at position %zu; sorted positions are %zu..%zu", sk(k).c_str(), p, l, u); m.v.insert(m.v.begin() + p, {k, tag}); at(t, m, r, p, "insert"); }
          break;
        }
        case IDX: {
#ifndef MULTI
          if constexpr (IsMap<C>::value) {
            auto& ref = t[k]; using V = typename E::second_type;
            if (l == u) { PBT_CHECK(ref == V(), "operator[] of the absent key %s gives a value that is not the default", sk(k).c_str()); m.v.insert(m.v.begin() + l, {k, tag}); }
            else { PBT_CHECK(ref == mkval<V>(m.v[l].second), "operator[] of %s gives another value than the stored one", sk(k).c_str()); m.v[l].second = tag; }
            ref = mkval<V>(tag);
          }
#endif
          break;
        }
        case ALIAS: {   // arguments that are references into the container itself
          if (m.v.empty()) break;
          size_t p = op.c % m.v.size(); It it = t.begin(); std::advance(it, p); auto e = m.v[p]; size_t el = lb(m, e.first), eu = ub(m, e.first);
          if (op.b % 4 == 0) { size_t r = t.erase(K1<C>(*it)); PBT_CHECK(r == eu - el, "erase by a reference to a stored key removed %zu, expected %zu", r, eu - el); m.v.erase(m.v.begin() + el, m.v.begin() + eu); erased += eu - el; break; }
          if constexpr (multi) {
            It r; if constexpr (IsMap<C>::value) r = op.b % 4 == 1 ? t.insert2(it->first, it->second) : t.insert(*it); else r = t.insert(*it);
            size_t q = pos(t, r); PBT_CHECK(q >= el && q <= eu, "insert of a copy of element %zu put it at position %zu; sorted positions are %zu..%zu", p, q, el, eu); m.v.insert(m.v.begin() + q, e); at(t, m, r, q, "insert of a copy of a stored element");
          } else { auto r = t.insert(*it); PBT_CHECK(!r.second, "insert of a stored element succeeded"); at(t, m, r.first, el, "insert of a stored element"); }
          break;
        }
        case ERK: { size_t r = t.erase(k); PBT_CHECK(r == u - l, "erase of %s removed %zu, expected %zu", sk(k).c_str(), r, u - l); m.v.erase(m.v.begin() + l, m.v.begin() + u); erased += u - l; break; }
        case ER1: { bool r = t.erase_one(k); PBT_CHECK(r == (l != u), "erase_one of the %s key %s returned %d", l != u ? "present" : "absent", sk(k).c_str(), r); if (r) { m.v.erase(m.v.begin() + l); ++erased; } break; }
        case ERI: {
          if (m.v.empty()) break;
          size_t p = op.c % 3 == 0 ? l2 : op.c % m.v.size(); if (p == m.v.size()) p = op.c & 1 ? 0 : p - 1;
          It it = t.begin(); if (op.c % 3 == 0 && p == l2) it = t.lower_bound(k2); else std::advance(it, p);
          at(t, m, it, p, "iterator before erase"); t.erase(it); m.v.erase(m.v.begin() + p); ++erased; break;
        }
        case FIND: {
          It it = t.find(k); CIt ci = ct.find(k); hits += l != u; PBT_CHECK(ct.exists(k) == (l != u), "exists(%s) of the %s key", sk(k).c_str(), l != u ? "present" : "absent");
          if (l == u) { PBT_CHECK(it == t.end() && ci == ct.end(), "find of the absent key %s finds something", sk(k).c_str()); }
          else { size_t p = l; PBT_CHECK(it != t.end() && ci != ct.end() && ci == CIt(it), "find of the present key %s finds nothing", sk(k).c_str()); if (multi) p = pos(t, it); PBT_CHECK(p >= l && p < u, "find of %s: wrong element", sk(k).c_str()); at(t, m, it, p, "find"); }
          break;
        }
        case BND: {
          at(t, m, t.lower_bound(k), l, "lower_bound"); at(t, m, t.upper_bound(k), u, "upper_bound");
          auto e = t.equal_range(k); at(t, m, e.first, l, "equal_range.first"); at(t, m, e.second, u, "equal_range.second");
          PBT_CHECK(ct.lower_bound(k) == CIt(t.lower_bound(k)) && ct.upper_bound(k) == CIt(t.upper_bound(k)), "const and non-const bounds differ");
          auto ce = ct.equal_range(k); PBT_CHECK(ce.first == CIt(e.first) && ce.second == CIt(e.second), "const and non-const equal_range differ");
          PBT_CHECK(ct.count(k) == u - l, "count of %s is %zu, expected %zu", sk(k).c_str(), (size_t)ct.count(k), u - l); hits += u - l;
          size_t n = 0; for (It i = e.first; i != e.second && n < 1000000; ++i) ++n; PBT_CHECK(n == u - l, "equal_range of %s covers %zu elements, expected %zu", sk(k).c_str(), n, u - l);
          break;
        }
        case FULL: full(t, m, "full traversal"); break; case VERIFY: t.verify(); break;
        case RINS: case BULK: {
          std::vector<std::pair<K, uint64_t>> tags; uint64_t n = kind == RINS ? op.c % 40 : op.c % 5 == 0 ? op.c % 40 : op.c;
          for (uint64_t i = 0; i < n; ++i) { K kk = key(op.a + i * (op.b % 5)); if (kind == BULK && op.b % 5 == 0) kk = key(i); tags.push_back({kk, uniq++}); }
          C *p = &t; M* pm = &m;
          if (kind == BULK) { std::stable_sort(tags.begin(), tags.end(), [&](auto& a, auto& b) { return less(a.first, b.first); }); if (!multi) tags.erase(std::unique(tags.begin(), tags.end(), [&](auto& a, auto& b) { return a.first == b.first; }), tags.end()); p = &t2; pm = &m2; t2.clear(); m2.v.clear(); }
          std::vector<E> v; for (auto& x : tags) v.push_back(mkelem<C>(x.first, x.second));
          if (kind == BULK) { t2.bulk_load(v.begin(), v.end()); m2.v = tags; full(t2, m2, "after a bulk load"); if (op.c & 1) { t.swap(t2); std::swap(m, m2); } break; }
          t.insert(v.begin(), v.end());
          for (auto& x : tags) { size_t a = lb(m, x.first), b = ub(m, x.first); if (multi) m.v.insert(m.v.begin() + a, x); else if (a == b) m.v.insert(m.v.begin() + a, x); }
          relax(t, m); (void)p; (void)pm; full(t, m, "after a range insertion"); break;
        }
        case COPY: { C n(t); full(n, m, "copy"); PBT_CHECK(n == t && !(n != t), "a copy differs from the original"); if (m.v.size()) { n.erase(n.begin()); PBT_CHECK(n != t, "containers of different contents compare equal"); } full(t, m, "original after changing its copy"); C n2(ct.begin(), ct.end(), less); M mm = m; relax(n2, mm); full(n2, mm, "a container built from a range"); if (!multi) PBT_CHECK(n2 == t, "a container built from a range differs"); break; }
        case ASSIGN: { if (op.c & 1) { C e(less); t2 = e; M em; full(t2, em, "after assigning an empty container"); } t2 = t; m2 = m; full(t2, m2, "assigned container"); full(t, m, "source of an assignment"); t = *&t; full(t, m, "after self-assignment"); break; }
        case SWAP: { if (op.c & 1) t.swap(t2); else { using std::swap; swap(t, t2); } std::swap(m, m2); full(t, m, "after swap"); full(t2, m2, "other after swap"); break; }
        case CLEAR: t.clear(); m.v.clear(); full(t, m, "after clear"); break;
        case WALK: {
          if (m.v.empty()) break;
          size_t p = l2; It it = t.lower_bound(k2); CIt ci = ct.lower_bound(k2); uint64_t h = op.c * 0x9e3779b97f4a7c15ull + 1;
          for (int i = 0; i < 60; ++i) { h = pbt::Rng::mix(h); bool up = (h & 3) ? (op.c & 1) : (h & 4); if (up && p < m.v.size()) { if (h & 8) ++it, ++ci; else { It old = it++; at(t, m, old, p, "value of it++"); ci++; } ++p; } else if (!up && p > 0) { if (h & 8) --it, --ci; else { It old = it--; at(t, m, old, p, "value of it--"); ci--; } --p; } at(t, m, it, p, "walking iterator"); PBT_CHECK(ci == CIt(it), "const iterator walks elsewhere");
            if (p > 0 && !(h & 48)) { typename C::reverse_iterator r(it); PBT_CHECK(same(*r, m.v[p - 1]), "reverse iterator made from an iterator"); typename C::const_reverse_iterator cr(ci); ++cr; --cr; ++r; --r; PBT_CHECK(same(*cr, m.v[p - 1]) && It(r) == it, "reverse iterator forth and back"); } }
          break;
        }
        case CMP: if constexpr (!IsMap<C>::value && std::is_same_v<Less, std::less<K>>) {
          std::vector<K> a, b; for (auto& x : m.v) a.push_back(x.first); for (auto& x : m2.v) b.push_back(x.first);
          PBT_CHECK((t == t2) == (a == b) && (t != t2) == (a != b) && (t < t2) == (a < b) && (t > t2) == (a > b) && (t <= t2) == (a <= b) && (t >= t2) == (a >= b), "comparing containers of %zu and %zu elements", a.size(), b.size());
        } else PBT_CHECK((t == t2) == (m.v.size() == m2.v.size() && std::equal(t.begin(), t.end(), t2.begin())), "comparing containers"); break;
      }
      PBT_CHECK(t.size() == m.v.size(), "after %s: size %zu, expected %zu", kNames[kind].c_str(), (size_t)t.size(), m.v.size());
      maxn = std::max<uint64_t>(maxn, m.v.size());
    }
    full(t, m, "at the end"); full(t2, m2, "the second container at the end");
    if (c.c(0) & 1) { size_t i = 0; while (i < m.v.size()) { t.erase(t.begin()); m.v.erase(m.v.begin()); if (i++ % 3 == 0) full(t, m, "emptying"); } }
  }
  PBT_CHECK(g_live == 0, "%ld values were constructed and never destroyed (or destroyed twice)", g_live);
  PBT_CHECK(g_bytes == 0, "%ld bytes of node memory not given back", g_bytes);
  o.mark("erased", erased); o.mark("hits", hits); if (deep) o.mark("cases_three_levels");
  o.nontrivial(maxn >= 8 && erased >= 1 && hits >= 1);
}
static Case gen(Rng& r, int size) {
  Case c; uint64_t pool = r.chance(1, 4) ? r.range(1, 12) : r.range(10, 400); c.cfg = {pool, r.below(8), r.below(1000)};
  size_t n = r.range(2, 20 + size * size / 8); c.thr.resize(1); auto& v = c.thr[0]; int phase = 0, dir = 0; size_t left = 0; uint64_t cur = 0;
  for (size_t i = 0; i < n; ++i) {
    if (!left) { phase = r.weighted({5, 4, 2}); dir = r.weighted({3, 2, 2, 1}); left = r.range(5, 120); cur = r.below(pool); }
    --left; uint64_t a = dir == 0 ? r.below(pool) : dir == 1 ? (cur + 1) % pool : dir == 2 ? (cur + pool - 1) % pool : (cur + pool / 3 + 1) % pool; cur = a;
    int k = phase == 0 ? r.weighted({12, 4, 3, 1, 1, 1, 2, 1}) : phase == 1 ? r.weighted({1, 1, 0, 6, 6, 4, 2, 1}) : r.weighted({4, 2, 2, 2, 2, 2, 3, 3});
    if (r.chance(1, 25)) k = r.pick(std::vector<int>{FULL, RINS, RINS, COPY, ASSIGN, SWAP, CLEAR, WALK, WALK, VERIFY, VERIFY, VERIFY, BULK, BULK, CMP, ALIAS, ALIAS, ALIAS});
    if (k == CLEAR && r.chance(2, 3)) k = VERIFY;
    v.push_back({(uint32_t)k, a, r.below(pool), r.below(1000)});
  }
  return c;
}
#define RULE "histories of every container operation (insert with and without hint, indexing, erase by key/one/iterator, searches, bounds, copies, swaps, range insertions, bulk loads, comparisons, bidirectional walks), checked element by element, in order, forward and backward, against a sorted vector, with the tree's own verify(); live values and node bytes are counted and must return to zero; non-trivial: at least 8 elements at once, an erasure and a hit"

#ifdef MULTI
template <class K, class V, class L, class T> using MapT = tlx::btree_multimap<K, V, L, T, CountAlloc<std::pair<K, V>>>;
template <class K, class L, class T> using SetT = tlx::btree_multiset<K, L, T, CountAlloc<K>>;
#else
template <class K, class V, class L, class T> using MapT = tlx::btree_map<K, V, L, T, CountAlloc<std::pair<K, V>>>;
template <class K, class L, class T> using SetT = tlx::btree_set<K, L, T, CountAlloc<K>>;
#endif
}  // namespace
#if PART == 0
PBT_HARNESS(a, {"map_u64_tracked_4_4", RULE, kNames, gen, run<MapT<uint64_t, Tracked, std::less<uint64_t>, Tr<4, 4, 256>>, std::less<uint64_t>>, 3});
PBT_HARNESS(b, {"set_u64_default", RULE, kNames, gen, run<SetT<uint64_t, std::less<uint64_t>, tlx::btree_default_traits<uint64_t, uint64_t>>, std::less<uint64_t>>, 1});
#elif PART == 1
PBT_HARNESS(c, {"map_u64_greater_5_6_binary", RULE, kNames, gen, run<MapT<uint64_t, uint64_t, std::greater<uint64_t>, Tr<5, 6, 0>>, std::greater<uint64_t>>, 2});
PBT_HARNESS(d, {"set_i8_4_5", RULE, kNames, gen, run<SetT<int8_t, std::less<int8_t>, Tr<4, 5, 100000>>, std::less<int8_t>>, 1});
#elif PART == 2
PBT_HARNESS(e, {"map_string_string_4_4_binary", RULE, kNames, gen, run<MapT<std::string, std::string, std::less<std::string>, Tr<4, 4, 0>>, std::less<std::string>>, 2});
PBT_HARNESS(f, {"set_string_7_4", RULE, kNames, gen, run<SetT<std::string, std::less<std::string>, Tr<7, 4, 256>>, std::less<std::string>>, 1});
#else
PBT_HARNESS(g, {"map_u64_stateful_less_8_8", RULE, kNames, gen, run<MapT<uint64_t, uint64_t, ModLess, Tr<8, 8, 256>>, ModLess>, 1});
PBT_HARNESS(h, {"set_wide_4_4", RULE, kNames, gen, run<SetT<Wide<40>, std::less<Wide<40>>, Tr<4, 4, 256>>, std::less<Wide<40>>>, 1});
PBT_HARNESS(i, {"map_i32_tracked_default", RULE, kNames, gen, run<MapT<int32_t, Tracked, std::less<int32_t>, tlx::btree_default_traits<int32_t, std::pair<int32_t, Tracked>>>, std::less<int32_t>>, 1});
#endif
