// tlx small containers: ring buffer, LRU caches, splay trees, the non-growing vector, and the string view.
#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <tlx/container/lru_cache.hpp>
#include <tlx/container/ring_buffer.hpp>
#include <tlx/container/simple_vector.hpp>
#include <tlx/container/splay_tree.hpp>
#include <tlx/container/string_view.hpp>
#include "pbt.h"
using pbt::Case; using pbt::Obs; using pbt::Op; using pbt::Rng; using std::string; using std::vector;
namespace {
template <int KINDS> Case gops(Rng& r, int size) {
  Case c; c.cfg = {r.below(40), r.next(), r.below(8)}; c.thr.resize(1); size_t n = r.range(1, 20 + size * 2); size_t left = 0; uint32_t fav = 0;
  for (size_t i = 0; i < n; ++i) { if (!left) { fav = (uint32_t)r.below(KINDS); left = r.range(1, 20); } --left; c.thr[0].push_back({r.chance(1, 3) ? fav : (uint32_t)r.below(KINDS), r.chance(3, 4) ? r.below(24) : r.next(), r.next(), r.below(1000)}); }
  return c;
}
// a value that owns memory and knows which places hold a live one
std::set<const void*>& live() { static std::set<const void*> s; return s; }
struct Tr {
  std::unique_ptr<uint64_t> p;
  void in() { PBT_CHECK(live().insert(this).second, "an element is constructed over a live one"); }
  Tr() : p(new uint64_t(0)) { in(); } explicit Tr(uint64_t x) : p(new uint64_t(x)) { in(); } Tr(const Tr& o) { PBT_CHECK(live().count(&o), "copied from a dead element"); p.reset(o.p ? new uint64_t(*o.p) : nullptr); in(); }
  Tr(Tr&& o) noexcept : p(std::move(o.p)) { in(); } Tr& operator=(const Tr& o) { PBT_CHECK(live().count(this) && live().count(&o), "assignment to or from a dead element"); p.reset(new uint64_t(*o.p)); return *this; } Tr& operator=(Tr&& o) noexcept { PBT_CHECK(live().count(this), "assignment to a dead element"); p = std::move(o.p); return *this; }
  ~Tr() { PBT_CHECK(live().erase(this), "a dead element is destroyed"); }
  uint64_t v() const { PBT_CHECK(live().count(this) && p, "a dead or moved-from element is read"); return *p; }
};
// ---- ring buffer
const vector<string> kRing = {"push_back", "push_front", "pop_front", "pop_back", "clear", "copy_ctor", "copy_assign", "move_ctor", "move_assign", "reallocate", "copy_to", "move_to", "archive", "swap_roles"};
struct Ar { vector<uint64_t> d; size_t at = 0; bool out = true; void one(uint64_t& x) { if (out) d.push_back(x); else x = d.at(at++); } void one(Tr& t) { if (out) d.push_back(t.v()); else *t.p = d.at(at++); } template <class T> void io(T& x) { if constexpr (std::is_same_v<T, Tr>) one(x); else { uint64_t y = x; one(y); if (!out) x = (T)y; } } template <class... T> void operator()(T&&... x) { (io(const_cast<std::remove_const_t<std::remove_reference_t<T>>&>(x)), ...); } };
void rring(const Case& c, Obs& o) {
  if (c.thr.empty()) return; using B = tlx::RingBuffer<Tr>; live().clear(); size_t pushed = 0, wraps = 0;
  { struct S { std::unique_ptr<B> b; std::deque<uint64_t> m; size_t cap; bool mem; } s[2];
    auto init = [&](S& x, size_t cap, bool late) { if (late) { x.b.reset(new B); x.b->allocate(cap); } else x.b.reset(new B(cap)); x.m.clear(); x.cap = cap; x.mem = true; };
    init(s[0], c.c(0), c.c(2) & 1); init(s[1], c.c(1) % 40, c.c(2) & 2); if (c.c(2) & 4) { s[1].b.reset(new B); s[1].cap = 0; s[1].mem = false; }
    auto chk = [&](S& x, const char* what) {
      if (!x.mem) return; const B& b = *x.b; PBT_CHECK(b.size() == x.m.size() && b.empty() == x.m.empty() && b.max_size() == x.cap && b.capacity() > x.cap, "%s: size %zu of at most %zu in %zu slots, expected %zu of at most %zu", what, b.size(), b.max_size(), b.capacity(), x.m.size(), x.cap);
      for (size_t i = 0; i < x.m.size(); ++i) PBT_CHECK(b[i].v() == x.m[i] && (*x.b)[i].v() == x.m[i], "%s: element %zu is %llu, expected %llu", what, i, (unsigned long long)b[i].v(), (unsigned long long)x.m[i]);
      if (x.m.size()) PBT_CHECK(b.front().v() == x.m.front() && b.back().v() == x.m.back() && x.b->front().v() == x.m.front() && x.b->back().v() == x.m.back(), "%s: front or back", what);
    };
    int w = 0;
    for (auto& p : c.thr[0]) {
      S &x = s[w], &y = s[!w]; uint32_t kind = p.k % kRing.size(); const char* nm = kRing[kind].c_str(); bool room = x.mem && x.m.size() < x.cap;
      switch (kind) {
        case 0: if (room) { bool self = p.c % 5 == 4 && x.m.size(); uint64_t v = self ? x.m[p.a % x.m.size()] : p.b; if (self) x.b->push_back((*x.b)[p.a % x.m.size()]); else if (p.c % 3 == 0) { Tr t(v); x.b->push_back(t); PBT_CHECK(t.v() == v, "push_back moved from its argument"); } else if (p.c % 3 == 1) x.b->push_back(Tr(v)); else x.b->emplace_back(v); x.m.push_back(v); ++pushed; } break;
        case 1: if (room) { bool self = p.c % 5 == 4 && x.m.size(); uint64_t v = self ? x.m[p.a % x.m.size()] : p.b; if (self) { Tr& e = (*x.b)[p.a % x.m.size()]; x.b->push_front(e); } else if (p.c % 3 == 0) { Tr t(v); x.b->push_front(t); PBT_CHECK(t.v() == v, "push_front moved from its argument"); } else if (p.c % 3 == 1) x.b->push_front(Tr(v)); else x.b->emplace_front(v); x.m.push_front(v); ++pushed; } break;
        case 2: if (x.m.size()) { x.b->pop_front(); x.m.pop_front(); ++wraps; } break;
        case 3: if (x.m.size()) { x.b->pop_back(); x.m.pop_back(); ++wraps; } break;
        case 4: if (p.c < 300) { x.b->clear(); x.m.clear(); } break;
        case 5: if (x.mem) { S t; t.b.reset(new B(*x.b)); t.m = x.m; t.cap = x.cap; t.mem = true; chk(t, "copy"); if (p.c & 1) std::swap(t, x); } break;
        case 6: if (x.mem) { *y.b = *x.b; y.m = x.m; y.cap = x.cap; y.mem = true; chk(y, "copy assigned"); B& z = *x.b; if (p.c & 1) *x.b = z; } break;
        case 7: if (x.mem) { S t; t.b.reset(new B(std::move(*x.b))); t.m = x.m; t.cap = x.cap; t.mem = true; chk(t, "moved"); PBT_CHECK(x.b->empty(), "moved from and not empty"); if (p.c & 1) { x.b->allocate(p.a % 40); x.cap = p.a % 40; x.m.clear(); } else std::swap(x, t); } break;
        case 8: if (x.mem) { *y.b = std::move(*x.b); y.m = x.m; y.cap = x.cap; y.mem = true; chk(y, "move assigned"); PBT_CHECK(x.b->empty(), "moved from and not empty"); x.m.clear(); x.mem = false; if (p.c & 1) { x.b->allocate(p.a % 40); x.cap = p.a % 40; x.mem = true; } } break;
        case 9: { if (x.mem) x.b->deallocate(); x.m.clear(); x.mem = false; if (p.c % 3) { x.b->allocate(p.a % 40); x.cap = p.a % 40; x.mem = true; } break; }
        case 10: if (x.mem) { vector<Tr> v; v.emplace_back(7u); x.b->copy_to(&v); PBT_CHECK(v.size() == x.m.size() + 1 && v[0].v() == 7, "copy_to appends %zu of %zu", v.size() - 1, x.m.size()); for (size_t i = 0; i < x.m.size(); ++i) PBT_CHECK(v[i + 1].v() == x.m[i], "copy_to, element %zu", i); } break;
        case 11: if (x.mem) { vector<Tr> v; x.b->move_to(&v); PBT_CHECK(v.size() == x.m.size(), "move_to gives %zu of %zu", v.size(), x.m.size()); for (size_t i = 0; i < x.m.size(); ++i) PBT_CHECK(v[i].v() == x.m[i], "move_to, element %zu", i); x.m.clear(); } break;
        case 12: if (x.mem) { Ar a; x.b->save(a); a.out = false; y.b->load(a); PBT_CHECK(a.at == a.d.size(), "load reads %zu of the %zu saved items", a.at, a.d.size()); y.m = x.m; y.cap = x.cap; y.mem = true; } break;
        default: w = !w;
      }
      chk(s[0], nm); chk(s[1], nm); size_t want = s[0].m.size() + s[1].m.size(); PBT_CHECK(live().size() == want, "after %s: %zu elements are alive, %zu are stored", nm, live().size(), want);
    }
  }
  PBT_CHECK(live().empty(), "%zu elements are never destroyed", live().size()); o.mark("pushed", pushed); o.nontrivial(pushed >= 3 && wraps >= 2);
}
// ---- LRU caches
const vector<string> kLru = {"put", "touch", "touch_if_exists", "erase", "erase_if_exists", "get", "get_touch", "exists", "pop", "clear", "put_own"};
template <class K> K key(uint64_t x) { if constexpr (std::is_same_v<K, string>) return string(x % 31, 'k') + std::to_string(x); else return (K)x; }
template <class K, bool MAP> void rlru(const Case& c, Obs& o) {
  if (c.thr.empty()) return; std::conditional_t<MAP, tlx::LruCacheMap<K, string>, tlx::LruCacheSet<K>> h; std::deque<std::pair<K, string>> m; size_t pops = 0, touches = 0, thrown = 0, most = 0;
  auto fnd = [&](const K& k) { return std::find_if(m.begin(), m.end(), [&](auto& e) { return e.first == k; }); };
  auto front = [&](auto it) { auto e = *it; m.erase(it); m.push_front(e); ++touches; };
  auto popc = [&]() { auto e = m.back(); m.pop_back(); if constexpr (MAP) { auto g = h.pop(); PBT_CHECK(g.first == e.first && g.second == e.second, "pop gives another element than the least recently used"); } else { K g = h.pop(); PBT_CHECK(g == e.first, "pop gives another key than the least recently used"); } };
  for (auto& p : c.thr[0]) {
    uint32_t kind = p.k % kLru.size(); K k = key<K>(p.a % 24); auto it = fnd(k); bool had = it != m.end(), threw = false; 
    auto thr = [&](auto f) { try { f(); } catch (const std::range_error&) { threw = true; ++thrown; } PBT_CHECK(threw == !had, "%s of a key that is %s %s", kLru[kind].c_str(), had ? "cached" : "not cached", threw ? "throws" : "does not throw"); };
    switch (kind) {
      case 0: { string v = string(p.b % 40, 'v') + std::to_string(p.b); if constexpr (MAP) h.put(k, v); else h.put(k), v = ""; if (had) m.erase(it); m.emplace_front(k, v); break; }
      case 1: thr([&] { h.touch(k); }); if (had) front(it); break;
      case 2: PBT_CHECK(h.touch_if_exists(k) == had, "touch_if_exists"); if (had) front(it); break;
      case 3: thr([&] { h.erase(k); }); if (had) m.erase(it); break;
      case 4: PBT_CHECK(h.erase_if_exists(k) == had, "erase_if_exists"); if (had) m.erase(it); break;
      case 5: if constexpr (MAP) { thr([&] { const string& v = h.get(k); PBT_CHECK(!had || v == it->second, "get gives another value"); }); } break;
      case 6: if constexpr (MAP) { thr([&] { const string& v = h.get_touch(k); PBT_CHECK(!had || v == it->second, "get_touch gives another value"); }); if (had) front(it); } break;
      case 8: if (m.size()) { popc(); ++pops; } break;
      case 9: if (p.c < 200) { h.clear(); m.clear(); } break;
      case 10: if constexpr (MAP) if (had && m.size()) { auto& src = m[p.b % m.size()]; K sk = src.first; string v = src.second; h.put(k, h.get(sk)); m.erase(fnd(k)); m.emplace_front(k, v); } break;
      default: break;
    }
    PBT_CHECK(h.exists(k) == (fnd(k) != m.end()), "after %s: exists is %d", kLru[kind].c_str(), h.exists(k)); PBT_CHECK(h.size() == m.size(), "after %s: size %zu, expected %zu", kLru[kind].c_str(), h.size(), m.size()); most = std::max(most, m.size());
  }
  while (m.size()) popc(); PBT_CHECK(h.size() == 0, "not empty in the end"); o.mark("thrown", thrown); o.nontrivial(most >= 3 && touches);
}
// ---- splay trees
const vector<string> kSpl = {"insert", "erase", "exists", "find", "traverse", "clear", "erase_node", "insert2", "erase_all"};
template <class K, bool DUP, class Cmp> void rspl(const Case& c, Obs& o) {
  if (c.thr.empty()) return; using T = tlx::SplayTree<K, Cmp, DUP>; T t; std::multiset<K, Cmp> m; size_t most = 0, erased = 0; Cmp cmp; const uint64_t U = c.c(2) & 1 ? 6 : 24;
  auto chk = [&](const char* what) { vector<K> a, b(m.begin(), m.end()); t.traverse_preorder([&](const K& k) { a.push_back(k); }); PBT_CHECK(t.size() == b.size() && t.empty() == b.empty(), "%s: size %zu, expected %zu", what, t.size(), b.size()); PBT_CHECK(a == b, "%s: a traversal gives %zu keys, others than the %zu stored or in another order", what, a.size(), b.size()); PBT_CHECK(t.check(), "%s: check() fails", what); };
  for (auto& p : c.thr[0]) {
    uint32_t kind = p.k % kSpl.size(); const char* nm = kSpl[kind].c_str(); K k = key<K>(p.a % U); bool had = m.count(k);
    switch (kind) {
      case 0: case 7: { bool g = t.insert(k); PBT_CHECK(g == (DUP || !had), "insert returns %d", g); if (g) m.insert(k); break; }
      case 1: { bool g = t.erase(k); PBT_CHECK(g == had, "erase returns %d", g); if (had) m.erase(m.find(k)), ++erased; break; }
      case 2: { bool g = t.exists(k); PBT_CHECK(g == had, "exists returns %d", g); break; }
      case 3: case 6: { auto* n = t.find(k); PBT_CHECK((n == nullptr) == m.empty(), "find in a tree of %zu gives %s", m.size(), n ? "a node" : "none"); if (!n) break; K g = n->key; if (had) PBT_CHECK(g == k, "find gives another key than the stored one"); else { auto u = m.upper_bound(k); PBT_CHECK((u != m.end() && g == *u) || (u != m.begin() && g == *std::prev(u)), "find of an absent key gives a key that is no neighbour"); } if (kind == 6) { PBT_CHECK(t.erase((const decltype(n))n), "erase of a found node"); m.erase(m.find(g)); ++erased; } break; }
      case 5: if (p.c < 150) { t.clear(); m.clear(); } break;
      case 8: if (p.c < 200) while (m.count(k)) { PBT_CHECK(t.erase(k), "erase of a stored key returns false"); m.erase(m.find(k)); ++erased; } break;
      default: break;
    }
    chk(nm); most = std::max(most, m.size());
  }
  o.nontrivial(most >= 4 && erased); (void)cmp;
}
// ---- non-growing vector
const vector<string> kVec = {"set", "resize", "fill", "move_ctor", "move_assign", "swap", "destroy", "fresh", "other"};
template <class E, tlx::SimpleVectorMode M> void rvec(const Case& c, Obs& o) {
  if (c.thr.empty()) return; using V = tlx::SimpleVector<E, M>; struct S { std::unique_ptr<V> v; vector<E> m; vector<bool> def; } s[2]; size_t sets = 0, resizes = 0; constexpr bool zero = M == tlx::SimpleVectorMode::Normal && std::is_class_v<E>;
  auto fresh = [&](S& x, size_t n, int how) { if (!n && how) x.v.reset(new V); else x.v.reset(new V(n)); x.m.assign(n, E()); x.def.assign(n, zero); };
  fresh(s[0], c.c(0), 0); fresh(s[1], c.c(1) % 20, (int)c.c(2) & 1); int w = 0;
  auto chk = [&](S& x, const char* what) { const V& v = *x.v; PBT_CHECK(v.size() == x.m.size() && size_t(v.end() - v.begin()) == x.m.size() && v.cbegin() == v.begin() && v.cend() == v.end() && x.v->begin() == v.begin() && x.v->end() == v.end() && v.data() == v.begin() && x.v->data() == v.data(), "%s: size %zu, expected %zu", what, v.size(), x.m.size()); for (size_t i = 0; i < x.m.size(); ++i) if (x.def[i]) PBT_CHECK(v[i] == x.m[i] && (*x.v)[i] == x.m[i] && v.at(i) == x.m[i] && x.v->at(i) == x.m[i], "%s: element %zu is another", what, i); if (x.m.size()) { if (x.def[0]) PBT_CHECK(v.front() == x.m[0] && x.v->front() == x.m[0], "%s: front", what); if (x.def.back()) PBT_CHECK(v.back() == x.m.back() && x.v->back() == x.m.back(), "%s: back", what); } };
  for (auto& p : c.thr[0]) {
    S &x = s[w], &y = s[!w]; uint32_t kind = p.k % kVec.size(); 
    switch (kind) {
      case 0: if (x.m.size()) { size_t i = p.a % x.m.size(); (*x.v)[i] = x.m[i] = key<E>(p.b % 1000); x.def[i] = true; ++sets; } break;
      case 1: { size_t n = p.a % 30; x.v->resize(n); x.m.resize(n, E()); x.def.resize(n, zero); ++resizes; break; }
      case 2: { E e = key<E>(p.b % 1000); if (p.c & 1) x.v->fill(e); else { x.v->fill(); e = E(); } x.m.assign(x.m.size(), e); x.def.assign(x.m.size(), true); break; }
      case 3: { V* n = new V(std::move(*x.v)); PBT_CHECK(x.v->size() == 0 && x.v->begin() == x.v->end(), "moved from and not empty"); x.v.reset(n); break; }
      case 4: { *y.v = std::move(*x.v); y.m = x.m; y.def = x.def; PBT_CHECK(x.v->size() == 0, "moved from and not empty"); x.m.clear(); x.def.clear(); V& z = *y.v; if (p.c & 1) *y.v = std::move(z); break; }
      case 5: x.v->swap(*y.v); std::swap(x.m, y.m); std::swap(x.def, y.def); break;
      case 6: x.v->destroy(); x.m.clear(); x.def.clear(); break;
      case 7: fresh(x, p.a % 30, p.c & 1); break;
      default: w = !w;
    }
    chk(s[0], kVec[kind].c_str()); chk(s[1], kVec[kind].c_str());
  }
  o.nontrivial(sets >= 2 && resizes);
}
// ---- string view
const vector<string> kSv = {"text", "pattern", "query"};
Case gsv(Rng& r, int size) { Case c; c.cfg = {r.below(6), r.next()}; c.thr.resize(1); size_t n = r.range(1, 4 + size / 8); for (size_t i = 0; i < n; ++i) c.thr[0].push_back({(uint32_t)r.below(3), r.next(), r.next(), r.next()}); return c; }
int sg(int x) { return (x > 0) - (x < 0); }
void rsv(const Case& c, Obs& o) {
  if (c.thr.empty()) return; static const string al[] = {"ab", string("a\0b", 3), "a\xff\x7f\x80", string("a\xff\0\x01", 4), "abcdefgh", "a"}; size_t both = 0;
  for (auto& p : c.thr[0]) {
    Rng r(p.a); const string& A = al[(p.b >> 32) % 6]; auto txt = [&](size_t n) { string s; for (size_t i = 0; i < n; ++i) s += A[r.below(A.size())]; return s; };
    string a = txt(r.below(p.k == 0 ? 40 : 12)), b; switch (r.below(5)) { case 0: b = a; break; case 1: b = a.substr(0, r.below(a.size() + 1)); break; case 2: { size_t k = r.below(a.size() + 1); b = a.substr(k, r.below(5)); break; } case 3: b = txt(r.below(4)); break; default: b = a; if (b.size()) b[r.below(b.size())] = A[r.below(A.size())]; b += txt(r.below(2)); }
    // exact heap copies: a read past the end is caught
    vector<char> ha(a.begin(), a.end()), hb(b.begin(), b.end()); ha.shrink_to_fit(); hb.shrink_to_fit(); tlx::StringView x(ha.data(), ha.size()), y(hb.data(), hb.size()); std::string_view X(ha.data(), ha.size()), Y(hb.data(), hb.size());
    size_t pos = r.chance(1, 6) ? string::npos : r.below(a.size() + 4); auto q = [&](const char* f, size_t g, size_t w) { PBT_CHECK(g == w, "%s of %zu characters in %zu from %zd gives %zd, expected %zd", f, b.size(), a.size(), (ssize_t)pos, (ssize_t)g, (ssize_t)w); };
    PBT_CHECK(x.size() == a.size() && x.length() == a.size() && x.empty() == a.empty() && x.to_string() == a && string(x) == a && string(x.begin(), x.end()) == a && string(x.rbegin(), x.rend()) == string(a.rbegin(), a.rend()), "content");
    q("find", x.find(y, pos), X.find(Y, pos)); q("rfind", x.rfind(y, pos), X.rfind(Y, pos)); q("find_first_of", x.find_first_of(y, pos), X.find_first_of(Y, pos)); q("find_last_of", x.find_last_of(y, pos), X.find_last_of(Y, pos)); q("find_first_not_of", x.find_first_not_of(y, pos), X.find_first_not_of(Y, pos)); q("find_last_not_of", x.find_last_not_of(y, pos), X.find_last_not_of(Y, pos));
    q("find default", x.find(y), X.find(Y)); q("rfind default", x.rfind(y), X.rfind(Y)); q("find_last_of default", x.find_last_of(y), X.find_last_of(Y)); q("find_last_not_of default", x.find_last_not_of(y), X.find_last_not_of(Y));
    char ch = A[r.below(A.size())]; q("find char", x.find(ch, pos), X.find(ch, pos)); q("rfind char", x.rfind(ch, pos), X.rfind(ch, pos)); q("find_first_of char", x.find_first_of(ch, pos), X.find_first_of(ch, pos)); q("find_last_of char", x.find_last_of(ch, pos), X.find_last_of(ch, pos)); q("find_first_not_of char", x.find_first_not_of(ch, pos), X.find_first_not_of(ch, pos)); q("find_last_not_of char", x.find_last_not_of(ch, pos), X.find_last_not_of(ch, pos));
    if (b.size()) { size_t n = r.below(b.size() + 1); const char* s = hb.data(); q("find s n", x.find(s, pos, n), X.find(s, pos, n)); q("rfind s n", x.rfind(s, pos, n), X.rfind(s, pos, n)); q("find_first_of s n", x.find_first_of(s, pos, n), X.find_first_of(s, pos, n)); q("find_last_of s n", x.find_last_of(s, pos, n), X.find_last_of(s, pos, n)); q("find_first_not_of s n", x.find_first_not_of(s, pos, n), X.find_first_not_of(s, pos, n)); q("find_last_not_of s n", x.find_last_not_of(s, pos, n), X.find_last_not_of(s, pos, n)); }
    const char* z = b.c_str(); q("find c string", x.find(z, pos), X.find(z, pos)); q("rfind c string", x.rfind(z, pos), X.rfind(z, pos)); q("find_first_of c string", x.find_first_of(z, pos), X.find_first_of(z, pos)); q("find_last_of c string", x.find_last_of(z, pos), X.find_last_of(z, pos)); q("find_first_not_of c string", x.find_first_not_of(z, pos), X.find_first_not_of(z, pos)); q("find_last_not_of c string", x.find_last_not_of(z, pos), X.find_last_not_of(z, pos));
    int w = sg(X.compare(Y)); PBT_CHECK(sg(x.compare(y)) == w && sg(y.compare(x)) == -w, "compare is %d, expected sign %d", x.compare(y), w); PBT_CHECK(sg(x.compare(z)) == sg(X.compare(z)), "compare with a C string");
    PBT_CHECK((x == y) == (w == 0) && (x != y) == (w != 0) && (x < y) == (w < 0) && (x > y) == (w > 0) && (x <= y) == (w <= 0) && (x >= y) == (w >= 0), "comparison operators: expected sign %d", w);
    PBT_CHECK((x == b) == (w == 0) && (x != b) == (w != 0) && (x < b) == (w < 0) && (x > b) == (w > 0) && (x <= b) == (w <= 0) && (x >= b) == (w >= 0), "comparison operators with a string on the right: expected sign %d", w);
    PBT_CHECK((a == y) == (w == 0) && (a != y) == (w != 0) && (a < y) == (w < 0) && (a > y) == (w > 0) && (a <= y) == (w <= 0) && (a >= y) == (w >= 0), "comparison operators with a string on the left: expected sign %d", w);
    int wz = sg(X.compare(z)); PBT_CHECK((x == z) == (wz == 0) && (x != z) == (wz != 0) && (x < z) == (wz < 0) && (x > z) == (wz > 0) && (x <= z) == (wz <= 0) && (x >= z) == (wz >= 0), "comparison operators with a C string on the right"); PBT_CHECK((z == x) == (wz == 0) && (z != x) == (wz != 0) && (z < x) == (wz > 0) && (z > x) == (wz < 0) && (z <= x) == (wz >= 0) && (z >= x) == (wz <= 0), "comparison operators with a C string on the left");
    PBT_CHECK(x.starts_with(y) == (X.substr(0, Y.size()) == Y) && x.ends_with(y) == (X.size() >= Y.size() && X.substr(X.size() - Y.size()) == Y) && x.starts_with(ch) == (a.size() && a[0] == ch) && x.ends_with(ch) == (a.size() && a.back() == ch), "starts_with or ends_with");
    size_t p1 = r.below(a.size() + 1), n1 = r.chance(1, 5) ? string::npos : r.below(a.size() + 3), p2 = r.below(b.size() + 1), n2 = r.below(b.size() + 3); PBT_CHECK(x.substr(p1, n1).to_string() == a.substr(p1, n1), "substr"); PBT_CHECK(sg(x.compare(p1, n1, y)) == sg(a.compare(p1, n1, b)) && sg(x.compare(p1, n1, y, p2, n2)) == sg(a.compare(p1, n1, b, p2, n2)) && sg(x.compare(p1, n1, z)) == sg(a.compare(p1, n1, z)) && sg(x.compare(p1, n1, hb.data(), std::min(n2, b.size()))) == sg(a.compare(p1, n1, b, 0, n2)), "compare of a part");
    vector<char> buf(a.size() + 3, '#'); size_t cn = r.below(a.size() + 3), got = x.copy(buf.data(), cn, p1); PBT_CHECK(got == std::min(cn, a.size() - p1) && !memcmp(buf.data(), a.data() + p1, got) && buf[got] == '#', "copy");
    bool t1 = false, t2 = false, t3 = false; try { x.substr(a.size() + 1 + r.below(3)); } catch (const std::out_of_range&) { t1 = true; } try { x.at(a.size() + r.below(3)); } catch (const std::out_of_range&) { t2 = true; } try { x.copy(buf.data(), 1, a.size() + 1); } catch (const std::out_of_range&) { t3 = true; } PBT_CHECK(t1 && t2 && t3, "a position behind the end is not refused");
    for (size_t i = 0; i < a.size(); ++i) PBT_CHECK(x[i] == a[i] && x.at(i) == a[i], "element"); if (a.size()) PBT_CHECK(x.front() == a[0] && x.back() == a.back(), "front, back");
    auto u = x; size_t k = r.below(a.size() + 3); u.remove_prefix(k); PBT_CHECK(u.to_string() == a.substr(std::min(k, a.size())), "remove_prefix"); u = x; u.remove_suffix(k); PBT_CHECK(u.to_string() == a.substr(0, a.size() - std::min(k, a.size())), "remove_suffix"); auto v = y; u = x; u.swap(v); PBT_CHECK(u.to_string() == b && v.to_string() == a, "swap"); u.clear(); PBT_CHECK(u.empty(), "clear");
    std::ostringstream os; os << x; PBT_CHECK(os.str() == a, "stream output"); PBT_CHECK((w != 0) || std::hash<tlx::StringView>()(x) == std::hash<tlx::StringView>()(y), "equal views hash differently"); { string aa = a; PBT_CHECK(std::hash<tlx::StringView>()(tlx::StringView(aa)) == std::hash<tlx::StringView>()(x) && tlx::StringView(aa) == x && tlx::StringView(aa.c_str()) == std::string_view(aa.c_str()).data(), "views of a copy"); if (aa.size()) PBT_CHECK(tlx::StringView(((const string&)aa).begin() + p1 * (p1 < aa.size()), aa.size() - p1 * (p1 < aa.size())).to_string() == aa.substr(p1 * (p1 < aa.size())), "view from an iterator"); }
    both += a.size() >= 2 && b.size() >= 1;
  }
  o.nontrivial(both);
}
#define RR "random operations on two ring buffers of small sizes holding elements that know when they are alive, against deques; non-trivial: three pushed, two popped"
#define RU "random operations on a cache over 24 keys against a list in recency order; non-trivial: three keys at once and one touched"
#define RP "random operations on a splay tree over few keys against a multiset, with a full traversal after every operation; non-trivial: four keys at once and one erased"
#define RV "random operations on two non-growing vectors against plain vectors; non-trivial: two elements set and one resize"
#define RS "pairs of related strings over tiny alphabets (with NUL and bytes above 0x7f), every search and comparison against std::string_view, in memory blocks of exactly their size; non-trivial: two characters and a non-empty pattern"
PBT_HARNESS(r, {"ring", RR, kRing, gops<14>, rring, 4});
PBT_HARNESS(u1, {"lru_set_u32", RU, kLru, gops<11>, rlru<uint32_t, false>, 1});
PBT_HARNESS(u2, {"lru_set_string", RU, kLru, gops<11>, rlru<string, false>, 1});
PBT_HARNESS(u3, {"lru_map_u32", RU, kLru, gops<11>, rlru<uint32_t, true>, 1});
PBT_HARNESS(u4, {"lru_map_string", RU, kLru, gops<11>, rlru<string, true>, 1});
using Ls = std::less<string>; using Lu = std::less<uint32_t>; using Gs = std::greater<string>; using Gu = std::greater<uint32_t>;
PBT_HARNESS(s1, {"splay_set_u32", RP, kSpl, gops<9>, rspl<uint32_t, false, Lu>, 1});
PBT_HARNESS(s2, {"splay_set_string", RP, kSpl, gops<9>, rspl<string, false, Gs>, 1});
PBT_HARNESS(s3, {"splay_multiset_u32", RP, kSpl, gops<9>, rspl<uint32_t, true, Gu>, 2});
PBT_HARNESS(s4, {"splay_multiset_string", RP, kSpl, gops<9>, rspl<string, true, Ls>, 1});
using MD = tlx::SimpleVectorMode;
PBT_HARNESS(v1, {"vector_string", RV, kVec, gops<9>, rvec<string, MD::Normal>, 1});
PBT_HARNESS(v2, {"vector_u32", RV, kVec, gops<9>, rvec<uint32_t, MD::Normal>, 1});
PBT_HARNESS(v3, {"vector_u32_noinit", RV, kVec, gops<9>, rvec<uint32_t, MD::NoInitButDestroy>, 1});
PBT_HARNESS(v4, {"vector_u32_nodestroy", RV, kVec, gops<9>, rvec<uint32_t, MD::NoInitNoDestroy>, 1});
PBT_HARNESS(w, {"string_view", RS, kSv, gsv, rsv, 4});
}  // namespace
