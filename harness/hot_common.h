#pragma once
#include <deque>
#include <memory>
#include <algorithm>
#include <hot/rowex/HOTRowex.hpp>
#include <idx/contenthelpers/OptionalValue.hpp>
#include "hot.h"
struct IntRec { uint64_t key, val, id; };
struct StrRec { uint64_t val, id; char key[]; };
template <class R> struct IntKey { typedef uint64_t KeyType; inline KeyType operator()(const IntRec* r) { return r->key; } };
template <class R> struct StrKey { typedef const char* KeyType; inline KeyType operator()(const StrRec* r) { return r->key; } };
struct IntT {
  using Rec = IntRec; using K = uint64_t; using Tree = hot::rowex::HOTRowex<IntRec*, IntKey>; static constexpr bool kStr = false;
  template <class P> static K key(const P& p, uint64_t id) { return p.num[id]; }
  template <class P> static Rec* make(const P& p, uint64_t id, uint64_t v) { auto* r = (Rec*)malloc(sizeof(Rec)); r->key = p.num[id]; r->val = v; r->id = id; return r; }
};
struct StrT {
  using Rec = StrRec; using K = const char*; using Tree = hot::rowex::HOTRowex<StrRec*, StrKey>; static constexpr bool kStr = true;
  template <class P> static K key(const P& p, uint64_t id) { return p.key[id].c_str(); }
  template <class P> static Rec* make(const P& p, uint64_t id, uint64_t v) { const std::string& s = p.key[id]; auto* r = (Rec*)malloc(sizeof(Rec) + s.size() + 1); r->val = v; r->id = id; memcpy(r->key, s.c_str(), s.size() + 1); return r; }
};
