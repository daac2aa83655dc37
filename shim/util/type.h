// Stand-in for the repository's "util" submodule, which is not part of the sources here: the types FBTree names.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
#include <ostream>
#include <string>
#include <utility>
namespace util {
struct String {
  int len; char str[];
  static String* make_string(const char* s, int n) { return make_string((String*)malloc(sizeof(String) + n), s, n); }
  static String* make_string(String* p, const char* s, int n) { p->len = n; memcpy(p->str, s, n); return p; }
  static int cmp(const String& a, const String& b) { int n = a.len < b.len ? a.len : b.len; int c = memcmp(a.str, b.str, n); return c ? c : a.len < b.len ? -1 : a.len > b.len; }
  bool operator<(const String& o) const { return cmp(*this, o) < 0; }
  bool operator>(const String& o) const { return cmp(*this, o) > 0; }
  bool operator==(const String& o) const { return len == o.len && !memcmp(str, o.str, len); }
};
template <class K, class V> struct KVPair { K key; V value; };
template <class V> struct KVPair<String, V> {
  V value; String key;
  template <class W> static KVPair* make_kv(const char* k, int n, W&& v) { void* p = malloc(sizeof(KVPair) + n); KVPair* kv = (KVPair*)p; new (&kv->value) V(std::forward<W>(v)); kv->key.len = n; memcpy(kv->key.str, k, n); return kv; }
};
}  // namespace util
