// The stand-ins FBTree needs at run time: reclamation by guards, reporting of its own consistency checks.
#include <cstdlib>
#include <malloc.h>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <vector>
#include "epoch.h"
#include "debug.h"
#include "hash.h"
#include "pbt.h"
namespace util {
unsigned hash_bits = 8;
struct Epoch::Impl { std::mutex m; uint64_t clock = 1; std::multiset<uint64_t> open; std::vector<std::pair<uint64_t, void*>> limbo; std::vector<void*> dead; };
struct Frame { Epoch* e; uint64_t start; std::vector<void*> gone; };
static thread_local std::vector<Frame> frames;
// under ASan memory is given back at once; without it, it is overwritten and kept
static void give(std::vector<void*>& dead, void* p) {
#ifdef __SANITIZE_ADDRESS__
  free(p);
#else
  memset(p, 0xdb, malloc_usable_size(p)); dead.push_back(p);
#endif
}
Epoch::Epoch() : d(new Impl) {}
Epoch::~Epoch() { for (auto& x : d->limbo) free(x.second); for (auto p : d->dead) free(p); delete d; }
bool Epoch::guarded() { for (auto& f : frames) if (f.e == this) return true; return false; }
void Epoch::enter() { std::lock_guard<std::mutex> g(d->m); uint64_t t = ++d->clock; d->open.insert(t); frames.push_back({this, t, {}}); }
void Epoch::retire(void* p) { if (!p) return; for (size_t i = frames.size(); i--;) if (frames[i].e == this) { frames[i].gone.push_back(p); return; } pbt::fail("something was retired outside a guard"); }
void Epoch::leave() {
  std::lock_guard<std::mutex> g(d->m); uint64_t t = ++d->clock; Frame f = std::move(frames.back()); frames.pop_back(); d->open.erase(d->open.find(f.start));
  for (auto p : f.gone) d->limbo.push_back({t, p});
  uint64_t first = d->open.empty() ? ~0ull : *d->open.begin(); size_t k = 0;
  for (auto& x : d->limbo) { if (x.first < first) give(d->dead, x.second); else d->limbo[k++] = x; } d->limbo.resize(k);
}
}  // namespace util
#ifndef FB_THREADS
void util_debug_error(const char* what) { pbt::fail("FBTree's own check: %s", what); }
#endif
