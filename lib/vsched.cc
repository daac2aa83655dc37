#include "vsched.h"
#include "pbt.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>

namespace sched {
namespace {
struct T { std::atomic<int> go{0}; bool runnable = false; uint64_t stalled_until = 0; };
struct State {
  std::unique_ptr<T[]> t; int n = 0, left = 0, cur = -1;
  pbt::Rng rng{1}; Plan p; uint64_t points = 0, switches = 0; int64_t budget = 0, drawn = 0;
};
State* S = nullptr;
thread_local int me = -1;               // >=0: controlled thread
thread_local uint64_t freerng = 0;      // !=0: free thread
std::atomic<uint64_t> g_stamp{1};

void fwait(std::atomic<int>* a) {
  for (int i = 0; i < 100; ++i) { if (a->load(std::memory_order_acquire)) { a->store(0, std::memory_order_relaxed); return; } __builtin_ia32_pause(); }
  while (!a->load(std::memory_order_acquire)) syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  a->store(0, std::memory_order_relaxed);
}
void fwake(std::atomic<int>* a) { a->store(1, std::memory_order_release); syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

int64_t draw() {
  // geometric-ish with heavy tail
  double u = (double)(S->rng.next() >> 11) / 9007199254740992.0;
  double d = -std::log(1 - u) * S->p.quantum;
  int64_t b = (int64_t)d + 1;
  if (b > 4000) b = 4000;
  return b;
}
int choose(bool may_self) {
  int cand[64], n = 0, all[64], m = 0;
  for (int i = 0; i < S->n; ++i) {
    if (!S->t[i].runnable) continue;
    if (i == me && !may_self) continue;
    all[m++] = i;
    if (S->t[i].stalled_until <= S->points) cand[n++] = i;
  }
  if (n) return cand[S->rng.below(n)];
  if (m) return all[S->rng.below(m)];
  return -1;
}
void account() {
  S->points += S->drawn - (S->budget > 0 ? S->budget : 0);
  if (S->points > S->p.max_points) { S->drawn = S->budget = 0; int s = me; me = -1; (void)s; pbt::fail("no progress: %llu scheduling points without all operations ending (livelock or deadlock)", (unsigned long long)S->points); }
}
void reschedule(bool aside = false) {
  account();
  if (aside) S->t[me].stalled_until = S->points + S->rng.below(S->rng.below(4) ? 1500 : 20000);
  else if (S->rng.below(100) < S->p.stall) S->t[me].stalled_until = S->points + S->rng.below(S->rng.below(10) ? 6000 : 300000);
  int nx = choose(false);
  S->drawn = S->budget = draw();
  if (nx < 0) return;
  int self = me;
  S->cur = nx; S->switches++;
  fwake(&S->t[nx].go);
  fwait(&S->t[self].go);
}
inline void point() {
  if (me >= 0) { if (--S->budget <= 0) reschedule(); }
  else if (freerng) {
    freerng = freerng * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t x = freerng >> 40;
    if ((x & 0x1ff) == 0) { for (int i = 0; i < (int)((x >> 9) & 0x7f); ++i) __builtin_ia32_pause(); if ((x & 0xffff) == 0) sched_yield(); }
  }
}
inline void updated(unsigned times = 1) { if (me >= 0 && S->p.after_rmw && S->rng.below(1000 * times) < S->p.after_rmw) reschedule(true); }
}  // namespace

bool active() { return me >= 0; }
void pause() { if (me >= 0) reschedule(); else sched_yield(); }
void yield_point() { point(); }
uint64_t stamp() { return g_stamp.fetch_add(1); }

Plan plan(bool controlled, uint64_t seed, uint64_t style) {
  static const unsigned q[] = {3, 8, 20, 50, 120, 300, 800, 2500};
  static const unsigned st[] = {0, 10, 40};
  Plan p; p.controlled = controlled; p.seed = seed; p.quantum = q[style % 8]; p.stall = st[(style / 8) % 3];
  if (style % 32 >= 24) { static const unsigned q2[] = {20, 60, 300, 2500}, ar[] = {30, 120}; p.quantum = q2[style % 4]; p.stall = 5; p.after_rmw = ar[(style / 4) % 2]; }
  return p;
}

Stats run(const Plan& p, const std::vector<std::function<void()>>& bodies) {
  Stats st; int n = (int)bodies.size();
  if (p.controlled) {
    State s; s.t.reset(new T[n]); s.n = s.left = n; s.p = p; s.rng.reseed(p.seed);
    for (int i = 0; i < n; ++i) s.t[i].runnable = true;
    S = &s;
    std::vector<std::thread> th; std::atomic<int> fin{0};
    for (int i = 0; i < n; ++i)
      th.emplace_back([&, i] {
        fwait(&s.t[i].go);
        me = i;
        bodies[i]();
        account();
        s.t[i].runnable = false; s.left--;
        int nx = choose(false); s.drawn = s.budget = draw();
        me = -1;
        if (nx >= 0) { s.cur = nx; fwake(&s.t[nx].go); }
      });
    s.drawn = s.budget = draw();
    int first = (int)s.rng.below(n); s.cur = first;
    fwake(&s.t[first].go);
    for (auto& t : th) t.join();
    S = nullptr; st.points = s.points; st.switches = s.switches;
  } else {
    std::atomic<int> ready{0}; std::vector<std::thread> th;
    for (int i = 0; i < n; ++i)
      th.emplace_back([&, i] {
        ready++; while (ready.load() < n) __builtin_ia32_pause();
        freerng = pbt::Rng::mix(p.seed + i * 77) | 1;
        bodies[i]();
        freerng = 0;
      });
    for (auto& t : th) t.join();
  }
  return st;
}
}  // namespace sched

// ---------------------------------------------------------------- instrumentation entry points
using sched::point;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void*) { point(); } void __tsan_write##n(void*) { point(); } \
  void __tsan_volatile_read##n(void*) { point(); } void __tsan_volatile_write##n(void*) { point(); } \
  void __tsan_unaligned_read##n(void*) { point(); } void __tsan_unaligned_write##n(void*) { point(); } \
  void __tsan_unaligned_volatile_read##n(void*) { point(); } void __tsan_unaligned_volatile_write##n(void*) { point(); } \
  void __tsan_read_write##n(void*) { point(); } void __tsan_unaligned_read_write##n(void*) { point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { point(); }
void __tsan_write_range(void*, unsigned long) { point(); }
void __tsan_vptr_update(void**, void*) { point(); }
void __tsan_vptr_read(void**) { point(); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); point(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { point(); T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); sched::updated(4); return r; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); sched::updated(); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { point(); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); sched::updated(); return r; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { point(); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); sched::updated(); return r; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { point(); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); sched::updated(); return r; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { point(); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); sched::updated(); return r; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { point(); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); sched::updated(); return r; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { point(); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); sched::updated(); return r; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { point(); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); sched::updated(); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point(); int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) sched::updated(); return r; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point(); int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) sched::updated(); return r; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
#ifdef SCHED_ATOMIC128
AT(128, unsigned __int128)
#endif

// ---------------------------------------------------------------- blocking calls
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (sched::active()) { int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) sched::pause(); return r; }
  REAL(int, pthread_mutex_lock, pthread_mutex_t*); return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (sched::active()) { int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) sched::pause(); return r; }
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*); return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (sched::active()) { int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) sched::pause(); return r; }
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*); return real(m);
}
int pthread_spin_lock(pthread_spinlock_t* m) {
  if (sched::active()) { int r; while ((r = pthread_spin_trylock(m)) == EBUSY) sched::pause(); return r; }
  REAL(int, pthread_spin_lock, pthread_spinlock_t*); return real(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (sched::active()) { pthread_mutex_unlock(m); sched::pause(); return pthread_mutex_lock(m); }   // a spurious wake-up
  REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*); return real(c, m);
}
int sched_yield() {
  if (sched::active()) { sched::pause(); return 0; }
  return (int)syscall(SYS_sched_yield);
}
int nanosleep(const timespec* a, timespec* b) {
  if (sched::active()) { sched::pause(); return 0; }
  return (int)syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) {
  if (sched::active()) { sched::pause(); return 0; }
  long r = syscall(SYS_clock_nanosleep, c, f, a, b); return r < 0 ? errno : 0;
}
int usleep(useconds_t u) {
  if (sched::active()) { sched::pause(); return 0; }
  timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr);
}
unsigned sleep(unsigned s) {
  if (sched::active()) { sched::pause(); return 0; }
  timespec t{(time_t)s, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0;
}
}
