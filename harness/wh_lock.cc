// Wormhole lib.c: spinlock, mutex, reader-writer lock.
#include <csignal>
extern "C" {
#include "lib.h"
}
#include "vlock.h"
using namespace lk;
static void sigs() { for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL); }
struct RW {
  struct Tok {}; rwlock l[3];
  RW(const Case&, int) { sigs(); for (auto& x : l) rwlock_init(&x); }
  static const std::vector<Kind>& kinds() {
    static const std::vector<Kind> k = {{"trylock_read", SHARED, true}, {"trylock_read_lp", SHARED, true}, {"trylock_read_nr", SHARED, true}, {"lock_read", SHARED, false}, {"trylock_write", EXCL, true}, {"trylock_write_nr", EXCL, true}, {"lock_write", EXCL, false}, {"trylock_write_hp", EXCL, true},
      {"trylock_write_hp_nr", EXCL, true}, {"lock_write_hp", EXCL, false}, {"lock_write, write_to_read", EXCL, false, true}, {"lock_write_hp, write_to_read", EXCL, false, true}, {"trylock_write, write_to_read", EXCL, true, true}}; return k; }
  void tbegin(int) {} void tend(int) {}
  bool acquire(int k, const Op& op, int i, Tok&) {
    rwlock* x = &l[i]; u16 nr = op.b % 20;
    switch (k) { case 0: return rwlock_trylock_read(x); case 1: return rwlock_trylock_read_lp(x); case 2: return rwlock_trylock_read_nr(x, nr); case 3: rwlock_lock_read(x); return true; case 4: return rwlock_trylock_write(x); case 5: return rwlock_trylock_write_nr(x, nr);
      case 6: rwlock_lock_write(x); return true; case 7: return rwlock_trylock_write_hp(x); case 8: return rwlock_trylock_write_hp_nr(x, nr); case 9: rwlock_lock_write_hp(x); return true; case 10: rwlock_lock_write(x); return true; case 11: rwlock_lock_write_hp(x); return true; default: return rwlock_trylock_write(x); }
  }
  void downgrade(int i, Tok&) { rwlock_write_to_read(&l[i]); }
  void release(int i, int m, Tok&) { if (m == EXCL) rwlock_unlock_write(&l[i]); else rwlock_unlock_read(&l[i]); }
  template <class F> bool read(int, int, F) { return false; }
  bool idle(int i) { if (!rwlock_trylock_write(&l[i])) return false; if (rwlock_trylock_read(&l[i]) || rwlock_trylock_read_lp(&l[i]) || rwlock_trylock_read_nr(&l[i], 3) || rwlock_trylock_write(&l[i]) || rwlock_trylock_write_hp(&l[i]) || rwlock_trylock_write_hp_nr(&l[i], 2)) return false; rwlock_unlock_write(&l[i]);
    if (!rwlock_trylock_read_lp(&l[i]) || !rwlock_trylock_read(&l[i])) return false; if (rwlock_trylock_write(&l[i]) || rwlock_trylock_write_nr(&l[i], 2)) return false; rwlock_unlock_read(&l[i]); if (rwlock_trylock_write(&l[i])) return false; rwlock_unlock_read(&l[i]); if (!rwlock_trylock_write_hp(&l[i])) return false; rwlock_write_to_read(&l[i]); if (rwlock_trylock_write(&l[i]) || !rwlock_trylock_read(&l[i])) return false; rwlock_unlock_read(&l[i]); rwlock_unlock_read(&l[i]); return rwlock_trylock_write(&l[i]); }
};
template <int M> struct Ex {
  struct Tok {}; union { spinlock s; mutex m; } l[3];
  Ex(const Case&, int) { sigs(); for (auto& x : l) { if (M) mutex_init(&x.m); else spinlock_init(&x.s); } }
  ~Ex() { if (M) for (auto& x : l) mutex_deinit(&x.m); }
  static const std::vector<Kind>& kinds() { static const std::vector<Kind> k = {{M ? "mutex_lock" : "spinlock_lock", EXCL, false}, {M ? "mutex_trylock" : "spinlock_trylock", EXCL, true}}; return k; }
  void tbegin(int) {} void tend(int) {}
  bool acquire(int k, const Op&, int i, Tok&) { if (k) return M ? mutex_trylock(&l[i].m) : spinlock_trylock(&l[i].s); if (M) mutex_lock(&l[i].m); else spinlock_lock(&l[i].s); return true; }
  void downgrade(int, Tok&) {}
  void release(int i, int, Tok&) { if (M) mutex_unlock(&l[i].m); else spinlock_unlock(&l[i].s); }
  template <class F> bool read(int, int, F) { return false; }
  bool idle(int i) { Tok t; Op op{}; if (!acquire(1, op, i, t)) return false; bool again = acquire(1, op, i, t); release(i, EXCL, t); return !again; }
};
#define H(id, name, A, ctl, w) PBT_HARNESS(id, {name, kRule, names(A::kinds()), [](Rng& r, int s) { return gen(r, s, ctl, A::kinds().size()); }, [](const Case& c, Obs& o) { run<A>(c, o); }, w, !ctl, 30})
H(a, "sched_rw", RW, true, 8); H(b, "sched_spin", Ex<0>, true, 1); H(d, "sched_mutex", Ex<1>, true, 1); H(e, "free_rw", RW, false, 2); H(f, "free_spin", Ex<0>, false, 1); H(g, "free_mutex", Ex<1>, false, 1);
