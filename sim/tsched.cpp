#include "tsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
extern "C" { extern char __data_start, _end; }
namespace sim::ts {
struct Thread {
  int id = 0; sem_t sem; uint64_t k = 0, next = ~0ull, since = 0; bool done = false, blocked = false; const void *cond = nullptr; uintptr_t slo = 0, shi = 0;
  std::vector<std::pair<uint64_t, int>> plan; size_t pi = 0; std::vector<int> blk; size_t bi = 0; int endto = -1;
};
enum { OFF, RECORD, RUN };
static __thread int active __attribute__((tls_model("initial-exec"))) = OFF; // what this thread's accesses do
static __thread Thread *me __attribute__((tls_model("initial-exec")));
static Thread T[MAXT]; static int NT; static sem_t main_sem, quit_sem[MAXT]; static Params P; static Rng rng(1); static bool running;
static uint64_t total, nswitch, shash, rec_k;
static uint64_t *pts; static size_t npts, pti; // change points, over all accesses
static uint64_t next_other;
// ---- globals that some call writes (8-byte words)
static const uint32_t HB = 1 << 16; static uint64_t *hot; // shared table, open addressing
static bool in_globals(uintptr_t a) { return a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end; }
static bool hot_find(uintptr_t w, bool add) {
  for (uint32_t i = (uint32_t)((w * 0x9e3779b97f4a7c15ull) >> 48), n = 0; n < 64; n++, i++) { uint64_t &c = hot[i & (HB - 1)]; if (c == w) return true; if (!c) { if (add) c = w; return add; } }
  return false;
}
// ---- words touched, with the last thread to do so
struct Gran { uintptr_t w; uint8_t last, wrote, shared; };
static const uint32_t GB = 1 << 18; static Gran *gran;
void share_hot() { if (!hot) hot = (uint64_t *)mmap(0, HB * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); else memset(hot, 0, HB * 8); }
void record(bool on) { active = on ? RECORD : OFF; if (on) rec_k = 0; }
uint64_t recorded() { return rec_k; }
uint64_t schedule_hash() { return shash; }

static int choose_other(int not_id) { // runnable and not blocked, other than not_id
  int c[MAXT], n = 0; for (int i = 0; i < NT; i++) if (i != not_id && !T[i].done && !T[i].blocked) c[n++] = i;
  if (!n) return -1; return P.explicit_ ? c[0] : c[rng.below(n)];
}
static void pass_to(int to) { sem_post(&T[to].sem); }
static void wait_turn(Thread *t) { while (sem_wait(&t->sem)) {} }
static void log_switch(Thread *t, uint64_t at, int to, const char *why) {
  shash = mix(shash, (uint64_t)t->id << 40 ^ at << 8 ^ (uint64_t)to); nswitch++; count(C_f_switch);
  if (!P.explicit_) { char b[96]; int n = snprintf(b, sizeof b, "%s thread=%d at=%llu to=%d", why, t->id, (unsigned long long)at, to); extra_line(std::string(b, n)); }
  int a = active; active = OFF; ev("%s: thread %d at access %llu, on to thread %d", why, t->id, (unsigned long long)at, to); active = a;
}
static void switch_to(Thread *t, int to, const char *why) { int a = active; active = OFF; log_switch(t, t->k, to, why); t->since = 0; pass_to(to); wait_turn(t); active = a; }
// The current thread cannot go on until another has done something.
static void block(Thread *t, const char *what) {
  t->blocked = true; count(C_p_blocked); int to = -1;
  if (P.explicit_ && t->bi < t->blk.size()) { to = t->blk[t->bi++]; if (to < 0 || to >= NT || T[to].done || T[to].blocked || to == t->id) to = -1; }
  if (to < 0) to = choose_other(t->id);
  if (to < 0) { active = OFF; violate(std::string("deadlock:") + what, std::string("every thread is waiting: ") + what); }
  switch_to(t, to, "wait"); t->blocked = false;
}
static void wake_all() { for (int i = 0; i < NT; i++) if (!T[i].cond) T[i].blocked = false; }
static void pick_other() { next_other = P.po ? total + 1 + rng.below(2 * P.po) : ~0ull; }

static void decide(Thread *t, const void *p, bool write, int kind) { // kind 0 plain, 1 atomic, 2 no address
  t->k++; total++; t->since++;
  if (P.explicit_) {
    if (t->k == t->next) { int to = t->plan[t->pi].second; t->pi++; t->next = t->pi < t->plan.size() ? t->plan[t->pi].first : ~0ull; if (to >= 0 && to < NT && to != t->id && !T[to].done && !T[to].blocked) switch_to(t, to, "switch"); }
    if (t->since > 100000) { int to = choose_other(t->id); if (to >= 0) switch_to(t, to, "switch"); }
    if (total > P.limit) { active = OFF; violate("stuck", "the threads do not finish: more than ten times the accesses of the same calls made alone"); }
    return;
  }
  bool go = false;
  if (kind == 1) go = rng.below(1000) < (uint64_t)P.pa;
  else if (kind == 0) {
    uintptr_t a = (uintptr_t)p;
    if (a < t->slo || a >= t->shi) {
      uintptr_t w = a >> 3; bool g = in_globals(a);
      if (g && write && !hot_find(w, false)) hot_find(w, true);
      if (g && hot_find(w, false)) { count(C_p_global); go = rng.below(1000) < (uint64_t)P.pg; }
      Gran &q = gran[(w * 0x9e3779b97f4a7c15ull) >> 46];
      if (q.w != w) { q.w = w; q.wrote = 0; q.shared = 0; }
      else if (q.last != t->id && (q.wrote || write)) { if (!q.shared) count(C_p_conflict); q.shared = 1; }
      q.last = t->id; q.wrote |= write;
      if (q.shared && !g) go = go || rng.below(1000) < (uint64_t)P.ps;
    }
  }
  if (nswitch > 2500) go = false;
  if (total >= next_other) { if (nswitch <= 4000) go = true; pick_other(); }
  if (pti < npts && total >= pts[pti]) { while (pti < npts && total >= pts[pti]) pti++; go = true; }
  if (t->since > 100000) go = true;
  if (total > P.limit) { active = OFF; violate("stuck", "the threads do not finish: more than ten times the accesses of the same calls made alone"); }
  if (!go) return;
  int to = choose_other(t->id); if (to >= 0) switch_to(t, to, "switch");
}
static inline __attribute__((always_inline)) void access_(const void *p, bool write, int kind = 0) {
  if (active == OFF) return;
  if (active == RECORD) { rec_k++; if (write && kind != 2 && in_globals((uintptr_t)p)) hot_find((uintptr_t)p >> 3, true); return; }
  decide(me, p, write, kind);
}
static void range_(const void *p, size_t n, bool write) { if (active == OFF) return; if (n > 64) n = 64; for (size_t i = 0; i == 0 || i < n; i += 8) access_((const char *)p + i, write); }
static void yield_() { if (active == RUN) { int to = choose_other(me->id); if (to >= 0 && !P.explicit_) switch_to(me, to, "switch"); else if (to >= 0) { me->k++; } } }

static std::vector<std::function<void()>> const *g_bodies;
static void finish(Thread *t);
static void *thread_main(void *v) { // threads end one after another, after everything is over
  finish((Thread *)v); while (sem_wait(&quit_sem[((Thread *)v)->id])) {} return 0;
}
static void finish(Thread *t) {
  me = t; wait_turn(t); active = RUN;
  try { (*g_bodies)[t->id](); } catch (...) { active = OFF; harness_error("a thread body threw"); }
  active = OFF; t->done = true; wake_all(); for (int i = 0; i < NT; i++) if (T[i].cond) T[i].blocked = true;
  int left = 0; for (int i = 0; i < NT; i++) left += !T[i].done;
  if (!left) { sem_post(&main_sem); return; }
  int to = P.explicit_ && t->endto >= 0 && t->endto < NT && !T[t->endto].done && !T[t->endto].blocked ? t->endto : choose_other(t->id);
  if (to < 0) violate("deadlock:end", "a thread waits for something that nobody is left to do");
  log_switch(t, t->k, to, "end"); pass_to(to);
}
void run(const Params &p, const std::vector<std::function<void()>> &bodies) {
  P = p; NT = (int)bodies.size(); g_bodies = &bodies; rng.reseed(mix(p.seed, 0x7a1)); total = nswitch = 0; shash = 0x77; sem_init(&main_sem, 0, 0);
  if (!gran) gran = (Gran *)mmap(0, GB * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (!hot) share_hot();
  static uint64_t pp[16]; npts = std::min(p.pct, 16); pti = 0; pts = pp; for (size_t i = 0; i < npts; i++) pp[i] = 1 + rng.below(p.expect); std::sort(pp, pp + npts); pick_other();
  cpu_set_t cs; CPU_ZERO(&cs); int cpu = sched_getcpu(); if (cpu >= 0) { CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); } // hand-overs stay on one processor
  for (int i = 0; i < NT; i++) { T[i].id = i; sem_init(&T[i].sem, 0, 0); sem_init(&quit_sem[i], 0, 0); }
  int first = 0, nf = 0;
  for (auto &s : p.sw) { int t = s.first.first; long long at = s.first.second; if (t == -1) { first = s.second; nf++; continue; } if (t < 0 || t >= NT) continue; if (at == -1) T[t].blk.push_back(s.second); else if (at == -2) T[t].endto = s.second; else T[t].plan.push_back({(uint64_t)at, s.second}); }
  for (int i = 0; i < NT; i++) { std::stable_sort(T[i].plan.begin(), T[i].plan.end(), [](auto &a, auto &b) { return a.first < b.first; }); T[i].next = T[i].plan.empty() ? ~0ull : T[i].plan[0].first; }
  if (!P.explicit_) { first = (int)rng.below(NT); extra_line("explicit"); extra_line(sprintf_s("first to=%d", first)); }
  if (first < 0 || first >= NT) first = 0;
  pthread_t th[MAXT]; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 0; i < NT; i++) { if (pthread_create(&th[i], &at, thread_main, &T[i])) harness_error("pthread_create"); pthread_attr_t q; pthread_getattr_np(th[i], &q); void *lo; size_t n; pthread_attr_getstack(&q, &lo, &n); T[i].slo = (uintptr_t)lo; T[i].shi = (uintptr_t)lo + n; pthread_attr_destroy(&q); }
  running = true; pass_to(first); while (sem_wait(&main_sem)) {} running = false;
  for (int i = 0; i < NT; i++) { sem_post(&quit_sem[i]); pthread_join(th[i], 0); }
  count(C_accesses, total); count(C_steps, nswitch);
}
} // namespace sim::ts

using namespace sim::ts;
#define A extern "C" __attribute__((visibility("default")))
// ---------------------------------------------------------------- compiler-inserted calls
A void __tsan_init() {}
A void __tsan_func_entry(void *) { access_(0, false, 2); }
A void __tsan_func_exit() {}
#define RW(n) A void __tsan_read##n(void *p) { access_(p, false); } A void __tsan_write##n(void *p) { access_(p, true); } \
  A void __tsan_read##n##_pc(void *p, void *) { access_(p, false); } A void __tsan_write##n##_pc(void *p, void *) { access_(p, true); } \
  A void __tsan_volatile_read##n(void *p) { access_(p, false); } A void __tsan_volatile_write##n(void *p) { access_(p, true); } \
  A void __tsan_unaligned_volatile_read##n(void *p) { access_(p, false); } A void __tsan_unaligned_volatile_write##n(void *p) { access_(p, true); } \
  A void __tsan_unaligned_read##n(void *p) { access_(p, false); } A void __tsan_unaligned_write##n(void *p) { access_(p, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
A void __tsan_read_range(void *p, size_t n) { range_(p, n, false); }
A void __tsan_write_range(void *p, size_t n) { range_(p, n, true); }
A void __tsan_vptr_update(void **p, void *) { access_(p, true); }
A void __tsan_vptr_read(void **p) { access_(p, false); }
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32; typedef unsigned long u64; typedef unsigned __int128 u128;
#define AT(b, t) \
  A t __tsan_atomic##b##_load(const volatile t *p, int) { access_((void *)p, false, 1); return __atomic_load_n(p, 5); } \
  A void __tsan_atomic##b##_store(volatile t *p, t v, int) { access_((void *)p, true, 1); __atomic_store_n(p, v, 5); wake_all(); } \
  A t __tsan_atomic##b##_exchange(volatile t *p, t v, int) { access_((void *)p, true, 1); return __atomic_exchange_n(p, v, 5); } \
  A t __tsan_atomic##b##_fetch_add(volatile t *p, t v, int) { access_((void *)p, true, 1); return __atomic_fetch_add(p, v, 5); } \
  A t __tsan_atomic##b##_fetch_sub(volatile t *p, t v, int) { access_((void *)p, true, 1); return __atomic_fetch_sub(p, v, 5); } \
  A t __tsan_atomic##b##_fetch_and(volatile t *p, t v, int) { access_((void *)p, true, 1); return __atomic_fetch_and(p, v, 5); } \
  A t __tsan_atomic##b##_fetch_or(volatile t *p, t v, int) { access_((void *)p, true, 1); return __atomic_fetch_or(p, v, 5); } \
  A t __tsan_atomic##b##_fetch_xor(volatile t *p, t v, int) { access_((void *)p, true, 1); return __atomic_fetch_xor(p, v, 5); } \
  A t __tsan_atomic##b##_fetch_nand(volatile t *p, t v, int) { access_((void *)p, true, 1); return __atomic_fetch_nand(p, v, 5); } \
  A int __tsan_atomic##b##_compare_exchange_strong(volatile t *p, t *c, t v, int, int) { access_((void *)p, true, 1); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  A int __tsan_atomic##b##_compare_exchange_weak(volatile t *p, t *c, t v, int, int) { access_((void *)p, true, 1); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  A t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t c, t v, int, int) { access_((void *)p, true, 1); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
A void __tsan_atomic_thread_fence(int) {} A void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- C library calls the compiler does not instrument
#define REAL(r, n, args) extern "C" r __real_##n args;
REAL(void *, memcpy, (void *, const void *, size_t)) A void *__wrap_memcpy(void *d, const void *s, size_t n) { range_(s, n, false); range_(d, n, true); return __real_memcpy(d, s, n); }
REAL(void *, memmove, (void *, const void *, size_t)) A void *__wrap_memmove(void *d, const void *s, size_t n) { range_(s, n, false); range_(d, n, true); return __real_memmove(d, s, n); }
REAL(void *, memset, (void *, int, size_t)) A void *__wrap_memset(void *d, int c, size_t n) { range_(d, n, true); return __real_memset(d, c, n); }
REAL(int, memcmp, (const void *, const void *, size_t)) A int __wrap_memcmp(const void *a, const void *b, size_t n) { range_(a, n, false); range_(b, n, false); return __real_memcmp(a, b, n); }
REAL(size_t, strlen, (const char *)) A size_t __wrap_strlen(const char *s) { access_(s, false); return __real_strlen(s); }
REAL(char *, strcpy, (char *, const char *)) A char *__wrap_strcpy(char *d, const char *s) { access_(s, false); access_(d, true); return __real_strcpy(d, s); }
REAL(char *, strncpy, (char *, const char *, size_t)) A char *__wrap_strncpy(char *d, const char *s, size_t n) { access_(s, false); access_(d, true); return __real_strncpy(d, s, n); }
REAL(char *, strcat, (char *, const char *)) A char *__wrap_strcat(char *d, const char *s) { access_(s, false); access_(d, true); return __real_strcat(d, s); }
REAL(char *, strtok, (char *, const char *)) A char *__wrap_strtok(char *d, const char *s) { access_(0, true, 1); return __real_strtok(d, s); }
REAL(int, vsnprintf, (char *, size_t, const char *, va_list))
A int __wrap_sprintf(char *d, const char *f, ...) { va_list a; va_start(a, f); access_(d, true); int n = vsprintf(d, f, a); va_end(a); return n; }
A int __wrap_snprintf(char *d, size_t z, const char *f, ...) { va_list a; va_start(a, f); access_(d, true); int n = vsnprintf(d, z, f, a); va_end(a); return n; }
REAL(int, rand, ()) A int __wrap_rand() { access_(0, true, 1); return __real_rand(); }

// ---------------------------------------------------------------- waiting
template <class F> static F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define NEXT(f, n) static decltype(&n) f; if (!f) f = next<decltype(&n)>(#n)
static void idle(const char *w) { block(me, w); }
A int pthread_mutex_lock(pthread_mutex_t *m) { NEXT(lk, pthread_mutex_lock); if (active != RUN) return lk(m); NEXT(tr, pthread_mutex_trylock); access_(m, true, 1); int r; while ((r = tr(m)) == EBUSY) idle("mutex"); return r; }
A int pthread_mutex_unlock(pthread_mutex_t *m) { NEXT(un, pthread_mutex_unlock); int r = un(m); if (active == RUN) { wake_all(); access_(m, true, 1); } return r; }
#define RWL(n, t) A int n(pthread_rwlock_t *m) { NEXT(lk, n); if (active != RUN) return lk(m); NEXT(tr, t); access_(m, true, 1); int r; while ((r = tr(m)) == EBUSY) idle("rwlock"); return r; }
RWL(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock) RWL(pthread_rwlock_wrlock, pthread_rwlock_trywrlock)
A int pthread_rwlock_unlock(pthread_rwlock_t *m) { NEXT(un, pthread_rwlock_unlock); int r = un(m); if (active == RUN) { wake_all(); access_(m, true, 1); } return r; }
A int pthread_spin_lock(pthread_spinlock_t *m) { NEXT(lk, pthread_spin_lock); if (active != RUN) return lk(m); NEXT(tr, pthread_spin_trylock); access_((void *)m, true, 1); while (tr(m) == EBUSY) idle("spin lock"); return 0; }
A int pthread_spin_unlock(pthread_spinlock_t *m) { NEXT(un, pthread_spin_unlock); int r = un(m); if (active == RUN) wake_all(); return r; }
A int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { NEXT(w, pthread_cond_wait); if (active != RUN) return w(c, m); me->cond = c; pthread_mutex_unlock(m); while (me->cond) idle("condition"); return pthread_mutex_lock(m); }
static void sig(pthread_cond_t *c) { for (int i = 0; i < NT; i++) if (T[i].cond == c) { T[i].cond = nullptr; T[i].blocked = false; } }
A int pthread_cond_signal(pthread_cond_t *c) { NEXT(s, pthread_cond_signal); if (active != RUN) return s(c); sig(c); access_(c, true, 1); return 0; }
A int pthread_cond_broadcast(pthread_cond_t *c) { NEXT(s, pthread_cond_broadcast); if (active != RUN) return s(c); sig(c); access_(c, true, 1); return 0; }
A int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { NEXT(w, pthread_cond_timedwait); if (active != RUN) return w(c, m, t); pthread_mutex_unlock(m); yield_(); pthread_mutex_lock(m); return ETIMEDOUT; }
A int pthread_once(pthread_once_t *o, void (*f)(void)) {
  NEXT(on, pthread_once); if (active != RUN) return on(o, f);
  access_(o, true, 1);
  while (!(*o & 2)) { if (*o & 1) { idle("once"); continue; } *o |= 1; try { f(); } catch (...) { *o = 0; wake_all(); throw; } *o = 2; wake_all(); }
  return 0;
}
// Function-local statics.
A int __cxa_guard_acquire(long long *g) { char *b = (char *)g; for (;;) { if (b[0]) return 0; if (!b[1]) { b[1] = 1; return 1; } if (active != RUN) return 1; idle("initialisation of a local static"); } }
A void __cxa_guard_release(long long *g) { char *b = (char *)g; b[1] = 0; b[0] = 1; if (active == RUN) wake_all(); }
A void __cxa_guard_abort(long long *g) { char *b = (char *)g; b[1] = 0; if (active == RUN) wake_all(); }
A int sched_yield() { if (active == RUN) { access_(0, false, 1); return 0; } NEXT(y, sched_yield); return y(); }
A int nanosleep(const timespec *a, timespec *b) { if (active == RUN) { access_(0, false, 1); return 0; } NEXT(y, nanosleep); return y(a, b); }
A int clock_nanosleep(clockid_t c, int f, const timespec *a, timespec *b) { if (active == RUN) { access_(0, false, 1); return 0; } NEXT(y, clock_nanosleep); return y(c, f, a, b); }
A int usleep(useconds_t u) { if (active == RUN) { access_(0, false, 1); return 0; } NEXT(y, usleep); return y(u); }
extern "C" long __real_syscall(long, ...);
A long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) { if (active == RUN && n == SYS_futex) { int op = (int)b & 127; if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { if (*(int *)a == (int)c) idle("futex"); errno = EAGAIN; return -1; } wake_all(); return 0; } return __real_syscall(n, a, b, c, d, e, f); }
