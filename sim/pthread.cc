// Simulated POSIX threads. State is kept in place inside the pthread objects (glibc sizes), so that
// static initialisers (all zero, kind at offset 16) work and use-after-free of a lock is visible.
#include "sim.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <time.h>
#include <signal.h>

struct Mx { u32 owner; u32 _a; u32 count; u32 _b; int kind; u32 contended; };
struct Rw { u32 readers; u32 writer; u32 rtid[8]; };
struct Cv { u32 waiters; u32 clock; u64 seq; };
static_assert(sizeof(Mx) <= sizeof(pthread_mutex_t) && sizeof(Rw) <= sizeof(pthread_rwlock_t) && sizeof(Cv) <= sizeof(pthread_cond_t), "");

static u32 me() { return cur->id + 1; }
#define RA __builtin_return_address(0)
static void misuse(const std::string &what) {
  violate("lock", "lock|" + what + "|" + sig_stack(cur, 2), what + " by " + cur->name + " in " + backtrace_str(cur));
}
static void require_mem(const void *p, size_t n, void *pc) { mem_check(p, n, true, pc); }

#define LOCKINIT if (fault(F_LOCKINIT_FAIL, sc.f[F_LOCKINIT_FAIL])) return EAGAIN;
extern "C" {
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int k) { *(int *)a = k; return 0; }
int sim_pthread_mutexattr_setpshared(pthread_mutexattr_t *, int) { return 0; }
int sim_pthread_mutexattr_setrobust(pthread_mutexattr_t *, int) { return 0; }
int sim_pthread_mutexattr_setprotocol(pthread_mutexattr_t *, int) { return 0; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { require_mem(m, sizeof *m, RA); LOCKINIT memset(m, 0, sizeof *m); ((Mx *)m)->kind = a ? *(const int *)a : 0; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *p) { require_mem(p, sizeof *p, RA); if (!in_sim) return 0; sync_point("mutex_destroy"); Mx *m = (Mx *)p; return m->owner ? EBUSY : 0; }
static int mlock(Mx *m, u64 deadline, bool tr) {
  int kind = m->kind & 3;
  if (m->owner == me()) {
    if (kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
    if (kind == PTHREAD_MUTEX_ERRORCHECK) return tr ? EBUSY : EDEADLK;
    if (tr) return EBUSY;
  }
  while (m->owner) {
    if (tr) return EBUSY;
    m->contended++;
    Wake w = block(m, deadline, "mutex_lock");
    mem_check(m, sizeof(pthread_mutex_t), true, nullptr);
    if (w == WK_TIMEOUT && m->owner) return ETIMEDOUT;
  }
  m->owner = me(); m->count = 1; return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *p) { require_mem(p, sizeof *p, RA); if (!in_sim) return 0; sync_point("mutex_lock"); require_mem(p, sizeof *p, RA); return mlock((Mx *)p, 0, false); }
int sim_pthread_mutex_trylock(pthread_mutex_t *p) { require_mem(p, sizeof *p, RA); sync_point("mutex_trylock"); require_mem(p, sizeof *p, RA); return mlock((Mx *)p, 0, true); }
u64 abs_to_ns(const struct timespec *ts, int clk);
int sim_pthread_mutex_timedlock(pthread_mutex_t *p, const struct timespec *ts) { require_mem(p, sizeof *p, RA); sync_point("mutex_timedlock"); return mlock((Mx *)p, abs_to_ns(ts, CLOCK_REALTIME), false); }
int sim_pthread_mutex_clocklock(pthread_mutex_t *p, clockid_t c, const struct timespec *ts) { sync_point("mutex_timedlock"); return mlock((Mx *)p, abs_to_ns(ts, c), false); }
static int munlock(Mx *m) {
  if (m->owner != me()) {
    if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK || (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) return EPERM;
    misuse(m->owner ? "unlock-of-mutex-held-by-other-thread" : "unlock-of-unlocked-mutex");
  }
  if (--m->count == 0) { m->owner = 0; wake(m); }
  return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *p) { require_mem(p, sizeof *p, RA); if (!in_sim) return 0; int r = munlock((Mx *)p); sync_point("mutex_unlock"); return r; }

int sim_pthread_rwlockattr_init(pthread_rwlockattr_t *) { return 0; }
int sim_pthread_rwlockattr_destroy(pthread_rwlockattr_t *) { return 0; }
int sim_pthread_rwlockattr_setkind_np(pthread_rwlockattr_t *, int) { return 0; }
int sim_pthread_rwlock_init(pthread_rwlock_t *p, const pthread_rwlockattr_t *) { require_mem(p, sizeof *p, RA); LOCKINIT memset(p, 0, sizeof *p); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *p) { require_mem(p, sizeof *p, RA); if (!in_sim) return 0; sync_point("rwlock_destroy"); Rw *r = (Rw *)p; return (r->readers || r->writer) ? EBUSY : 0; }
static void addr_(Rw *r) { for (auto &x : r->rtid) if (!x) { x = me(); return; } }
static bool delr_(Rw *r) { for (auto &x : r->rtid) if (x == me()) { x = 0; return true; } return r->readers > 8; }
static int rd(Rw *r, bool tr, u64 dl) {
  while (r->writer) {
    if (r->writer == me()) return tr ? EBUSY : EDEADLK;
    if (tr) return EBUSY;
    Wake w = block(r, dl, "rwlock_rdlock"); mem_check(r, sizeof(pthread_rwlock_t), true, nullptr);
    if (w == WK_TIMEOUT && r->writer) return ETIMEDOUT;
  }
  r->readers++; addr_(r); return 0;
}
static int wr(Rw *r, bool tr, u64 dl) {
  if (r->writer == me()) return tr ? EBUSY : EDEADLK;
  while (r->writer || r->readers) {
    if (tr) return EBUSY;
    Wake w = block(r, dl, "rwlock_wrlock"); mem_check(r, sizeof(pthread_rwlock_t), true, nullptr);
    if (w == WK_TIMEOUT && (r->writer || r->readers)) return ETIMEDOUT;
  }
  r->writer = me(); return 0;
}
#define RW0(nm) require_mem(p, sizeof *p, RA); if (!in_sim) return 0; sync_point(nm); require_mem(p, sizeof *p, RA)
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *p) { RW0("rdlock"); return rd((Rw *)p, false, 0); }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *p) { RW0("rdlock"); return rd((Rw *)p, true, 0); }
int sim_pthread_rwlock_timedrdlock(pthread_rwlock_t *p, const struct timespec *t) { RW0("rdlock"); return rd((Rw *)p, false, abs_to_ns(t, CLOCK_REALTIME)); }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *p) { RW0("wrlock"); return wr((Rw *)p, false, 0); }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *p) { RW0("wrlock"); return wr((Rw *)p, true, 0); }
int sim_pthread_rwlock_timedwrlock(pthread_rwlock_t *p, const struct timespec *t) { RW0("wrlock"); return wr((Rw *)p, false, abs_to_ns(t, CLOCK_REALTIME)); }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *p) {
  require_mem(p, sizeof *p, RA); if (!in_sim) return 0;
  Rw *r = (Rw *)p;
  if (r->writer) { if (r->writer != me()) misuse("unlock-of-rwlock-held-by-other-thread"); r->writer = 0; wake(r); }
  else if (r->readers) { if (!delr_(r)) misuse("unlock-of-rwlock-not-held"); if (--r->readers == 0) wake(r); }
  else misuse("unlock-of-unlocked-rwlock");
  sync_point("rwlock_unlock"); return 0;
}

int sim_pthread_condattr_init(pthread_condattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *) { return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { *(int *)a = c; return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { require_mem(c, sizeof *c, RA); LOCKINIT memset(c, 0, sizeof *c); ((Cv *)c)->clock = a ? *(const int *)a : 0; return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *p) { require_mem(p, sizeof *p, RA); if (!in_sim) return 0; sync_point("cond_destroy"); Cv *c = (Cv *)p;
  while (c->waiters) { block((char *)c + 1, 0, "cond_destroy with waiters"); } return 0; }
static int cwait(Cv *c, Mx *m, u64 dl) {
  if (m->owner != me()) misuse("cond_wait-without-mutex");
  u32 cnt = m->count; int ret = 0;
  sync_point("cond_wait");
  m->owner = 0; m->count = 0; wake(m);
  if (fault(F_COND_SPURIOUS, sc.f[F_COND_SPURIOUS])) { sync_point("spurious"); sync_point("spurious"); }
  else {
    c->waiters++; cur->cond_signaled = false; cur->cv = c;
    for (;;) {
      Wake w = block(c, dl, "cond_wait"); // also returns after a signal handler has run, during which the wait goes on
      if (cur->cond_signaled) break;
      if (w == WK_TIMEOUT) { ret = ETIMEDOUT; c->waiters--; break; }
    }
    cur->cv = nullptr; mem_check(c, sizeof(pthread_cond_t), true, nullptr);
    if (!c->waiters) wake((char *)c + 1);
  }
  mem_check(m, sizeof(pthread_mutex_t), true, nullptr);
  while (m->owner) block(m, 0, "mutex_lock (after cond_wait)");
  m->owner = me(); m->count = cnt;
  return ret;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { require_mem(c, sizeof *c, RA); require_mem(m, sizeof *m, RA); return cwait((Cv *)c, (Mx *)m, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { require_mem(c, sizeof *c, RA); return cwait((Cv *)c, (Mx *)m, abs_to_ns(ts, ((Cv *)c)->clock)); }
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { require_mem(c, sizeof *c, RA); return cwait((Cv *)c, (Mx *)m, abs_to_ns(ts, k)); }
static void csig(Cv *c, bool all) {
  std::vector<Thread *> w; for (auto t : threads) if (t->cv == c && t->st != T_DONE && !t->cond_signaled) w.push_back(t);
  if (w.empty()) return;
  size_t from = 0, to = w.size();
  if (!all) { from = choose(0, w.size()); to = from + 1; }
  for (size_t i = from; i < to; i++) { w[i]->cond_signaled = true; if (w[i]->st == T_BLOCKED && w[i]->wait == c) { w[i]->st = T_RUNNABLE; w[i]->timedout = false; } if (c->waiters) c->waiters--; }
  if (!c->waiters) wake((char *)c + 1);
}
int sim_pthread_cond_signal(pthread_cond_t *p) { require_mem(p, sizeof *p, RA); if (!in_sim) return 0; sync_point("cond_signal"); require_mem(p, sizeof *p, RA); csig((Cv *)p, false); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *p) { require_mem(p, sizeof *p, RA); if (!in_sim) return 0; sync_point("cond_broadcast"); require_mem(p, sizeof *p, RA); csig((Cv *)p, true); return 0; }

struct At { size_t stack; int detach; };
int sim_pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *) { return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { if (n < 16384) return EINVAL; ((At *)a)->stack = n; return 0; }
int sim_pthread_attr_getstacksize(const pthread_attr_t *a, size_t *n) { *n = ((const At *)a)->stack ? ((const At *)a)->stack : 8u << 20; return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *a, int d) { ((At *)a)->detach = d; return 0; }
int sim_pthread_attr_getdetachstate(const pthread_attr_t *a, int *d) { *d = ((const At *)a)->detach; return 0; }
int sim_pthread_attr_setguardsize(pthread_attr_t *, size_t) { return 0; }
int sim_pthread_attr_setscope(pthread_attr_t *, int) { return 0; }
int sim_pthread_attr_setschedpolicy(pthread_attr_t *, int) { return 0; }
int sim_pthread_attr_setinheritsched(pthread_attr_t *, int) { return 0; }

void sim_thread_exit_c(void *r);
int sim_pthread_create(pthread_t *o, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  sync_point("pthread_create");
  if (fault(F_THREAD_FAIL, sc.f[F_THREAD_FAIL])) return EAGAIN;
  size_t st = a && ((const At *)a)->stack ? ((const At *)a)->stack : 8u << 20;
  std::string nm = sym((char *)fn + 1);
  Thread *t = spawn(nm + "/" + std::to_string(threads.size()), true, st + 163840, nullptr);
  t->fn = fn; t->arg = arg; t->cfn = [fn, arg]() { void *r = fn(arg); sim_thread_exit_c(r); };
  t->detached = a && ((const At *)a)->detach;
  *o = (pthread_t)(0x1000 + t->id);
  trace("pthread_create -> %s", t->name.c_str());
  sync_point("pthread_created");
  return 0;
}
static Thread *tof(pthread_t p) { u64 i = (u64)p - 0x1000; if (i >= threads.size()) return nullptr; return threads[i]; }
int sim_pthread_join(pthread_t p, void **ret) {
  sync_point("pthread_join");
  Thread *t = tof(p);
  if (!t || !t->server) { misuse("join-of-invalid-thread"); return ESRCH; }
  if (t->joined) misuse("join-of-already-joined-thread");
  if (t->detached) misuse("join-of-detached-thread");
  if (t == cur) return EDEADLK;
  t->joined = true;
  while (t->st != T_DONE) block(&t->ret, 0, "pthread_join");
  if (ret) { mem_check(ret, 8, true, RA); *ret = t->ret; }
  return 0;
}
int sim_pthread_detach(pthread_t p) { Thread *t = tof(p); if (!t) return ESRCH; t->detached = true; return 0; }
void sim_pthread_exit(void *r) { sync_point("pthread_exit"); sim_thread_exit_c(r); __builtin_unreachable(); }
pthread_t sim_pthread_self(void) { return (pthread_t)(0x1000 + cur->id); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_setname_np(pthread_t, const char *) { return 0; }
int sim_pthread_setaffinity_np(pthread_t, size_t, const void *) { return 0; }
int sim_pthread_cancel(pthread_t) { internal_error("pthread_cancel not simulated"); }
int sim_pthread_setcancelstate(int, int *) { return 0; }
int sim_pthread_setcanceltype(int, int *) { return 0; }
int sim_pthread_yield(void) { sync_point("yield"); return 0; }
static u32 nkey = 1;
int sim_pthread_key_create(pthread_key_t *k, void (*)(void *)) { *k = nkey++; return 0; }
int sim_pthread_key_delete(pthread_key_t) { return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { return cur->tls[k]; }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { cur->tls[k] = (void *)v; return 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { sync_point("once"); while (*(int *)o == 1) block(o, 0, "once"); if (*(int *)o == 0) { *(int *)o = 1; f(); *(int *)o = 2; wake(o); } return 0; }
int sim_pthread_spin_init(pthread_spinlock_t *s, int) { *(int *)s = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *s) { sync_point("spin"); while (*(int *)s) block((void *)s, 0, "spin_lock"); *(int *)s = me(); return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *s) { sync_point("spin"); if (*(int *)s) return EBUSY; *(int *)s = me(); return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *s) { *(int *)s = 0; wake((void *)s); sync_point("spin_unlock"); return 0; }
int sim_pthread_barrier_init(void *, const void *, unsigned) { internal_error("pthread_barrier not simulated"); }
int sim_sem_init(sem_t *s, int, unsigned v) { *(u64 *)s = v; return 0; }
int sim_sem_destroy(sem_t *) { return 0; }
int sim_sem_wait(sem_t *s) { require_mem(s, 8, RA); sync_point("sem_wait"); while (!*(u64 *)s) if (block(s, 0, "sem_wait", true) == WK_SIGNAL) { errno = EINTR; return -1; } --*(u64 *)s; return 0; }
int sim_sem_trywait(sem_t *s) { sync_point("sem_wait"); if (!*(u64 *)s) { errno = EAGAIN; return -1; } --*(u64 *)s; return 0; }
int sim_sem_timedwait(sem_t *s, const struct timespec *t) { sync_point("sem_wait"); u64 d = abs_to_ns(t, CLOCK_REALTIME); while (!*(u64 *)s) { Wake w = block(s, d, "sem_wait", true); if (w == WK_SIGNAL) { errno = EINTR; return -1; } if (w == WK_TIMEOUT && !*(u64 *)s) { errno = ETIMEDOUT; return -1; } } --*(u64 *)s; return 0; }
int sim_sem_post(sem_t *s) { ++*(u64 *)s; wake(s); sync_point("sem_post"); return 0; }
int sim_sem_getvalue(sem_t *s, int *v) { *v = (int)*(u64 *)s; return 0; }
int sim_sched_yield(void) { sync_point("yield"); now_ns += 1000; 
  // give every other runnable thread a chance
  extern void sim_yield_other(); sim_yield_other(); return 0; }
}
void sim_thread_exit(void *);
extern "C" void sim_thread_exit_c(void *r) { sim_thread_exit(r); }
