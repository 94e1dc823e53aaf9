// pthread / libc time / libstdc++ runtime symbols, replaced for simulated threads.
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <random>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>

namespace sim {
uint64_t spurious_delay();
Th* find_thread(pthread_t h);
Rng& env_rng();
static const uint64_t kRealBase = 1600000000ull;  // s
static const uint64_t kMonoBase = 1000ull;        // s

static uint64_t abs_to_ps(const struct timespec* ts) {
  int64_t s = ts->tv_sec;
  if (s >= 1000000000) s -= (int64_t)kRealBase;
  else s -= (int64_t)kMonoBase;
  if (s < 0) return 0;
  if (s > 10000000) return kNever - 1;
  return (uint64_t)s * 1000000000000ull + (uint64_t)ts->tv_nsec * 1000ull;
}
static uint64_t rel_to_ps(const struct timespec* ts) {
  if (ts->tv_sec > 10000000) return 10000000ull * 1000000000000ull;
  return (uint64_t)ts->tv_sec * 1000000000000ull + (uint64_t)ts->tv_nsec * 1000ull;
}
static int sleep_token;
static void sim_sleep(uint64_t ps) { block(&sleep_token, "sleep", now_ps() + ps); }
}  // namespace sim

using namespace sim;

#define REAL(ret, name, ...)                                      \
  static ret (*real)(__VA_ARGS__) = nullptr;                      \
  if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

extern "C" {

// ---------------------------------------------------------------- mutex
static int real_mutex_trylock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
  return real(m);
}
static int real_mutex_unlock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
  return real(m);
}
static int sim_lock(pthread_mutex_t* m, uint64_t deadline) {
  for (;;) {
    int r = real_mutex_trylock(m);
    if (r != EBUSY) return r;
    if (!block(m, "mutex", deadline)) return ETIMEDOUT;
  }
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_lock, pthread_mutex_t*);
  if (!self) return real(m);
  step_sync("lock");
  return sim_lock(m, kNever);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (self) step_sync("trylock");
  return real_mutex_trylock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = real_mutex_unlock(m);
  if (self) {
    wake_all(m);
    step_publish("unlock");
  }
  return r;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*);
  if (!self) return real(m, ts);
  step_sync("lock");
  return sim_lock(m, abs_to_ps(ts));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  if (!self) return pthread_mutex_timedlock(m, ts);
  step_sync("lock");
  return sim_lock(m, abs_to_ps(ts));
}

// ---------------------------------------------------------------- cond
static int sim_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  step_sync("cond_wait");
  uint64_t sp = spurious_delay();
  real_mutex_unlock(m);
  wake_all(m);
  uint64_t d = deadline;
  bool spur = false;
  if (sp && now_ps() + sp < deadline) {
    d = now_ps() + sp;
    spur = true;
  }
  bool woken = block(c, "cond", d);
  int r = sim_lock(m, kNever);
  if (r) return r;
  return (woken || spur) ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
  if (!self) return real(c, m);
  return sim_cond_wait(c, m, kNever);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  if (!self) return real(c, m, ts);
  return sim_cond_wait(c, m, abs_to_ps(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
  REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  if (!self) return real(c, m, id, ts);
  return sim_cond_wait(c, m, abs_to_ps(ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  REAL(int, pthread_cond_signal, pthread_cond_t*);
  if (!self) return real(c);
  step_sync("signal");
  wake_one(c);
  step_sync("signalled");
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REAL(int, pthread_cond_broadcast, pthread_cond_t*);
  if (!self) return real(c);
  step_sync("broadcast");
  wake_all(c);
  step_sync("broadcasted");
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  REAL(int, pthread_cond_destroy, pthread_cond_t*);
  if (!self) return real(c);
  return 0;
}

// ---------------------------------------------------------------- rwlock
static int rw_lock(pthread_rwlock_t* l, bool wr, uint64_t deadline) {
  static int (*tr)(pthread_rwlock_t*) = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock");
  static int (*tw)(pthread_rwlock_t*) = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock");
  step_sync("rwlock");
  for (;;) {
    int r = wr ? tw(l) : tr(l);
    if (r != EBUSY) return r;
    if (!block(l, "rwlock", deadline)) return ETIMEDOUT;
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
  return self ? rw_lock(l, false, kNever) : real(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
  return self ? rw_lock(l, true, kNever) : real(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
  if (self) step_sync("rwlock");
  return real(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
  if (self) step_sync("rwlock");
  return real(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
  int r = real(l);
  if (self) {
    wake_all(l);
    step_publish("rwunlock");
  }
  return r;
}

// ---------------------------------------------------------------- spin
int pthread_spin_lock(pthread_spinlock_t* l) {
  REAL(int, pthread_spin_lock, pthread_spinlock_t*);
  static int (*tr)(pthread_spinlock_t*) = (int (*)(pthread_spinlock_t*))dlsym(RTLD_NEXT, "pthread_spin_trylock");
  if (!self) return real(l);
  step_sync("spin");
  while (tr(l) == EBUSY) yield_to_others();
  return 0;
}

// ---------------------------------------------------------------- once / guards
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  volatile int* p = (volatile int*)o;
  if (!self) {
    REAL(int, pthread_once, pthread_once_t*, void (*)(void));
    return real(o, f);
  }
  step_sync("once");
  for (;;) {
    if ((*p & 2)) return 0;
    if (*p == 0) break;
    block((const void*)p, "once", kNever);
  }
  *p = 1;
  struct Undo {
    volatile int* p;
    bool ok = false;
    ~Undo() {
      *p = ok ? 2 : 0;
      wake_all((const void*)p);
    }
  } u{p};
  f();
  u.ok = true;
  return 0;
}
int __cxa_guard_acquire(long long* g) {
  volatile char* b = (volatile char*)g;
  if (self) step_sync("guard");
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) break;
    if (!self) return 0;
    block(g, "guard", kNever);
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* g) {
  volatile char* b = (volatile char*)g;
  b[0] = 1;
  b[1] = 0;
  if (self) {
    wake_all(g);
    step_sync("guard");
  }
}
void __cxa_guard_abort(long long* g) {
  volatile char* b = (volatile char*)g;
  b[1] = 0;
  if (self) wake_all(g);
}

// ---------------------------------------------------------------- semaphores
int sem_wait(sem_t* s) {
  REAL(int, sem_wait, sem_t*);
  if (!self) return real(s);
  step_sync("sem");
  while (sem_trywait(s) != 0) block(s, "sem", kNever);
  return 0;
}
int sem_timedwait(sem_t* s, const struct timespec* ts) {
  REAL(int, sem_timedwait, sem_t*, const struct timespec*);
  if (!self) return real(s, ts);
  step_sync("sem");
  uint64_t d = abs_to_ps(ts);
  while (sem_trywait(s) != 0)
    if (!block(s, "sem", d)) {
      errno = ETIMEDOUT;
      return -1;
    }
  return 0;
}
int sem_post(sem_t* s) {
  REAL(int, sem_post, sem_t*);
  int r = real(s);
  if (self) {
    wake_all(s);
    step_sync("sem");
  }
  return r;
}

// ---------------------------------------------------------------- threads
int pthread_create(pthread_t* h, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (!self) {
    if (rep) harness_error("a thread is created outside the simulation");
    return real(h, attr, fn, arg);
  }
  Th* t;
  int r = spawn(fn, arg, attr, &t);
  if (r) return r;
  *h = t->h;
  if (attr) {
    int ds = 0;
    pthread_attr_getdetachstate(attr, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
  }
  step_sync("create");
  return 0;
}
int pthread_join(pthread_t h, void** ret) {
  REAL(int, pthread_join, pthread_t, void**);
  if (!self) return real(h, ret);
  Th* t = find_thread(h);
  if (!t) return ESRCH;
  join(t);
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t h) {
  REAL(int, pthread_detach, pthread_t);
  if (!self) return real(h);
  Th* t = find_thread(h);
  if (t) {
    t->detached = true;
    if (t->st == FINISHED) os_join(t);
  }
  step_sync("detach");
  return 0;
}
int sched_yield(void) {
  REAL(int, sched_yield, void);
  if (!self) return real();
  yield_to_others();
  return 0;
}

// ---------------------------------------------------------------- number of processors
// constant inside a run: machine, container limits and pinning must not reach it
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t* set) {
  REAL(int, sched_getaffinity, pid_t, size_t, cpu_set_t*);
  if (!rep) return real(pid, n, set);
  memset(set, 0, n);
  CPU_SET_S(0, n, set);
  return 0;
}
int get_nprocs(void) {
  REAL(int, get_nprocs, void);
  return rep ? 4 : real();
}
int get_nprocs_conf(void) {
  REAL(int, get_nprocs_conf, void);
  return rep ? 4 : real();
}
long sysconf(int what) {
  REAL(long, sysconf, int);
  if (rep && (what == _SC_NPROCESSORS_ONLN || what == _SC_NPROCESSORS_CONF)) return 4;
  return real(what);
}

// ---------------------------------------------------------------- futex (std::future, TBB)
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  REAL(long, syscall, long, long, long, long, long, long, long);
  if (!self || n != SYS_futex) return real(n, a, b, c, d, e, f);
  int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  int* w = (int*)a;
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    step_sync("futex");
    if (*w != (int)c) {
      errno = EAGAIN;
      return -1;
    }
    uint64_t dl = kNever;
    const struct timespec* ts = (const struct timespec*)d;
    if (ts) dl = op == FUTEX_WAIT ? now_ps() + rel_to_ps(ts) : abs_to_ps(ts);
    if (!block(w, "futex", dl)) {
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    if (c == 1) wake_one(w);
    else wake_all(w);
    step_sync("futex");
    return 1;
  }
  return real(n, a, b, c, d, e, f);
}

// ---------------------------------------------------------------- time
int clock_gettime(clockid_t id, struct timespec* ts) {
  REAL(int, clock_gettime, clockid_t, struct timespec*);
  if (!self) return real(id, ts);
  step_sync("clock");
  uint64_t ns = now_ns();
  uint64_t base = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) ? kRealBase : kMonoBase;
  ts->tv_sec = base + ns / 1000000000ull;
  ts->tv_nsec = ns % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  REAL(int, gettimeofday, struct timeval*, void*);
  if (!self) return real(tv, tz);
  step_sync("clock");
  uint64_t ns = now_ns();
  tv->tv_sec = kRealBase + ns / 1000000000ull;
  tv->tv_usec = ns % 1000000000ull / 1000;
  return 0;
}
time_t time(time_t* t) {
  REAL(time_t, time, time_t*);
  if (!self) return real(t);
  time_t r = kRealBase + now_ns() / 1000000000ull;
  if (t) *t = r;
  return r;
}
clock_t clock(void) {
  REAL(clock_t, clock, void);
  if (!self) return real();
  return (clock_t)(now_ns() / 1000);
}
clock_t times(struct tms* b) {
  REAL(clock_t, times, struct tms*);
  if (!self) return real(b);
  clock_t c = (clock_t)(now_ns() / 10000000);
  if (b) *b = tms{c, 0, 0, 0};
  return c;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
  REAL(int, nanosleep, const struct timespec*, struct timespec*);
  if (!self) return real(ts, rem);
  sim_sleep(rel_to_ps(ts));
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* ts, struct timespec* rem) {
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
  if (!self) return real(id, flags, ts, rem);
  if (flags & TIMER_ABSTIME) {
    uint64_t d = abs_to_ps(ts), n = now_ps();
    if (d > n) sim_sleep(d - n);
  } else {
    sim_sleep(rel_to_ps(ts));
  }
  return 0;
}
int usleep(useconds_t us) {
  REAL(int, usleep, useconds_t);
  if (!self) return real(us);
  sim_sleep((uint64_t)us * 1000000ull);
  return 0;
}
unsigned int sleep(unsigned int s) {
  REAL(unsigned int, sleep, unsigned int);
  if (!self) return real(s);
  sim_sleep((uint64_t)s * 1000000000000ull);
  return 0;
}

// ---------------------------------------------------------------- randomness
ssize_t getrandom(void* p, size_t n, unsigned int flags) {
  REAL(ssize_t, getrandom, void*, size_t, unsigned int);
  if (!self) return real(p, n, flags);
  for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)env_rng().next();
  return (ssize_t)n;
}
}  // extern "C"

std::random_device::result_type std::random_device::_M_getval() {
  return (result_type)sim::env_rng().next();
}
