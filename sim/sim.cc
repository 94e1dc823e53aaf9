// Scheduler core: baton passing, virtual clock, trace, report.
#include "internal.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {

double Rng::loguniform(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
uint64_t hash64(uint64_t a, uint64_t b) {
  uint64_t x = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
  return Rng::mix(x);
}

Tuning tuning;
Report* rep = nullptr;
__thread Th* self = nullptr;
bool g_active = false;
bool g_verbose = false;
bool g_replay = false;
int g_shared_mode = 0;

static Rng g_sched, g_wl, g_flt, g_env;
static std::vector<Th*>* g_ths;
static Th* g_reap = nullptr;
static uint64_t g_now = 0;       // ps
static uint64_t g_ps_per_step = 20000;
static uint64_t g_hash = 1469598103934665603ull;
static uint64_t g_seq = 0;
static uint64_t g_max_time = kNever;
static uint64_t g_total = 0;
static const uint64_t kFair = 1500000;
static std::vector<std::vector<Ent>>* g_rt;      // replay entries per thread
static std::unordered_map<uint64_t, int64_t>* g_rf;  // replay faults
static std::unordered_map<uint64_t, int64_t>* g_fcount;

Rng& workload() { return g_wl; }
Rng& faults() { return g_flt; }
Rng& env_rng() { return g_env; }

void hash_in(uint64_t v) { g_hash = hash64(g_hash, v); }

static void finish_report() {
  rep->hash = g_hash;
  rep->sim_ps = g_now;
  if (g_ths) {
    uint64_t s = 0;
    for (auto* t : *g_ths) s += t->steps;
    rep->steps = s;
    rep->threads = g_ths->size();
  }
}

static void vreport(int status, const char* prop, const char* code, const char* fmt, va_list ap) {
  if (rep->status == 0) {
    snprintf(rep->prop, sizeof rep->prop, "%s", prop);
    snprintf(rep->code, sizeof rep->code, "%s", code);
    vsnprintf(rep->msg, sizeof rep->msg, fmt, ap);
    finish_report();
    __sync_synchronize();
    rep->status = status;
  }
}

void violation(const std::string& prop, const std::string& code, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vreport(2, prop.c_str(), code.c_str(), fmt, ap);
  va_end(ap);
  fprintf(stderr, "SIM violation %s %s: %s\n", rep->prop, rep->code, rep->msg);
  fflush(nullptr);
  _exit(20);
}
void harness_error(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vreport(3, "", "harness", fmt, ap);
  va_end(ap);
  fprintf(stderr, "SIM error: %s\n", rep->msg);
  fflush(nullptr);
  _exit(30);
}
void mark_ok() {
  finish_report();
  __sync_synchronize();
  if (rep->status == 0) rep->status = 1;
}

static const char* liveness_prop() { return tuning.liveness_prop ? tuning.liveness_prop : "LIVE"; }

// ------------------------------------------------------------------ events
void event(const char* fmt, ...) {
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < n; i++) h = (h ^ (unsigned char)buf[i]) * 1099511628211ull;
  hash_in(h);
  rep->events++;
  if (g_verbose) fprintf(stderr, "[%12.6f t%d s%lu] %s\n", now_ps() / 1e12, self ? self->id : -1,
                         self ? (unsigned long)self->steps : 0ul, buf);
}
void state(uint64_t h) {
  if (rep->nstates < kMaxStates) rep->states[rep->nstates++] = h;
}
void count(const char* name, uint64_t n) {
  for (int i = 0; i < rep->nprobes; i++)
    if (!strncmp(rep->probes[i].name, name, sizeof rep->probes[i].name - 1)) {
      rep->probes[i].n += n;
      return;
    }
  if (rep->nprobes < kMaxProbes) {
    int i = rep->nprobes++;
    snprintf(rep->probes[i].name, sizeof rep->probes[i].name, "%s", name);
    rep->probes[i].n = n;
  }
}
void probe(const char* name) { count(name, 1); }

// ------------------------------------------------------------------ trace
static void record(int tid, int kind, uint64_t key, int64_t val) {
  if (rep->ntrace < kMaxTrace) {
    Ent& e = rep->trace[rep->ntrace];
    e.tid = tid;
    e.kind = kind;
    e.key = key;
    e.val = val;
    rep->ntrace++;
  } else {
    rep->trace_overflow = 1;
  }
}
static bool lookup(Th* t, int kind, int64_t* val) {
  if (t->id >= (int)g_rt->size()) return false;
  auto& v = (*g_rt)[t->id];
  while (t->ridx < v.size() && v[t->ridx].key < t->steps) t->ridx++;
  for (size_t i = t->ridx; i < v.size() && v[i].key == t->steps; i++)
    if (v[i].kind == kind) {
      *val = v[i].val;
      return true;
    }
  return false;
}
static uint64_t next_replay_step(Th* t) {
  if (t->id >= (int)g_rt->size()) return kNever;
  auto& v = (*g_rt)[t->id];
  size_t i = t->ridx;
  while (i < v.size() && v[i].key <= t->steps) i++;
  return i < v.size() ? v[i].key : kNever;
}

int fault_choice(const char* kind, double p, int n) {
  uint64_t h = 1469598103934665603ull;
  for (const char* c = kind; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ull;
  h &= 0xffffffffff000000ull;
  uint64_t k = (*g_fcount)[h]++;
  uint64_t key = h | (k & 0xffffff);
  int64_t v = 0;
  if (g_replay) {
    auto it = g_rf->find(key);
    if (it != g_rf->end()) v = it->second;
  } else if (p > 0 && g_flt.chance(p)) {
    v = n <= 2 ? 1 : 1 + (int64_t)g_flt.below((uint64_t)(n - 1));
    record(-1, 'F', key, v);
  }
  if (v) {
    rep->faults++;
    char nm[48];
    snprintf(nm, sizeof nm, "fault.%s", kind);
    count(nm);
    event("fault %s #%lu = %ld", kind, (unsigned long)k, (long)v);
  }
  return (int)v;
}

// ------------------------------------------------------------------ clock
static void account(Th* t) {
  if (t && t->steps > t->acct) {
    g_now += (t->steps - t->acct) * g_ps_per_step;
    t->acct = t->steps;
  }
}
uint64_t now_ps() {
  if (self) account(self);
  return g_now;
}
uint64_t now_ns() { return now_ps() / 1000; }
double now_s() { return now_ps() / 1e12; }

// ------------------------------------------------------------------ baton
static long raw_futex(int* w, int op, int val) {
  long ret;
  register long r10 __asm__("r10") = 0;
  register long r8 __asm__("r8") = 0;
  register long r9 __asm__("r9") = 0;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_futex), "D"(w), "S"((long)op), "d"((long)val), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static void fwait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) raw_futex(w, FUTEX_WAIT_PRIVATE, 0);
}
static void fwake(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw_futex(w, FUTEX_WAKE_PRIVATE, 1);
}
typedef int (*join_fn)(pthread_t, void**);
static join_fn real_join() {
  static join_fn f = nullptr;
  if (!f) f = (join_fn)dlsym(RTLD_NEXT, "pthread_join");
  return f;
}
static long raw_syscall(long n, long a, long b, long c) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
void os_join(Th* d) {
  if (d->os_joined) return;
  d->os_joined = true;
  void* r;
  real_join()(d->h, &r);
}
static void reap() {
  if (g_reap) {
    Th* d = g_reap;
    g_reap = nullptr;
    // the kernel thread must be gone, but its handle may only be reused after
    // the code under test has joined it
    while (raw_syscall(SYS_tgkill, raw_syscall(SYS_getpid, 0, 0, 0), d->tid, 0) == 0) raw_syscall(SYS_sched_yield, 0, 0, 0);
    if (d->detached || d->joined) os_join(d);
  }
}

static uint64_t geometric(double mean) {
  if (mean <= 1) return 1;
  double u = g_sched.unit();
  double g = -std::log(1 - u) * mean;
  return 1 + (uint64_t)g;
}

static void arm(Th* t) {  // next slow path of the thread that is about to run
  if (g_replay) {
    t->next = next_replay_step(t);
  } else {
    t->next = (tuning.mode == 0 || tuning.mode == 3) ? t->steps + geometric(tuning.mean_gap) : kNever;
    t->scd = tuning.mode == 1 ? (int64_t)geometric(tuning.mean_gap) : INT64_MAX;
  }
  uint64_t fair = t->switched_in + kFair;
  if (fair <= t->steps) fair = t->steps + kFair;
  if (fair < t->next) t->next = fair;
}

static bool is_runnable(Th* t) {
  return t->st == RUNNABLE || (t->st == BLOCKED && t->deadline <= g_now);
}

static void check_limits(Th* t) {
  g_total++;
  if (g_now > g_max_time) {
    std::string s;
    for (auto* o : *g_ths)
      if (o->st != FINISHED) {
        char b[96];
        snprintf(b, sizeof b, " t%d:%s%s", o->id, o->st == RUNNABLE ? "runnable" : "waiting:", o->st == RUNNABLE ? "" : o->why);
        s += b;
      }
    violation(liveness_prop(), "liveness-time", "not finished after %.1f simulated seconds;%s", g_now / 1e12, s.c_str());
  }
  if ((g_total & 1023) == 0) {
    uint64_t s = 0;
    for (auto* o : *g_ths) s += o->steps;
    if (s > tuning.max_steps)
      violation(liveness_prop(), "liveness-steps", "not finished after %lu steps (%.1f simulated s)", (unsigned long)s, g_now / 1e12);
  }
}

static void do_switch(Th* me, Th* to) {
  if (to->st == BLOCKED) {
    to->st = RUNNABLE;
    to->timedout = true;
  }
  if (to == me) {
    arm(me);
    return;
  }
  rep->switches++;
  hash_in(((uint64_t)to->id << 48) ^ (me->steps << 8) ^ (uint64_t)me->id);
  hash_in(g_now);
  to->switched_in = to->steps;
  arm(to);
  __atomic_store_n(&me->word, 0, __ATOMIC_RELEASE);
  fwake(&to->word);
  if (me->st == FINISHED) return;
  fwait(&me->word);
  reap();
}

// picks the successor when `me` cannot continue (blocked/finished/forced).
static Th* pick_other(Th* me, bool include_me) {
  for (;;) {
    static std::vector<Th*> c;
    c.clear();
    for (auto* t : *g_ths)
      if (t->st != FINISHED && (include_me || t != me || me->st == BLOCKED) && is_runnable(t)) c.push_back(t);
    if (c.empty()) {
      uint64_t m = kNever;
      for (auto* t : *g_ths)
        if (t->st == BLOCKED && t->deadline < m) m = t->deadline;
      if (m == kNever) {
        std::string s;
        for (auto* t : *g_ths)
          if (t->st != FINISHED) {
            char b[64];
            snprintf(b, sizeof b, " t%d:%s", t->id, t->why);
            s += b;
          }
        violation(liveness_prop(), "deadlock", "no thread can run:%s", s.c_str());
      }
      if (m > g_now) g_now = m;
      check_limits(me);
      continue;
    }
    // default: next id in cyclic order
    Th* dflt = nullptr;
    for (auto* t : c)
      if (t->id > me->id) {
        dflt = t;
        break;
      }
    if (!dflt) dflt = c[0];
    Th* ch = dflt;
    if (g_replay) {
      int64_t v;
      if (lookup(me, 'B', &v))
        for (auto* t : c)
          if (t->id == v) ch = t;
    } else if (c.size() > 1 && !tuning.calm) {
      if (tuning.mode == 3) {
        for (auto* t : c)
          if (t->prio > ch->prio) ch = t;
      } else {
        ch = c[g_sched.below(c.size())];
      }
      if (ch != dflt) record(me->id, 'B', me->steps, ch->id);
    }
    return ch;
  }
}

static uint64_t stalled = 0;  // sum of the stalls so far

// voluntary scheduling point; `expired` = the countdown asked for a preemption
static void sched_point(Th* me, bool expired) {
  if (me->noyield) {
    if (expired) arm(me);
    return;
  }
  account(me);
  check_limits(me);
  bool fair = me->steps >= me->switched_in + kFair;
  if (g_replay) {
    int64_t v;
    if (lookup(me, 'S', &v)) {
      rep->stalls++;
      block(&g_seq, "stall", g_now + (uint64_t)v);
      return;
    }
    if (lookup(me, 'P', &v)) {
      for (auto* t : *g_ths)
        if (t->id == v && t != me && t->st != FINISHED && is_runnable(t)) {
          rep->preemptions++;
          do_switch(me, t);
          return;
        }
    }
    if (fair) {
      me->switched_in = me->steps;
      Th* o = nullptr;
      for (auto* t : *g_ths)
        if (t != me && t->st != FINISHED && is_runnable(t) && (!o || (o->id < me->id && t->id > me->id))) o = t;
      if (o) {
        do_switch(me, o);
        return;
      }
    }
    arm(me);
    return;
  }
  // stalls are bounded per run, otherwise a run that computes a lot would seem
  // to hang
  if (expired && !tuning.calm && tuning.p_stall > 0 && stalled < (uint64_t)200e12 && g_sched.chance(tuning.p_stall)) {
    uint64_t d = (uint64_t)(g_sched.loguniform(1e-4, tuning.stall_max_s) * 1e12);
    stalled += d;
    record(me->id, 'S', me->steps, (int64_t)d);
    rep->stalls++;
    block(&g_seq, "stall", g_now + d);
    return;
  }
  static std::vector<Th*> c;
  c.clear();
  for (auto* t : *g_ths)
    if (t != me && t->st != FINISHED && is_runnable(t)) c.push_back(t);
  if (c.empty()) {
    if (fair) me->switched_in = me->steps;
    if (expired) arm(me);
    return;
  }
  Th* ch = nullptr;
  if (tuning.calm) {
    ch = me;
  } else if (tuning.mode == 3) {
    if (expired) me->prio = g_sched.next() >> (32 + g_sched.below(24));  // lower
    ch = me;
    for (auto* t : c)
      if (t->prio > ch->prio) ch = t;
  } else if (expired) {
    ch = c[g_sched.below(c.size())];
  } else {
    ch = me;
  }
  if (ch != me) {
    record(me->id, 'P', me->steps, ch->id);
    rep->preemptions++;
    do_switch(me, ch);
    return;
  }
  if (fair) {
    me->switched_in = me->steps;
    Th* o = nullptr;
    for (auto* t : c)
      if (!o || (o->id < me->id && t->id > me->id)) o = t;
    do_switch(me, o);
    return;
  }
  if (expired) arm(me);
}

void slow_access(Th* t) { sched_point(t, true); }

void step_sync(const char*) {
  Th* t = self;
  if (!t) return;
  ++t->steps;
  if (g_replay) {
    if (t->steps >= t->next) sched_point(t, false);
    return;
  }
  bool exp = t->steps >= t->next;
  if (!exp && tuning.mode != 3) exp = g_sched.chance(tuning.p_sync);
  if (exp || tuning.mode == 3) sched_point(t, exp);
}

void atomic_point(Th* t) {  // atomics in modes that do not track shared accesses
  if (tuning.mode == 2 && g_sched.chance(tuning.p_sync * 0.15)) sched_point(t, true);
}

static void stall_here(Th* t, double p, double lo, double hi) {
  static uint64_t sum = 0;  // few and long: a run that computes a lot must not seem to hang
  if (p <= 0 || tuning.calm || t->noyield || sum >= (uint64_t)15e12 || !g_sched.chance(p)) return;
  account(t);
  check_limits(t);
  uint64_t d = (uint64_t)(g_sched.loguniform(lo, hi) * 1e12);
  sum += d;
  record(t->id, 'S', t->steps, (int64_t)d);
  rep->stalls++;
  block(&g_seq, "stall", g_now + d);
}

// right after something became visible to others
void store_point(Th* t) { stall_here(t, tuning.p_publish, 0.01, 1); }
// right after a look at something others change: it can be out of date when it is used
void load_point(Th* t) { stall_here(t, tuning.p_look, 0.03, 3); }

void step_publish(const char* what) {
  Th* t = self;
  if (!t) return;
  step_sync(what);
  ++t->steps;
  if (t->steps >= t->next) sched_point(t, !g_replay);
  else if (!g_replay) store_point(t);
}

void yield_point() { step_sync("yield"); }

void yield_to_others() {
  Th* t = self;
  if (!t) return;
  ++t->steps;
  if (t->noyield) return;
  account(t);
  g_now += 1000000;  // 1 us
  check_limits(t);
  bool any = false;
  for (auto* o : *g_ths)
    if (o != t && o->st != FINISHED && is_runnable(o)) any = true;
  if (!any) {
    // spinning alone: let time pass to the next timer
    uint64_t m = kNever;
    for (auto* o : *g_ths)
      if (o != t && o->st == BLOCKED && o->deadline < m) m = o->deadline;
    if (m != kNever && m > g_now && m - g_now < 50000000ull) g_now = m;
    return;
  }
  do_switch(t, pick_other(t, false));
}

bool block(const void* obj, const char* why, uint64_t deadline) {
  Th* t = self;
  ++t->steps;
  account(t);
  t->st = BLOCKED;
  t->obj = obj;
  t->why = why;
  t->deadline = deadline;
  t->timedout = false;
  t->wait_seq = ++g_seq;
  check_limits(t);
  Th* n = pick_other(t, true);
  do_switch(t, n);
  t->obj = nullptr;
  t->deadline = kNever;
  return !t->timedout;
}
void wake_all(const void* obj) {
  for (auto* t : *g_ths)
    if (t->st == BLOCKED && t->obj == obj) {
      t->st = RUNNABLE;
      t->obj = nullptr;
    }
}
void wake_one(const void* obj) {
  static std::vector<Th*> c;
  c.clear();
  for (auto* t : *g_ths)
    if (t->st == BLOCKED && t->obj == obj) c.push_back(t);
  if (c.empty()) return;
  std::sort(c.begin(), c.end(), [](Th* a, Th* b) { return a->wait_seq < b->wait_seq; });
  Th* ch = c[0];
  if (g_replay) {
    int64_t v;
    if (self && lookup(self, 'W', &v))
      for (auto* t : c)
        if (t->id == v) ch = t;
  } else if (c.size() > 1 && self && !tuning.fifo_wake) {
    ch = c[g_sched.below(c.size())];
    if (ch != c[0]) record(self->id, 'W', self->steps, ch->id);
  }
  ch->st = RUNNABLE;
  ch->obj = nullptr;
}
// spurious wake-up delay for the wait that starts now, 0 = none
uint64_t spurious_delay() {
  Th* t = self;
  ++t->steps;
  int64_t v = 0;
  if (g_replay) {
    lookup(t, 'U', &v);
  } else if (tuning.p_spurious > 0 && g_sched.chance(tuning.p_spurious)) {
    v = 1 + (int64_t)(g_sched.loguniform(1e-6, 0.3) * 1e12);
    record(t->id, 'U', t->steps, v);
  }
  if (v) count("spurious_wakeup");
  return (uint64_t)v;
}

// ------------------------------------------------------------------ threads
static void* tramp(void* p) {
  Th* t = (Th*)p;
  t->tid = (int)raw_syscall(SYS_gettid, 0, 0, 0);
  fwait(&t->word);
  reap();
  self = t;
  t->ret = t->fn(t->arg);
  // finished: hand the baton over, the successor waits for our real exit
  account(t);
  ++t->steps;
  account(t);
  t->st = FINISHED;
  wake_all(t);
  Th* n = pick_other(t, false);
  self = nullptr;
  g_reap = t;
  do_switch(t, n);
  return t->ret;
}
typedef int (*create_fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int spawn(void* (*fn)(void*), void* arg, const pthread_attr_t* attr, Th** out) {
  static create_fn real = (create_fn)dlsym(RTLD_NEXT, "pthread_create");
  Th* t = new Th;
  t->id = (int)g_ths->size();
  t->fn = fn;
  t->arg = arg;
  t->prio = g_replay ? 0 : g_sched.next() >> (g_sched.below(8));
  g_ths->push_back(t);
  pthread_attr_t a;
  pthread_attr_init(&a);
  if (attr) {
    size_t sz;
    if (pthread_attr_getstacksize(attr, &sz) == 0) pthread_attr_setstacksize(&a, sz);
  }
  int r = real(&t->h, &a, tramp, t);
  pthread_attr_destroy(&a);
  if (r) {
    t->st = FINISHED;
    harness_error("real pthread_create failed: %d", r);
  }
  *out = t;
  return 0;
}
void join(Th* t) {
  step_sync("join");
  while (t->st != FINISHED) block(t, "join", kNever);
  t->joined = true;
  os_join(t);
}
Th* find_thread(pthread_t h) {
  // newest first: handles may be reused after a thread was reaped
  for (size_t i = g_ths->size(); i-- > 0;)
    if (pthread_equal((*g_ths)[i]->h, h) && !(*g_ths)[i]->joined && !((*g_ths)[i]->detached && (*g_ths)[i]->st == FINISHED)) return (*g_ths)[i];
  return nullptr;
}

bool active() { return g_active; }
int live_threads() {
  int n = 0;
  for (auto* t : *g_ths) n += t->st != FINISHED;
  return n;
}
std::string thread_list() {
  std::string s;
  for (auto* t : *g_ths)
    if (t->st != FINISHED) {
      char b[64];
      snprintf(b, sizeof b, " t%d:%s", t->id, t == self ? "caller" : t->st == RUNNABLE ? "runnable" : t->why);
      s += b;
    }
  return s;
}
int current_thread() { return self ? self->id : -1; }
void sleep_s(double s) { block(&g_sched, "sleep", now_ps() + (uint64_t)(s * 1e12)); }

Atomic::Atomic() {
  if (self) self->noyield++;
}
Atomic::~Atomic() {
  if (self) self->noyield--;
}

void parallel(const std::vector<std::function<void()>>& fs) {
  std::vector<Th*> ts;
  auto run = [](void* p) -> void* {
    (*(const std::function<void()>*)p)();
    return nullptr;
  };
  for (auto& f : fs) {
    Th* t;
    spawn(run, (void*)&f, nullptr, &t);
    ts.push_back(t);
    step_sync("spawn");
  }
  for (auto* t : ts) join(t);
}

uint64_t heap_in_use() {
  struct mallinfo2 m = mallinfo2();
  return m.uordblks + m.hblkhd;
}

// ------------------------------------------------------------------ shared-access shadow
struct Shadow {
  uintptr_t tag;
  int tid;
  uint8_t multi, written;
};
static Shadow* g_shadow;
static const int kShBits = 16;
bool shared_hit(Th* t, uintptr_t a, bool w) {
  uintptr_t g = a >> 3;
  Shadow& s = g_shadow[(g * 0x9E3779B97F4A7C15ull) >> (64 - kShBits)];
  if (s.tag != g) {
    s.tag = g;
    s.tid = t->id;
    s.multi = 0;
    s.written = w;
    return false;
  }
  if (s.tid != t->id) s.multi = 1;
  if (w) s.written = 1;
  return s.multi && s.written;
}

// ------------------------------------------------------------------ run
void draw_tuning(Rng& r) {
  double u = r.unit();
  Tuning t;
  t.mode = u < 0.25 ? 0 : u < 0.65 ? 1 : u < 0.8 ? 2 : 3;
  if (t.mode == 0) t.mean_gap = r.loguniform(30, 50000);
  if (t.mode == 1) t.mean_gap = r.loguniform(2, 600);
  if (t.mode == 3) t.mean_gap = r.loguniform(300, 200000);
  t.p_sync = r.chance(0.3) ? r.loguniform(0.005, 0.1) : r.real(0.05, 0.6);
  t.ns_per_step = r.loguniform(0.5, 2000);
  if (r.chance(0.35)) {
    t.p_stall = r.loguniform(0.0005, 0.05);
    t.stall_max_s = r.loguniform(0.01, 3);
  }
  if (r.chance(0.4)) t.p_spurious = r.loguniform(0.01, 0.3);
  t.omp_threads = r.range(1, 8);
  t.fifo_wake = r.chance(0.4);
  if (r.chance(0.2)) t.p_publish = r.loguniform(0.0005, 0.05);
  if (r.chance(0.2)) t.p_look = r.loguniform(0.0005, 0.05);
  tuning = t;
}

void setup_run(const Spec& spec, const std::vector<Ent>* replay) {
  uint64_t s = spec.seed;
  uint64_t base = hash64(s, 0xABCDEF);
  g_wl.reseed(hash64(base, 1));
  g_sched.reseed(hash64(base, 2));
  g_flt.reseed(hash64(base, 3));
  g_env.reseed(hash64(base, 4));
  Rng tr(hash64(base, 5));
  draw_tuning(tr);
  mallopt(M_ARENA_MAX, 1);
  mallopt(M_PERTURB, (int)(1 + hash64(base, 6) % 255));
  srand((unsigned)hash64(base, 7));
  g_ths = new std::vector<Th*>;
  g_ths->reserve(4096);
  g_rt = new std::vector<std::vector<Ent>>;
  g_rf = new std::unordered_map<uint64_t, int64_t>;
  g_fcount = new std::unordered_map<uint64_t, int64_t>;
  g_shadow = (Shadow*)calloc(1u << kShBits, sizeof(Shadow));
  memset(g_shadow, 0, sizeof(Shadow) << kShBits);
  g_verbose = spec.verbose;
  g_replay = replay != nullptr;
  if (replay) {
    for (auto& e : *replay) {
      if (e.kind == 'F') {
        (*g_rf)[e.key] = e.val;
      } else {
        if (e.tid >= (int)g_rt->size()) g_rt->resize(e.tid + 1);
        (*g_rt)[e.tid].push_back(e);
      }
    }
    for (auto& v : *g_rt)
      std::stable_sort(v.begin(), v.end(), [](const Ent& a, const Ent& b) { return a.key < b.key; });
  }
}

void start() {
  Th* t = new Th;
  t->id = 0;
  t->h = pthread_self();
  t->word = 1;
  t->prio = g_replay ? 0 : g_sched.next() >> 2;
  g_ths->push_back(t);
  g_ps_per_step = (uint64_t)(tuning.ns_per_step * 1000);
  if (g_ps_per_step < 1) g_ps_per_step = 1;
  g_max_time = (uint64_t)(tuning.max_time_s * 1e12);
  g_shared_mode = (!g_replay && tuning.mode == 1) ? 1 : 0;
  arm(t);
  rep->started = 1;
  g_active = true;
  self = t;
}
void stop() {
  now_ps();
  g_active = false;
  self = nullptr;
}

}  // namespace sim
