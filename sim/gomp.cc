// OpenMP entry points: teams run as simulated threads.
#include "internal.h"
#include <map>
#include <omp.h>
#include <string>
using namespace sim;

namespace {
struct WorkShare {
  bool inited = false;
  long next = 0, end = 0, incr = 1, chunk = 1;
  int left = 0;
  bool single_taken = false;
  void* copy = nullptr;
};
struct Team {
  int n = 1;
  int arrived = 0;
  unsigned gen = 0;
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
  std::map<long, WorkShare> ws;
};
struct Member {
  Team* team = nullptr;
  int num = 0;
  long ws = 0;  // work-share index
  Member* parent = nullptr;
};
__thread Member* tl_member = nullptr;
struct Launch {
  Member m;
};
void* worker(void* p) {
  Launch* l = (Launch*)p;
  tl_member = &l->m;
  l->m.team->fn(l->m.team->data);
  tl_member = nullptr;
  return nullptr;
}
Member* mem() { return tl_member; }
int g_critical_obj, g_atomic_obj;
std::map<void*, int>* g_locked;
void crit_enter(void* o) {
  if (!self) return;
  step_sync("critical");
  if (!g_locked) g_locked = new std::map<void*, int>;
  while ((*g_locked)[o]) block(o, "omp critical", kNever);
  (*g_locked)[o] = 1;
}
void crit_leave(void* o) {
  if (!self) return;
  (*g_locked)[o] = 0;
  wake_all(o);
  step_sync("critical");
}
WorkShare& enter_ws(Member* m, long start, long end, long incr, long chunk) {
  WorkShare& w = m->team->ws[m->ws];
  if (!w.inited) {
    w.inited = true;
    w.next = start;
    w.end = end;
    w.incr = incr;
    w.chunk = chunk < 1 ? 1 : chunk;
    w.left = m->team->n;
  }
  return w;
}
WorkShare g_serial;
bool take(long* is, long* ie) {
  Member* m = mem();
  if (self) step_sync("omp loop");
  WorkShare& w = m ? m->team->ws[m->ws] : g_serial;
  if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
  *is = w.next;
  long e = w.next + w.chunk * w.incr;
  if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
  *ie = e;
  w.next = e;
  return true;
}
bool loop_start(long start, long end, long incr, long chunk, long* is, long* ie) {
  Member* m = mem();
  if (m) enter_ws(m, start, end, incr, chunk);
  else {
    g_serial.next = start;
    g_serial.end = end;
    g_serial.incr = incr;
    g_serial.chunk = chunk < 1 ? 1 : chunk;
  }
  return take(is, ie);
}
void ws_leave() {
  Member* m = mem();
  if (!m) return;
  WorkShare& w = m->team->ws[m->ws];
  if (--w.left == 0) m->team->ws.erase(m->ws);
  m->ws++;
}
}  // namespace

extern "C" {
void GOMP_barrier(void) {
  Member* m = mem();
  if (!m || !self || m->team->n == 1) return;
  step_sync("barrier");
  Team* t = m->team;
  unsigned g = t->gen;
  if (++t->arrived == t->n) {
    t->arrived = 0;
    t->gen++;
    wake_all(t);
    step_sync("barrier");
    return;
  }
  while (t->gen == g) block(t, "omp barrier", kNever);
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) {
  int n = (int)num;
  if (!self) {
    Member* save = tl_member;
    Team t;
    t.fn = fn;
    t.data = data;
    Member m;
    m.team = &t;
    tl_member = &m;
    fn(data);
    tl_member = save;
    return;
  }
  if (n == 0) n = tuning.omp_threads;
  if (tl_member && tl_member->team->n > 1) n = 1;  // no nesting, as by default
  Team t;
  t.n = n;
  t.fn = fn;
  t.data = data;
  Member* save = tl_member;
  std::vector<Launch> ls(n);
  std::vector<Th*> ths;
  for (int i = 0; i < n; i++) {
    ls[i].m.team = &t;
    ls[i].m.num = i;
    ls[i].m.parent = save;
  }
  for (int i = 1; i < n; i++) {
    Th* h;
    spawn(worker, &ls[i], nullptr, &h);
    ths.push_back(h);
  }
  if (n > 1) {
    count("omp_regions");
    step_sync("omp fork");
  }
  tl_member = &ls[0].m;
  fn(data);
  tl_member = save;
  for (auto* h : ths) join(h);
}
void GOMP_parallel_start(void (*fn)(void*), void* data, unsigned) { fn(data); }
void GOMP_parallel_end(void) {}

#define LOOPS(kind)                                                                                          \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(s, e, i, c, is, ie); } \
  bool GOMP_loop_##kind##_next(long* is, long* ie) { return take(is, ie); }
LOOPS(static)
LOOPS(dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, is, ie); }
bool GOMP_loop_runtime_next(long* is, long* ie) { return take(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is, long* ie) { return take(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long* is, long* ie) { return take(is, ie); }
// unsigned long long loops (size_t counters)
typedef unsigned long long ull;
#define ULOOPS(kind)                                                                                         \
  bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) {                 \
    return loop_start((long)s, (long)e, (long)i, (long)c, (long*)is, (long*)ie); }                           \
  bool GOMP_loop_ull_##kind##_next(ull* is, ull* ie) { return take((long*)is, (long*)ie); }
ULOOPS(static)
ULOOPS(dynamic)
ULOOPS(guided)
ULOOPS(nonmonotonic_dynamic)
ULOOPS(nonmonotonic_guided)
void GOMP_loop_end(void) {
  ws_leave();
  GOMP_barrier();
}
void GOMP_loop_end_nowait(void) { ws_leave(); }

namespace {
struct PLoop {
  void (*fn)(void*);
  void* data;
  long s, e, i, c;
};
void ploop(void* p) {
  PLoop* l = (PLoop*)p;
  Member* m = mem();
  if (m) enter_ws(m, l->s, l->e, l->i, l->c);
  l->fn(l->data);
}
}  // namespace
#define PLOOPS(kind)                                                                                        \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { \
    PLoop l{fn, d, s, e, i, c};                                                                             \
    GOMP_parallel(ploop, &l, n, f);                                                                         \
  }
PLOOPS(static)
PLOOPS(dynamic)
PLOOPS(guided)
PLOOPS(nonmonotonic_dynamic)
PLOOPS(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) {
  PLoop l{fn, d, s, e, i, 1};
  GOMP_parallel(ploop, &l, n, f);
}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) {
  PLoop l{fn, d, s, e, i, 1};
  GOMP_parallel(ploop, &l, n, f);
}

unsigned GOMP_sections_start(unsigned n) {
  long is, ie;
  return loop_start(1, n + 1, 1, 1, &is, &ie) ? (unsigned)is : 0;
}
unsigned GOMP_sections_next(void) {
  long is, ie;
  return take(&is, &ie) ? (unsigned)is : 0;
}
void GOMP_sections_end(void) {
  ws_leave();
  GOMP_barrier();
}
void GOMP_sections_end_nowait(void) { ws_leave(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned f) {
  PLoop l{fn, d, 1, (long)cnt + 1, 1, 1};
  GOMP_parallel(ploop, &l, n, f);
}
bool GOMP_single_start(void) {
  Member* m = mem();
  if (!m) return true;
  if (self) step_sync("single");
  WorkShare& w = enter_ws(m, 0, 0, 1, 1);
  bool r = !w.single_taken;
  w.single_taken = true;
  ws_leave();
  return r;
}
void GOMP_critical_start(void) { crit_enter(&g_critical_obj); }
void GOMP_critical_end(void) { crit_leave(&g_critical_obj); }
void GOMP_critical_name_start(void** p) { crit_enter(p); }
void GOMP_critical_name_end(void** p) { crit_leave(p); }
void GOMP_atomic_start(void) { crit_enter(&g_atomic_obj); }
void GOMP_atomic_end(void) { crit_leave(&g_atomic_obj); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
void GOMP_taskwait(void) {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  if (cpy) {
    std::vector<char> buf(size + align);
    char* a = buf.data();
    a += (align - ((uintptr_t)a & (align - 1))) & (align - 1);
    cpy(a, data);
    fn(a);
  } else {
    fn(data);
  }
}

int omp_get_thread_num(void) { return tl_member ? tl_member->num : 0; }
int omp_get_num_threads(void) { return tl_member ? tl_member->team->n : 1; }
int omp_get_max_threads(void) { return self ? tuning.omp_threads : 1; }
int omp_get_num_procs(void) { return self ? tuning.omp_threads : 1; }
void omp_set_num_threads(int n) {
  if (self && n > 0) tuning.omp_threads = n;
}
int omp_in_parallel(void) { return tl_member && tl_member->team->n > 1; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_level(void) { return tl_member ? 1 : 0; }
double omp_get_wtime(void) { return self ? now_s() : 0; }
void omp_init_lock(omp_lock_t* l) { memset(l, 0, sizeof *l); }
void omp_destroy_lock(omp_lock_t*) {}
void omp_set_lock(omp_lock_t* l) { crit_enter(l); }
void omp_unset_lock(omp_lock_t* l) { crit_leave(l); }
}
