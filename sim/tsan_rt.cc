// Runtime for -fsanitize=thread code generation: every access is a potential
// preemption point.  (No race detector: the callbacks only drive the scheduler.)
#include "internal.h"
using namespace sim;

static inline __attribute__((always_inline)) void acc(const volatile void* p, bool w) {
  Th* t = self;
  if (__builtin_expect(!t, 0)) return;
  if (__builtin_expect(++t->steps >= t->next, 0)) slow_access(t);
  else if (__builtin_expect(g_shared_mode, 0)) {
    if (shared_hit(t, (uintptr_t)p, w) && --t->scd <= 0) slow_access(t);
  }
}
namespace sim { void atomic_point(Th* t); void store_point(Th* t); void load_point(Th* t); }
static inline void at_(const volatile void* p) {
  Th* t = self;
  if (__builtin_expect(!t, 0)) return;
  if (__builtin_expect(++t->steps >= t->next, 0)) slow_access(t);
  else if (g_shared_mode) {
    if (shared_hit(t, (uintptr_t)p, true) && --t->scd <= 0) slow_access(t);
  } else if (!g_replay) atomic_point(t);
}
static inline void stored() {
  Th* t = self;
  if (__builtin_expect(!t, 0)) return;
  if (__builtin_expect(++t->steps >= t->next, 0)) slow_access(t);
  else if (!g_replay) store_point(t);
}
static inline void loaded() {
  Th* t = self;
  if (__builtin_expect(!t, 0)) return;
  if (__builtin_expect(++t->steps >= t->next, 0)) slow_access(t);
  else if (!g_replay) load_point(t);
}
#define at() at_(a)

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                     \
  void __tsan_read##n(void* p) { acc(p, false); }                 \
  void __tsan_write##n(void* p) { acc(p, true); }                 \
  void __tsan_unaligned_read##n(void* p) { acc(p, false); }       \
  void __tsan_unaligned_write##n(void* p) { acc(p, true); }       \
  void __tsan_volatile_read##n(void* p) { acc(p, false); }        \
  void __tsan_volatile_write##n(void* p) { acc(p, true); }        \
  void __tsan_unaligned_volatile_read##n(void* p) { acc(p, false); } \
  void __tsan_unaligned_volatile_write##n(void* p) { acc(p, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t) { acc(p, false); }
void __tsan_write_range(void* p, size_t) { acc(p, true); }
void __tsan_vptr_update(void** p, void*) { acc(p, true); }
void __tsan_vptr_read(void** p) { acc(p, false); }

#define ATOMICS(bits, T)                                                                          \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { at(); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); loaded(); return v; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { at(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); stored(); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { at(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { at(); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); stored(); return r; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { at(); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); stored(); return r; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { at(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { at(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { at(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { at(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {         \
    at(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {           \
    at(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) {               \
    at(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
}
