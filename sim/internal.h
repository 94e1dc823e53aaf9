// Internals shared by the simulator's translation units.
#pragma once
#include <pthread.h>
#include <stdint.h>
#include <string.h>
#include "sim.h"

namespace sim {

enum St { RUNNABLE = 0, BLOCKED = 1, FINISHED = 2 };
constexpr uint64_t kNever = ~0ull;

struct Ent {
  int32_t tid;   // thread id, or -1 for faults
  int32_t kind;  // 'P','B','W','S','U','F'
  uint64_t key;  // per-thread step, or fault key
  int64_t val;
};

struct Th {
  int id = 0;
  pthread_t h{};
  int word = 0;
  int st = RUNNABLE;
  const void* obj = nullptr;
  const char* why = "";
  uint64_t deadline = kNever;  // ps
  bool timedout = false;
  uint64_t wait_seq = 0;
  uint64_t steps = 0;
  uint64_t next = kNever;  // step of the next slow path
  uint64_t acct = 0;       // steps already accounted for in the clock
  int64_t scd = 0;         // shared-access countdown
  uint64_t switched_in = 0;
  int noyield = 0;
  uint64_t prio = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  bool detached = false;
  bool joined = false;
  int tid = 0;           // kernel thread id
  bool os_joined = false;
  void* omp = nullptr;  // current OpenMP team membership
  size_t ridx = 0;      // replay index
};

constexpr int kMaxTrace = 400000;
constexpr int kMaxStates = 4096;
constexpr int kMaxProbes = 160;

struct Report {  // in shared memory
  int status;    // 0 running/died, 1 ok, 2 violation, 3 harness error
  char prop[16];
  char code[96];
  char msg[2000];
  uint64_t hash;
  uint64_t steps, switches, preemptions, sim_ps, threads, events, faults, stalls;
  int ntrace;
  int trace_overflow;
  int nstates;
  int nprobes;
  int started;
  struct { char name[48]; uint64_t n; } probes[kMaxProbes];
  uint64_t states[kMaxStates];
  Ent trace[kMaxTrace];
};

extern Report* rep;
extern __thread Th* self;
extern bool g_active;
extern bool g_verbose;
extern bool g_replay;

void step_sync(const char* what);
void step_publish(const char* what);         // a sync point after which something is visible to others
bool block(const void* obj, const char* why, uint64_t deadline_ps);  // true = woken
void wake_all(const void* obj);
void wake_one(const void* obj);
void yield_to_others();
uint64_t now_ps();
void hash_in(uint64_t v);
int64_t decide(int kind, int64_t dflt, int64_t drawn);
int spawn(void* (*fn)(void*), void* arg, const pthread_attr_t* attr, Th** out);
void join(Th* t);
void os_join(Th* t);
void slow_access(Th* t);
bool shared_hit(Th* t, uintptr_t a, bool w);
extern int g_shared_mode;

void setup_run(const Spec& spec, const std::vector<Ent>* replay);

}  // namespace sim
