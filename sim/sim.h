// Deterministic simulator: public interface used by the worlds.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t mix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  void reseed(uint64_t seed) {
    s[0] = mix(seed);
    s[1] = mix(seed);
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  double loguniform(double lo, double hi);
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

uint64_t hash64(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- run spec
struct Spec {
  std::string prop;      // property under check, e.g. "C06"
  uint64_t seed = 0;     // the only source of randomness
  int tier = 0;          // 0 quick, 1 thorough
  bool verbose = false;  // print the event log
  std::string scratch;   // scratch directory of this run (created, removed)
};

// Scheduling parameters of one run (drawn from the seed; a world may adjust
// them before sim::start()).
struct Tuning {
  int mode = 0;               // 0 walk (all accesses) 1 walk (shared accesses) 2 sync points only 3 priorities
  double mean_gap = 1000;     // mean accesses between preemptions (modes 0, 1, 3)
  double p_sync = 0.2;        // preemption probability at a sync point
  double ns_per_step = 20;    // simulated cost of one access
  double p_stall = 0;         // probability of a stall at a scheduling point
  double stall_max_s = 1.0;   // longest stall
  double p_publish = 0;       // probability of a stall right after an atomic store or an unlock
  double p_look = 0;          // chance of a stall right after an atomic load
  double p_spurious = 0;      // spurious wake-up probability per wait
  int omp_threads = 4;        // default OpenMP team size
  uint64_t max_steps = 400000000ull;
  double max_time_s = 3600;   // simulated time limit (liveness bound)
  const char* liveness_prop = nullptr;
  bool fifo_wake = false;
  bool calm = false;          // no preemption for now (a world may change it while running)
};
extern Tuning tuning;

// Called by the runner in the child before world_run.
void draw_tuning(Rng& r);

// The simulated process starts here: the calling thread becomes thread 0.
void start();
// Ends simulation mode (all other simulated threads must have ended).
void stop();
bool active();
int live_threads();  // simulated threads not yet finished, including the caller
std::string thread_list();  // what they wait for
int current_thread();

uint64_t now_ns();
double now_s();
void sleep_s(double s);

// Workload / fault randomness.  Workload draws come from an own stream.
Rng& workload();
Rng& faults();

// A named fault decision, recorded in the trace; returns a value in [0, n)
// where 0 means "no fault".  p = probability of a non-zero value.
int fault_choice(const char* kind, double p, int n = 2);

// Event log: goes into the run hash (and to stderr when verbose).
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Abstract-state coverage.
void state(uint64_t h);
// Reach probe.
void probe(const char* name);
void count(const char* name, uint64_t n = 1);

// Reports a violation of `prop` and ends the run. `code` is a short stable
// identifier of what failed.
[[noreturn]] void violation(const std::string& prop, const std::string& code, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
// Internal error of the machinery.
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// No preemption inside (used by oracles).
struct Atomic {
  Atomic();
  ~Atomic();
};

// Scheduling point usable by the worlds.
void yield_point();

// Fork-join helper: runs all functions as simulated threads.
void parallel(const std::vector<std::function<void()>>& fs);

// ---------------------------------------------------------------- disk
struct DiskFaults {
  bool enabled = false;
  std::string root;       // only files below this directory are affected
  double p_open = 0;      // open for writing fails
  double p_open_read = 0; // open for reading fails
  double p_write = 0;     // write fails (ENOSPC/EIO)
  double p_short = 0;     // legal short write/read
  double p_read = 0;      // read fails (EIO) or ends early
  double p_close = 0;     // close reports an error (and loses the tail)
  double p_mkdir = 0;
  double p_mmap = 0;
  double p_fallocate = 0;
  double p_rename = 0;
  bool read_eof = true;   // a failing read can also look like the end of the file
  int64_t disk_full_after = -1;  // bytes until ENOSPC (sticky), -1 none
  std::string only;       // if set: only paths that contain this text
};
extern DiskFaults disk;
// Number of faults that hit a given path (absolute path) so far.
int disk_faults_on(const std::string& path);
int disk_faults_total();
// How often a path was opened for reading so far (while disk.enabled).
uint64_t disk_read_opens(const std::string& path);
// From now on nothing more reaches the disk (crash); used with crash_after_ops.
void set_crash_after_write_ops(int64_t n);  // -1 off
bool crashed();

// Number of bytes currently obtained from malloc by the code under test
// (interposed operator new / malloc are not used; reads mallinfo).
uint64_t heap_in_use();

}  // namespace sim

// Implemented by each world.
extern const char* const kWorldName;
void world_run(const sim::Spec& spec);
