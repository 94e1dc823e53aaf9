// Runner: executes seeds in forked children, gates, minimises, replays.
#include "internal.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <ftw.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>

namespace sim { void mark_ok(); }
using namespace sim;

static Report* g_rep;
static std::string g_scratch_base;
static double g_wall_limit = 60;

static double wall() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void rm_tree(const std::string& d) {
  if (d.size() > 8) nftw(d.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS);
}

struct Result {
  int status = 0;  // 1 ok 2 violation 3 harness error
  std::string prop, code, msg;
  uint64_t hash = 0;
  std::string sig() const { return prop + "|" + code; }
};

static std::string tail_of(const std::string& f, size_t n) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string s = ss.str();
  return s.size() > n ? s.substr(s.size() - n) : s;
}
static std::string norm_crash(const std::string& err) {
  // "Check failed" text or a terminate message, without numbers that vary
  std::string line;
  size_t p = err.rfind("Check failed");
  if (p == std::string::npos) p = err.rfind("terminate called");
  if (p == std::string::npos) p = err.rfind("what():");
  if (p == std::string::npos) {
    p = err.rfind("\nF");
    if (p != std::string::npos) {
      size_t q = err.find("] ", p);
      if (q != std::string::npos && q - p < 120) p = q + 2;
    }
  }
  if (p != std::string::npos) line = err.substr(p, err.find('\n', p) - p);
  std::string o;
  for (char c : line) {
    if (isdigit((unsigned char)c)) {
      if (o.empty() || o.back() != '#') o += '#';
    } else if (isalnum((unsigned char)c) || strchr("_:<>=!()*+-. ", c)) {
      o += c;
    }
  }
  if (o.size() > 60) o.resize(60);
  return o;
}

// Runs start in children of a process that was set aside before anything else
// happened in this one, with a constant command line and environment: the memory
// a run sees does not depend on how or after what it was asked for.
struct Order {  // in shared memory
  uint64_t seed;
  int tier, verbose, keep_output, by_trace, cpu;
  double wall;
  char prop[16], scratch[512], errf[512];
  int ntrace;
  Ent trace[kMaxTrace];
};
static Order* g_order;
static int g_to = -1, g_from = -1;  // pipes to and from the process that starts the runs

static void run_child() {
  const Order& o = *g_order;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = 6ull << 30;
  setrlimit(RLIMIT_AS, &rl);
  if (o.cpu >= 0) {
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(o.cpu, &cs);
    sched_setaffinity(0, sizeof cs, &cs);
  }
  if (!o.keep_output) {
    int fd = open(o.errf, O_CREAT | O_TRUNC | O_RDWR, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  } else {
    dup2(2, 1);
  }
  if (chdir(o.scratch)) _exit(31);
  setenv("HOME", o.scratch, 1);
  alarm((unsigned)o.wall);
  Spec spec;
  spec.prop = o.prop;
  spec.seed = o.seed;
  spec.tier = o.tier;
  spec.verbose = o.verbose;
  spec.scratch = o.scratch;
  std::vector<Ent> tr;
  if (o.by_trace) {
    tr.reserve(kMaxTrace);
    tr.assign(o.trace, o.trace + o.ntrace);
  }
  rep = g_rep;
  setup_run(spec, o.by_trace ? &tr : nullptr);
  world_run(spec);
  mark_ok();
  fflush(nullptr);
  _exit(0);
}
static void start_runner() {
  g_rep = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_order = (Order*)mmap(nullptr, sizeof(Order), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int p[2], q[2];
  if (pipe2(p, O_CLOEXEC) || pipe2(q, O_CLOEXEC)) _exit(30);
  pid_t parent = getpid();
  pid_t pid = fork();
  if (pid < 0) _exit(30);
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(0);
    close(p[1]);
    close(q[0]);
    char c;
    while (read(p[0], &c, 1) == 1) {
      pid_t k = fork();
      if (k == 0) {
        close(p[0]);
        close(q[1]);
        run_child();
      }
      int st = SIGKILL;
      if (k > 0) waitpid(k, &st, 0);
      if (write(q[1], &st, sizeof st) != sizeof st) break;
    }
    _exit(0);
  }
  close(p[0]);
  close(q[1]);
  g_to = p[1];
  g_from = q[0];
}

static int g_cpu = -1;
static Result run_one(const Spec& spec0, const std::vector<Ent>* replay, bool keep_output = false) {
  Spec spec = spec0;
  Report* r = g_rep;
  memset(r, 0, offsetof(Report, states));
  static int n = 0;
  char sub[16];
  snprintf(sub, sizeof sub, "/r%03d", n++ % 1000);
  spec.scratch = g_scratch_base + sub;
  rm_tree(spec.scratch);
  mkdir(spec.scratch.c_str(), 0755);
  std::string errf = g_scratch_base + "/stderr";
  fflush(nullptr);
  Order& o = *g_order;
  o.seed = spec.seed;
  o.tier = spec.tier;
  o.verbose = spec.verbose;
  o.keep_output = keep_output;
  o.cpu = g_cpu;
  o.wall = g_wall_limit;
  snprintf(o.prop, sizeof o.prop, "%s", spec.prop.c_str());
  snprintf(o.scratch, sizeof o.scratch, "%s", spec.scratch.c_str());
  snprintf(o.errf, sizeof o.errf, "%s", errf.c_str());
  o.by_trace = replay != nullptr;
  o.ntrace = replay ? (int)std::min<size_t>(replay->size(), kMaxTrace) : 0;
  if (o.ntrace) memcpy((void*)o.trace, replay->data(), sizeof(Ent) * o.ntrace);
  int st = SIGKILL;
  if (write(g_to, "r", 1) != 1 || read(g_from, &st, sizeof st) != sizeof st) st = SIGKILL;
  Result res;
  res.status = r->status;
  res.prop = r->prop;
  res.code = r->code;
  res.msg = r->msg;
  res.hash = r->hash;
  if (r->status == 0) {
    std::string err = keep_output ? "" : tail_of(errf, 20000);
    if (WIFSIGNALED(st)) {
      int sg = WTERMSIG(st);
      if (sg == SIGALRM) {
        res.status = 2;
        res.prop = spec.prop;
        res.code = "stuck";
        res.msg = "run did not end within the real-time limit";
      } else if (sg == SIGKILL) {
        res.status = 3;
        res.msg = "child was killed";
      } else {
        res.status = 2;
        res.prop = spec.prop;
        const char* nm = sg == SIGABRT ? "abort" : sg == SIGSEGV || sg == SIGBUS ? "segv" : sg == SIGFPE ? "fpe" : "signal";
        std::string t = sg == SIGABRT ? norm_crash(err) : "";
        res.code = std::string("crash-") + nm + (t.empty() ? "" : ":" + t);
        size_t p = err.rfind("Check failed");
        if (p == std::string::npos) p = err.rfind("terminate called");
        res.msg = p != std::string::npos ? err.substr(p, 300) : "process died from a signal; last output: " + (err.size() > 300 ? err.substr(err.size() - 300) : err);
      }
    } else {
      // exit() called by the code under test
      res.status = 2;
      res.prop = spec.prop;
      res.code = "exit";
      res.msg = "process ended early with status " + std::to_string(WEXITSTATUS(st)) + (err.size() > 300 ? err.substr(err.size() - 300) : err);
    }
  }
  rm_tree(spec.scratch);
  return res;
}

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}

static void write_replay(const std::string& f, const Spec& s, const Result& r, const std::vector<Ent>& tr, bool by_trace,
                         size_t full) {
  std::ofstream o(f);
  o << "# simulator replay file: run with  /verif/replay <this file>\n";
  o << "world " << kWorldName << "\nprop " << s.prop << "\nseed " << s.seed << "\ntier " << s.tier << "\n";
  o << "mode " << (by_trace ? "trace" : "seed") << "\n";
  o << "expect " << r.prop << "|" << r.code << "\n";
  std::string m = r.msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  o << "message " << m << "\n";
  o << "full_trace_entries " << full << "\n";
  o << "# tid kind step-or-fault-key value   (P preempt to, B on block run, W wake waiter, S stall ps, U spurious ps, F fault)\n";
  if (by_trace)
    for (auto& e : tr) o << "e " << e.tid << " " << (char)e.kind << " " << e.key << " " << e.val << "\n";
  o << "end\n";
}
static bool read_replay(const std::string& f, Spec& s, std::vector<Ent>& tr, bool& by_trace, std::string& expect) {
  std::ifstream in(f);
  if (!in) return false;
  std::string line;
  by_trace = false;
  bool ended = false;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "prop") is >> s.prop;
    else if (k == "seed") is >> s.seed;
    else if (k == "tier") is >> s.tier;
    else if (k == "mode") {
      std::string m;
      is >> m;
      by_trace = m == "trace";
    } else if (k == "expect") {
      expect = line.substr(7);
    } else if (k == "e") {
      Ent e;
      std::string kd;
      is >> e.tid >> kd >> e.key >> e.val;
      e.kind = kd[0];
      tr.push_back(e);
    } else if (k == "end") {
      ended = true;
    }
  }
  return ended;
}

// delta debugging over the trace entries
static std::vector<Ent> minimise(const Spec& spec, std::vector<Ent> tr, const std::string& sig, double budget) {
  double t0 = wall();
  auto fails = [&](const std::vector<Ent>& c) {
    Result r = run_one(spec, &c);
    return r.status == 2 && r.sig() == sig;
  };
  // first: nothing at all?
  std::vector<Ent> empty;
  if (fails(empty)) return empty;
  size_t n = 2;
  while (tr.size() >= 2 && wall() - t0 < budget) {
    size_t chunk = (tr.size() + n - 1) / n;
    bool reduced = false;
    for (size_t i = 0; i < tr.size() && wall() - t0 < budget; i += chunk) {
      std::vector<Ent> c(tr.begin(), tr.begin() + i);
      if (i + chunk < tr.size()) c.insert(c.end(), tr.begin() + i + chunk, tr.end());
      if (fails(c)) {
        tr = c;
        n = std::max<size_t>(n - 1, 2);
        reduced = true;
        break;
      }
    }
    if (!reduced) {
      if (n >= tr.size()) break;
      n = std::min(tr.size(), n * 2);
    }
  }
  return tr;
}

int main(int argc, char** argv) {
  const int kArgs = 90;  // descriptor that carries the command line
  if (argc != 1 || strcmp(argv[0], "sim") || !getenv("SIM_ENV")) {
    // address-space randomisation off (addresses are an input of the run), constant
    // command line and environment (their size shifts the stack)
    int p = personality(0xffffffff);
    if (!(p & ADDR_NO_RANDOMIZE)) personality(p | ADDR_NO_RANDOMIZE);
    int fd = memfd_create("args", 0);
    for (int i = 1; i < argc; i++)
      if (write(fd, argv[i], strlen(argv[i]) + 1) < 0) return 3;
    lseek(fd, 0, SEEK_SET);
    if (fd < 0 || dup2(fd, kArgs) < 0) return 3;
    close(fd);
    static char* args[] = {(char*)"sim", nullptr};
    static char* envp[] = {(char*)"SIM_ENV=1", (char*)"PATH=/usr/bin:/bin", (char*)"TZ=UTC", (char*)"OMP_NUM_THREADS=1",
                           (char*)"LC_ALL=C", (char*)"HOME=/nonexistent", nullptr};
    execve("/proc/self/exe", args, envp);
    return 3;
  }
  fcntl(kArgs, F_SETFD, FD_CLOEXEC);
  start_runner();
  std::map<std::string, std::string> a;
  {
    std::string all, k;
    char buf[4096];
    ssize_t n;
    while ((n = read(kArgs, buf, sizeof buf)) > 0) all.append(buf, n);
    close(kArgs);
    std::istringstream is(all);
    while (std::getline(is, k, '\0')) {
      if (k.rfind("--", 0) != 0) continue;
      size_t e = k.find('=');
      if (e != std::string::npos) a[k.substr(2, e - 2)] = k.substr(e + 1);
      else a[k.substr(2)] = "1";
    }
  }
  if (a.count("cpu")) g_cpu = atoi(a["cpu"].c_str());
  const char* base = a.count("scratch") ? a["scratch"].c_str() : "/tmp";
  // path of constant length: it must not vary between processes
  char nm[512];
  int width = 76 - (int)strlen(base);
  snprintf(nm, sizeof nm, "%s/sim.%0*d", base, width < 8 ? 8 : width, (int)getpid());
  g_scratch_base = nm;
  rm_tree(g_scratch_base);
  mkdir(g_scratch_base.c_str(), 0755);
  if (a.count("wall")) g_wall_limit = atof(a["wall"].c_str());

  Spec spec;
  spec.prop = a["prop"];
  spec.tier = a.count("tier") ? atoi(a["tier"].c_str()) : 0;
  spec.verbose = a.count("verbose");
  int rc = 0;
  auto line = [](const std::string& s) {
    fwrite(s.data(), 1, s.size(), stdout);
    fputc('\n', stdout);
    fflush(stdout);
  };
  auto result_json = [&](const Result& r) {
    std::ostringstream o;
    o << "{\"status\":" << r.status << ",\"prop\":\"" << esc(r.prop) << "\",\"code\":\"" << esc(r.code) << "\",\"msg\":\"" << esc(r.msg)
      << "\",\"hash\":\"" << std::hex << r.hash << std::dec << "\",\"steps\":" << g_rep->steps << ",\"switches\":" << g_rep->switches
      << ",\"sim_s\":" << g_rep->sim_ps / 1e12 << ",\"trace\":" << g_rep->ntrace << ",\"threads\":" << g_rep->threads << "}";
    return o.str();
  };

  if (a.count("one")) {  // --one --seed=N
    spec.seed = strtoull(a["seed"].c_str(), nullptr, 10);
    Result r = run_one(spec, nullptr, spec.verbose);
    line(result_json(r));
    if (a.count("dump")) {
      std::ofstream o(a["dump"]);
      for (int i = 0; i < g_rep->ntrace; i++) o << g_rep->trace[i].tid << " " << (char)g_rep->trace[i].kind << " " << g_rep->trace[i].key << " " << g_rep->trace[i].val << "\n";
    }
    if (a.count("probes"))
      for (int i = 0; i < g_rep->nprobes; i++) printf("  %-40s %lu\n", g_rep->probes[i].name, (unsigned long)g_rep->probes[i].n);
    if (a.count("selfreplay")) {
      std::vector<Ent> tr(g_rep->trace, g_rep->trace + g_rep->ntrace);
      Result r2 = run_one(spec, &tr, spec.verbose);
      line(result_json(r2));
    }
    rc = r.status == 1 ? 0 : 1;
  } else if (a.count("replay")) {
    std::vector<Ent> tr;
    bool by_trace;
    std::string expect;
    if (!read_replay(a["replay"], spec, tr, by_trace, expect)) {
      fprintf(stderr, "bad replay file\n");
      rc = 2;
    } else {
      Result r = run_one(spec, by_trace ? &tr : nullptr, spec.verbose);
      std::ostringstream o;
      bool same = r.status == 2 && r.sig() == expect;
      if (spec.verbose && r.status == 2) same = r.prop == expect.substr(0, expect.find('|'));
      o << "{\"reproduced\":" << (same ? "true" : "false") << ",\"expect\":\"" << esc(expect) << "\",\"result\":" << result_json(r) << "}";
      line(o.str());
      rc = same ? 0 : 1;
    }
  } else if (a.count("confirm")) {  // --confirm --seed=N --out=FILE: gate + minimise + write the replay file
    spec.seed = strtoull(a["seed"].c_str(), nullptr, 10);
    double budget = a.count("budget") ? atof(a["budget"].c_str()) : 20;
    Result r1 = run_one(spec, nullptr);
    std::vector<Ent> tr(g_rep->trace, g_rep->trace + g_rep->ntrace);
    bool over = g_rep->trace_overflow;
    Result r2 = run_one(spec, nullptr);
    if (r1.status != 2 || r2.status != 2 || r1.sig() != r2.sig() || (r1.hash != r2.hash)) {
      line("{\"confirmed\":false,\"why\":\"seed not repeatable\",\"r1\":" + result_json(r1) + ",\"r2\":" + result_json(r2) + "}");
      rc = 3;
    } else {
      bool by_trace = false;
      std::vector<Ent> mn;
      size_t full = tr.size();
      if (!over) {
        Result r3 = run_one(spec, &tr);
        if (r3.status == 2 && r3.sig() == r1.sig()) {
          by_trace = true;
          mn = minimise(spec, tr, r1.sig(), budget);
          Result r4 = run_one(spec, &mn);
          if (!(r4.status == 2 && r4.sig() == r1.sig())) by_trace = false;
          else r1 = r4;
        }
      }
      write_replay(a["out"], spec, r1, mn, by_trace, full);
      std::ostringstream o;
      o << "{\"confirmed\":true,\"by_trace\":" << (by_trace ? "true" : "false") << ",\"full\":" << full << ",\"min\":" << mn.size()
        << ",\"result\":" << result_json(r1) << "}";
      line(o.str());
    }
  } else {  // search: --base=SEED --first=I --stride=K --runs=N --seconds=T --out=FILE
    uint64_t vbase = strtoull(a["base"].c_str(), nullptr, 10);
    uint64_t first = strtoull(a["first"].c_str(), nullptr, 10), stride = strtoull(a["stride"].c_str(), nullptr, 10);
    uint64_t runs = strtoull(a["runs"].c_str(), nullptr, 10);
    double secs = atof(a["seconds"].c_str());
    int max_viol = a.count("maxviol") ? atoi(a["maxviol"].c_str()) : 3;
    if (!stride) stride = 1;
    std::set<std::string> known;
    {
      std::string k = a["known"], c;
      std::istringstream is(k);
      while (std::getline(is, c, ';')) known.insert(c);
    }
    std::string stopfile = a["stopfile"];
    double t0 = wall();
    uint64_t nrun = 0, nviol = 0, nerr = 0, steps = 0, sw = 0, pre = 0, stalls = 0, thr = 0, faultruns = 0;
    double simt = 0;
    std::map<std::string, uint64_t> probes;
    std::set<uint64_t> hashes, states, nontriv;
    std::map<std::string, int> modes;
    std::ostringstream viols;
    std::string sample;
    std::map<std::string, int> bysig;
    for (uint64_t i = first; nrun < runs && wall() - t0 < secs; i += stride) {
      spec.seed = hash64(hash64(vbase, 0x5EED), i) >> 1;
      if (a.count("rawseed")) spec.seed = vbase + i;
      Result r = run_one(spec, nullptr);
      nrun++;
      if (a.count("hashes")) std::ofstream(a["hashes"], std::ios::app) << spec.seed << " " << std::hex << r.hash << "\n";
      if (!stopfile.empty() && (nrun & 7) == 0 && access(stopfile.c_str(), F_OK) == 0) runs = nrun;
      steps += g_rep->steps;
      sw += g_rep->switches;
      pre += g_rep->preemptions;
      stalls += g_rep->stalls;
      thr += g_rep->threads;
      simt += g_rep->sim_ps / 1e12;
      if (g_rep->faults) faultruns++;
      uint64_t h = r.hash;
      hashes.insert(h);
      if (g_rep->preemptions + g_rep->faults + g_rep->stalls > 0) nontriv.insert(h);
      for (int k = 0; k < g_rep->nstates; k++) states.insert(g_rep->states[k]);
      for (int k = 0; k < g_rep->nprobes; k++) probes[g_rep->probes[k].name] += g_rep->probes[k].n;
      if (nrun == 1) sample = "seed " + std::to_string(spec.seed) + " " + result_json(r);
      if (r.status == 2) {
        nviol++;
        if (bysig[r.sig()]++ < max_viol) {
          viols << (viols.str().empty() ? "" : ",") << "{\"seed\":" << spec.seed << ",\"idx\":" << i << ",\"result\":" << result_json(r) << "}";
        }
        bool is_known = false;
        for (auto& k : known)
          if (!k.empty() && r.code.rfind(k, 0) == 0) is_known = true;
        if (!is_known && !stopfile.empty() && bysig[r.sig()] >= 2) {
          close(open(stopfile.c_str(), O_CREAT | O_WRONLY, 0644));
          break;
        }
      } else if (r.status != 1) {
        nerr++;
        viols << (viols.str().empty() ? "" : ",") << "{\"seed\":" << spec.seed << ",\"idx\":" << i << ",\"result\":" << result_json(r) << "}";
        if (nerr > 5) break;
      }
    }
    std::ostringstream o;
    o << "{\"world\":\"" << kWorldName << "\",\"runs\":" << nrun << ",\"violating\":" << nviol << ",\"errors\":" << nerr << ",\"steps\":" << steps
      << ",\"switches\":" << sw << ",\"preemptions\":" << pre << ",\"stalls\":" << stalls << ",\"threads\":" << thr << ",\"fault_runs\":" << faultruns
      << ",\"sim_s\":" << simt << ",\"wall_s\":" << wall() - t0 << ",\"distinct_schedules\":" << hashes.size()
      << ",\"distinct_nontrivial\":" << nontriv.size() << ",\"states\":" << states.size() << ",\"sample\":\"" << esc(sample) << "\",\"probes\":{";
    bool f1 = true;
    for (auto& p : probes) {
      o << (f1 ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second;
      f1 = false;
    }
    o << "},\"violations\":[" << viols.str() << "]}";
    line(o.str());
    rc = nerr ? 2 : nviol ? 1 : 0;
  }
  rm_tree(g_scratch_base);
  return rc;
}
