// World "misc": profiling of blocks (C21), reading of KITTI scans with read
// faults (C23), logging and directory helpers used from many threads (C24).
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include "common.h"
#include "common/file_utils.h"
#include "common/macro_defines.h"
#include "common/performance/simple_prof.h"
#include "ros_node/kitti_reader.h"
const char* const kWorldName = "misc";
using namespace static_map;
using wl::sleep_ms;

namespace {
std::string P;

// ---------------------------------------------------------------- C21
struct Measure {
  int64_t inner, outer;  // bounds of one measured time in us
};

void block(const std::string& name, double ms, std::vector<Measure>* out, int depth) {
  const uint64_t a = sim::now_ns();
  uint64_t b, c;
  {
    REGISTER_BLOCK(name);
    b = sim::now_ns();
    if (ms > 0) sleep_ms(ms);
    if (depth > 0) block(name, ms / 2, out, depth - 1);
    c = sim::now_ns();
  }
  const uint64_t d = sim::now_ns();
  sim::Atomic at;
  out->push_back({(int64_t)((c - b) / 1000), (int64_t)((d - a) / 1000) + 1});
}

void run_prof(const sim::Spec& spec) {
  auto& w = sim::workload();
  const int nthreads = w.range(2, 6), nnames = w.range(1, 3);
  const bool merge = w.chance(0.6), late_merge = w.chance(0.5), ms_unit = w.chance(0.3);
  std::vector<std::string> names;
  for (int i = 0; i < nnames; i++) names.push_back("block" + std::string(i + 1, (char)('a' + i)));
  // per thread and name
  std::vector<std::map<std::string, std::vector<Measure>>> done(nthreads);
  std::vector<std::function<void()>> fs;
  for (int t = 0; t < nthreads; t++)
    fs.push_back([&, t, s = w.next()] {
      sim::Rng r(s);
      const int n = r.range(1, 6);
      if (r.chance(0.3)) sleep_ms(r.unit());
      for (int k = 0; k < n; k++) {
        const std::string& name = names[r.below(nnames)];
        block(name, r.pick<double>({0.0, 0.01, 1.0, 30.0}) * r.unit(), &done[t][name], r.chance(0.2) ? 1 : 0);
      }
    });
  std::shared_ptr<common::performance::TimerManager> m;
  if (!late_merge) common::performance::TimerManager::Instance()->MergeAllThreadIntoOne(merge);
  sim::parallel(fs);
  m = common::performance::TimerManager::Instance();
  if (late_merge) m->MergeAllThreadIntoOne(merge);
  if (ms_unit) m->SetUnit(common::performance::TimerManager::kMs);
  // the summary is written when the manager is destroyed
  std::ostringstream text;
  auto* old = std::cout.rdbuf(text.rdbuf());
  m->~TimerManager();
  std::cout.rdbuf(old);
  new std::shared_ptr<common::performance::TimerManager>(m);  // never destroyed again
  struct Row {
    long times;
    std::string avg, sum, min, max;
  };
  std::multimap<std::string, Row> rows;
  std::istringstream in(text.str());
  std::string line;
  while (std::getline(in, line)) {
    std::vector<std::string> f;
    std::istringstream ls(line);
    std::string part;
    while (std::getline(ls, part, '|')) {
      const size_t a = part.find_first_not_of(' '), b = part.find_last_not_of(' ');
      f.push_back(a == std::string::npos ? "" : part.substr(a, b - a + 1));
    }
    if (f.size() == 6 && std::find(names.begin(), names.end(), f[0]) != names.end()) rows.insert({f[0], {atol(f[1].c_str()), f[2], f[3], f[4], f[5]}});
  }
  const int64_t unit = ms_unit ? 1000 : 1;
  auto within = [&](const std::string& v, int64_t lo, int64_t hi) {
    if (v == "<1") return lo / unit < 1;
    const int64_t x = atoll(v.c_str());
    return x >= lo / unit && x <= hi / unit;
  };
  // compares one row with a set of measurements
  auto fits = [&](const Row& r, const std::vector<Measure>& ms) -> std::string {
    int64_t slo = 0, shi = 0, nlo = INT64_MAX, nhi = INT64_MAX, xlo = 0, xhi = 0;
    for (auto& e : ms) {
      slo += e.inner;
      shi += e.outer;
      nlo = std::min(nlo, e.inner);
      nhi = std::min(nhi, e.outer);
      xlo = std::max(xlo, e.inner);
      xhi = std::max(xhi, e.outer);
    }
    const int64_t n = (int64_t)ms.size();
    if (r.times != n) return "times " + std::to_string(r.times) + " instead of " + std::to_string(n);
    if (!within(r.sum, slo, shi)) return "sum " + r.sum;
    if (!within(r.avg, slo / n, shi / n)) return "average " + r.avg;
    if (!within(r.min, nlo, nhi)) return "minimum " + r.min;
    if (!within(r.max, xlo, xhi)) return "maximum " + r.max;
    return "";
  };
  for (auto& name : names) {
    std::vector<std::vector<Measure>> groups;
    std::vector<Measure> all;
    for (auto& d : done)
      if (d.count(name)) {
        groups.push_back(d[name]);
        all.insert(all.end(), d[name].begin(), d[name].end());
      }
    auto range = rows.equal_range(name);
    std::vector<Row> rs;
    long total = 0;
    for (auto it = range.first; it != range.second; ++it) {
      rs.push_back(it->second);
      total += it->second.times;
    }
    if (total != (long)all.size())
      sim::violation(P, "wrong-count", "%s ran %zu times, %ld are reported", name.c_str(), all.size(), total);
    if (all.empty()) continue;
    if (merge) {
      if (rs.size() != 1) sim::violation(P, "rows", "%s has %zu lines in the merged summary", name.c_str(), rs.size());
      auto e = fits(rs[0], all);
      if (!e.empty()) sim::violation(P, "wrong-value", "%s: %s", name.c_str(), e.c_str());
    } else if (rs.size() == groups.size()) {  // (threads can share an id when one ended before the other began)
      std::vector<int> match(groups.size(), -1);
      // bipartite matching of rows and threads
      std::function<bool(int, std::vector<char>&)> aug = [&](int i, std::vector<char>& seen) {
        for (size_t g = 0; g < groups.size(); g++)
          if (!seen[g] && fits(rs[i], groups[g]).empty()) {
            seen[g] = 1;
            if (match[g] < 0 || aug(match[g], seen)) {
              match[g] = i;
              return true;
            }
          }
        return false;
      };
      for (size_t i = 0; i < rs.size(); i++) {
        std::vector<char> seen(groups.size(), 0);
        if (!aug((int)i, seen)) sim::violation(P, "wrong-value", "%s: a line fits no thread (times %ld, sum %s)", name.c_str(), rs[i].times, rs[i].sum.c_str());
      }
    }
    sim::state(sim::hash64(all.size(), rs.size()));
  }
}

// ---------------------------------------------------------------- C23
void run_kitti(const sim::Spec& spec) {
  auto& w = sim::workload();
  auto& f = sim::faults();
  const std::string dir = spec.scratch + "/scans";
  mkdir(dir.c_str(), 0755);
  struct File {
    std::string name;
    int index;
    std::vector<float> v;
    bool gone = false;
  };
  std::vector<File> files;
  const int n = w.range(0, w.pick<int>({3, 12}));
  const bool big = w.chance(0.03);
  int idx = 0;
  const bool free_names = w.chance(0.35);  // names of different lengths
  for (int i = 0; i < n; i++) {
    File e;
    idx += w.range(1, w.chance(0.2) ? 20000 : 3);
    e.index = idx;
    char b[512];
    if (free_names) {
      e.index = -1;
      snprintf(b, sizeof b, "%s/%s%d.bin", dir.c_str(), w.pick<const char*>({"", "scan_", "s", "S"}), idx);
    } else {
      snprintf(b, sizeof b, "%s/%010d.bin", dir.c_str(), idx);
    }
    e.name = b;
    const int pts = w.chance(0.1) ? 0 : w.range(1, w.pick<int>({2, 40, 700}));
    const int np = big && i == 0 ? 250000 + w.range(-1, 3) : pts;
    for (int k = 0; k < np * 4; k++) e.v.push_back(k % 4 == 3 ? w.range(0, 100) / 100.f : (float)(i * 1000 + k));
    int tail = w.chance(0.2) ? w.range(1, 15) : 0;  // the file ends inside a record
    if (tail) sim::count("fault.cut_record");
    FILE* o = ::fopen(b, "wb");
    ::fwrite(e.v.data(), 4, e.v.size(), o);
    const char junk[16] = {1, 2, 3};
    ::fwrite(junk, 1, tail, o);
    ::fclose(o);
    files.push_back(e);
  }
  std::sort(files.begin(), files.end(), [](const File& a, const File& b) { return a.name < b.name; });
  if (w.chance(0.3)) mkdir((dir + "/sub").c_str(), 0755);
  auto same = [](const MapBuilder::PointCloudPtr& c, const File& e) {
    if (c->points.size() * 4 != e.v.size()) return false;
    for (size_t k = 0; k < c->points.size(); k++) {
      auto& p = c->points[k];
      if (p.x != e.v[k * 4] || p.y != e.v[k * 4 + 1] || p.z != e.v[k * 4 + 2] || std::fabs(p.intensity - e.v[k * 4 + 3] * 255) > 1e-3) return false;
    }
    return true;
  };
  const int rounds = w.range(1, 3);
  sim::disk.root = spec.scratch;
  sim::disk.only = ".bin";
  sim::disk.read_eof = false;
  sim::disk.enabled = true;
  const bool faulty = f.chance(0.6);
  uint64_t base = 0;
  for (int round = 0; round < rounds; round++) {
    KittiReader r;
    if (faulty) {
      const double p = f.pick<double>({0.1, 0.5});
      sim::disk.p_open_read = f.chance(0.6) ? p : 0;
      sim::disk.p_read = f.chance(0.6) ? p : 0;
    }
    r.SetPointCloudDataPath(dir);
    if (faulty && f.chance(0.3) && !files.empty()) {  // removed while the data set is read
      auto& g = files[f.below(files.size())];
      if (!g.gone) {
        unlink(g.name.c_str());
        g.gone = true;
        sim::count("fault.file_removed");
      }
    }
    size_t next = 0;
    std::vector<int> hits;
    for (auto& e : files) hits.push_back(sim::disk_faults_on(e.name));
    auto skippable = [&](size_t i) { return files[i].v.empty() || files[i].gone || sim::disk_faults_on(files[i].name) > hits[i]; };
    for (int guard = 0;; guard++) {
      auto c = r.ReadNext();
      if (!c) break;
      if (guard > 100) sim::violation(P, "endless", "more scans than files");
      if (c->points.empty()) sim::violation(P, "scan-empty", "a scan without points was delivered");
      size_t i = next;
      while (i < files.size() && !same(c, files[i])) {
        if (!skippable(i)) sim::violation(P, "scan-wrong", "file %zu is missing, altered or out of order (%zu points read, %zu in the file)", i, c->points.size(), files[i].v.size() / 4);
        i++;
      }
      if (i == files.size()) sim::violation(P, "scan-unknown", "a scan with %zu points is not a complete file", c->points.size());
      if (files[i].gone) sim::violation(P, "scan-gone", "a removed file was delivered");
      next = i + 1;
    }
    for (size_t i = next; i < files.size(); i++)
      if (!skippable(i)) sim::violation(P, "scan-missing", "file %zu with %zu points was not delivered", i, files[i].v.size() / 4);
    if (r.ReadNext()) sim::violation(P, "after-end", "a scan was delivered after the end");
    // by index
    for (int k = 0; k < 3 && !files.empty() && !free_names; k++) {
      auto& e = files[w.below(files.size())];
      const int h = sim::disk_faults_on(e.name);
      auto c = r.ReadFromBin(e.index);
      const bool fault = e.gone || sim::disk_faults_on(e.name) > h;
      if (c && !c->points.empty() && !same(c, e)) sim::violation(P, "index-wrong", "the scan read by index differs from its file");
      if ((!c || c->points.empty()) && !fault && !e.v.empty()) sim::violation(P, "index-missing", "the scan could not be read by index");
    }
    if (r.ReadFromBin(idx + 7)) sim::violation(P, "index-unknown", "a scan that does not exist was delivered");
    sim::state(sim::hash64(next, files.size() * 16 + sim::disk_faults_total()));
    const uint64_t heap = sim::heap_in_use();
    if (round == 0) base = heap;
    else if (!files.empty() && heap > base + (3u << 20))
      sim::violation(P, "memory-grows", "reading %zu files again needs %lu bytes more", files.size(), (unsigned long)(heap - base));
  }
  if (sim::disk_faults_total()) sim::probe("read_fault");
  sim::disk.enabled = false;
}

// ---------------------------------------------------------------- C24
const int kSources = 4;
const char* const kNames[kSources] = {"alpha_source.cc", "beta.h", "gamma_with_a_long_name.cpp", "d.cc"};
#line 100 "/some/where/alpha_source.cc"
void log0(int kind, const std::string& t) { if (kind == 0) PRINT_ERROR(t); else if (kind == 1) PRINT_WARNING_FMT("%s", t.c_str()); else if (kind == 2) PRINT_DEBUG(t); else PRINT_INFO_FMT("%s %d", t.c_str(), 1); }
#line 201 "beta.h"
void log1(int kind, const std::string& t) { if (kind == 0) PRINT_WARNING(t); else if (kind == 1) PRINT_ERROR_FMT("%s", t.c_str()); else if (kind == 2) PRINT_INFO(t); else PRINT_DEBUG_FMT("%s %d", t.c_str(), 1); }
#line 302 "/x/gamma_with_a_long_name.cpp"
void log2(int kind, const std::string& t) { if (kind == 0) PRINT_INFO(t); else if (kind == 1) PRINT_INFO_FMT("%s", t.c_str()); else if (kind == 2) PRINT_ERROR(t); else PRINT_WARNING_FMT("%s %d", t.c_str(), 1); }
#line 403 "../d.cc"
void log3(int kind, const std::string& t) { if (kind == 0) PRINT_DEBUG(t); else if (kind == 1) PRINT_DEBUG_FMT("%s", t.c_str()); else if (kind == 2) PRINT_WARNING(t); else PRINT_ERROR_FMT("%s %d", t.c_str(), 1); }
#line 290 "misc.cc"
const int kLines[kSources] = {100, 201, 302, 403};
void (*const kLog[kSources])(int, const std::string&) = {log0, log1, log2, log3};
const char* const kLevel[kSources][4] = {{"[ERROR]", "[WARNING]", "[DEBUG]", "[INFO]"},
                                         {"[WARNING]", "[ERROR]", "[INFO]", "[DEBUG]"},
                                         {"[INFO]", "[INFO]", "[ERROR]", "[WARNING]"},
                                         {"[DEBUG]", "[DEBUG]", "[WARNING]", "[ERROR]"}};

size_t occurrences(const std::string& s, const std::string& t) {
  size_t n = 0;
  for (size_t p = s.find(t); p != std::string::npos; p = s.find(t, p + t.size())) n++;
  return n;
}

void run_log(const sim::Spec& spec) {
  auto& w = sim::workload();
  const int nthreads = w.range(2, 5);
  const std::string out = spec.scratch + "/log.txt";
  fflush(stdout);
  std::cout.flush();
  const int keep = dup(1);
  const int fd = ::open(out.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
  dup2(fd, 1);
  struct Said {
    int source, kind;
    std::string text;
  };
  std::vector<std::vector<Said>> said(nthreads);
  std::vector<std::pair<double, double>> slept(nthreads, {0, 0});
  std::vector<std::string> dirs;
  const int ndirs = w.range(1, 3);
  for (int i = 0; i < ndirs; i++) dirs.push_back(spec.scratch + "/d" + std::to_string(i) + (w.chance(0.5) ? "/deep/er" : "") + (w.chance(0.5) ? "/" : ""));
  std::vector<std::function<void()>> fs;
  int dir_failures = 0;
  std::string dir_failed;
  for (int t = 0; t < nthreads; t++)
    fs.push_back([&, t, s = w.next()] {
      sim::Rng r(s);
      const int n = r.range(1, 6), own = (t + (int)r.below(2)) % kSources;
      bool clock = false;
      for (int k = 0; k < n; k++) {
        if (r.chance(0.3)) {
          auto& d = dirs[r.below(dirs.size())];
          bool ok = false;
          std::string what = "returned false";
          try {
            ok = common::CreateDir(d);
          } catch (const std::exception& e) {
            what = e.what();
          }
          struct stat st;
          const bool there = stat(d.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
          sim::Atomic at;
          if (!ok || !there) {
            dir_failures++;
            dir_failed = there ? what : "not there after success";
          }
          continue;
        }
        if (r.chance(0.15)) {
          start_clock();
          const double ms = r.range(1, 3) * 1000;
          sleep_ms(ms);
          char fn[64];
          snprintf(fn, sizeof fn, "clock_%d_%d", t, k);
          end_clock("/a/b/clock_source.cc", fn, 77);
          continue;
        }
        Said e;
        e.source = r.chance(0.8) ? own : (int)r.below(kSources);
        e.kind = (int)r.below(4);
        e.text = "<" + std::to_string(t) + ":" + std::to_string(k) + std::string(r.range(1, 30), (char)('a' + t)) + ">";
        kLog[e.source](e.kind, e.text);
        sim::Atomic at;
        said[t].push_back(e);
      }
    });
  sim::parallel(fs);
  fflush(stdout);
  std::cout.flush();
  dup2(keep, 1);
  close(keep);
  close(fd);
  std::ifstream in(out);
  std::vector<std::string> lines;
  std::string line;
  while (std::getline(in, line)) lines.push_back(line);
  for (auto& th : said)
    for (auto& e : th) {
      int found = 0;
      for (auto& l : lines) {
        const size_t n = occurrences(l, e.text);
        found += (int)n;
        if (!n) continue;
        if (l.find(std::string(kNames[e.source])) == std::string::npos || l.find(": " + std::to_string(kLines[e.source])) == std::string::npos)
          sim::violation(P, "wrong-location", "the message %s of %s has the line: %s", e.text.c_str(), kNames[e.source], l.c_str());
        if (occurrences(l, "<") != 1 || occurrences(l, "]") - occurrences(l, "[INFO]") - occurrences(l, "[ERROR]") - occurrences(l, "[WARNING]") - occurrences(l, "[DEBUG]") != 1 || l.find(kLevel[e.source][e.kind]) == std::string::npos)
          sim::violation(P, "mixed-line", "messages are mixed: %s", l.c_str());
      }
      if (found != 1) sim::violation(P, found ? "line-twice" : "line-lost", "the message %s was written %d times", e.text.c_str(), found);
    }
  size_t total = 0;
  for (auto& th : said) total += th.size();
  size_t clocks = 0;
  for (auto& l : lines) clocks += l.find("clock_") != std::string::npos;
  if (lines.size() != total + clocks) sim::violation(P, "line-count", "%zu lines for %zu messages", lines.size(), total + clocks);
  if (dir_failures) sim::violation(P, "directory", "ensuring a directory failed for %d callers (%s)", dir_failures, dir_failed.c_str());
  for (auto& l : lines) {
    const size_t p = l.find("Cost : ");
    if (l.find("clock_") == std::string::npos) continue;
    const double v = p == std::string::npos ? -1 : atof(l.c_str() + p + 7);
    // stalls can make it longer, never shorter
    if (v < 0.999 || v > sim::now_s() + 1) sim::violation(P, "wrong-clock", "a measured time is wrong: %s", l.c_str());
    sim::probe("clock");
  }
  sim::state(sim::hash64(lines.size(), total * 8 + ndirs));
}
}  // namespace

void world_run(const sim::Spec& spec) {
  static std::string prop = spec.prop;
  P = prop;
  sim::tuning.liveness_prop = prop.c_str();
  sim::tuning.max_time_s = 3000;
  sim::start();
  if (P == "C21") run_prof(spec);
  if (P == "C23") run_kitti(spec);
  if (P == "C24") run_log(spec);
  sim::stop();
}
