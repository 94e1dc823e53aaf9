// World "spill": submap and frame clouds that move between memory and disk
// (C08 without disk faults, C09 with failing writes) and the file format used
// for it (C10: crashes while saving, cut files, failing reads).
#include <sys/stat.h>
#include <unistd.h>
#include "builder/memory_manager.h"
#include "builder/submap.h"
#include "builder/trajectory.h"
#include "common.h"
const char* const kWorldName = "spill";
using namespace static_map;
using wl::sleep_ms;

namespace {
std::string P;

data::InnerCloudType::Ptr make_cloud(sim::Rng& r, int n, int tag) {
  data::InnerCloudType::Ptr c(new data::InnerCloudType);
  c->stamp = SimpleTime::FromNanoSec(1500000000000000000ll + (int64_t)r.below(1000000000000ull));
  for (int i = 0; i < n; i++) {
    data::InnerPointType p;
    p.x = (float)r.real(-50, 50);
    p.y = (float)r.real(-50, 50);
    p.z = (float)r.real(-5, 5);
    p.intensity = (float)(tag * 4096 + i);
    p.factor = (float)r.unit();
    c->points.push_back(p);
  }
  return c;
}

std::string differs(const data::InnerCloudType::Ptr& got, const data::InnerCloudType& want) {
  char b[160];
  if (!got) return "no cloud";
  if (got->points.size() != want.points.size()) {
    snprintf(b, sizeof b, "%zu of %zu points", got->points.size(), want.points.size());
    return b;
  }
  if (!wl::same_points(got->points, want.points)) return "points differ";
  if (!(got->stamp == want.stamp)) return "time stamp differs";
  return "";
}

// The matrix form that the registrators use, with normals where they were calculated.
std::string differs(const data::EigenPointCloud::Ptr& got, const data::EigenPointCloud& want) {
  char b[160];
  if (!got) return "no matrix";
  if (got->points.cols() != want.points.cols()) {
    snprintf(b, sizeof b, "%d of %d columns", (int)got->points.cols(), (int)want.points.cols());
    return b;
  }
  if (got->points != want.points) return "matrix differs";
  if (got->normals.cols() != want.normals.cols()) return "normals missing";
  if (got->normals != want.normals) return "normals differ";
  return "";
}

struct Unit {  // one submap with its frames
  std::shared_ptr<Submap> submap;
  std::vector<std::shared_ptr<Frame>> frames;
  data::InnerCloudType want;
  data::EigenPointCloud want_eigen;
  std::vector<data::InnerCloudType> want_frames;
  std::string file;
  // idle bookkeeping
  int reading = 0;
  uint64_t reads = 0;
  double last_start = -1;  // start of the last finished read through the submap
  bool matched = false;
};

void run_spill(const sim::Spec& spec) {
  auto& w = sim::workload();
  const bool faults = P == "C09";
  const std::string pkg = spec.scratch + "/pkg/";
  mkdir(pkg.c_str(), 0755);
  SubmapOptions o;
  o.enable_check = false;
  o.frame_count = w.range(1, 3);
  o.enable_disk_saving = true;
  o.disk_saving_delay = w.range(0, 4);
  o.saving_name_prefix = "s_";
  const int n = w.range(1, 3), readers = w.range(1, 3);
  const int npts = w.chance(0.1) ? 1200 : w.pick<int>({1, 5, 20, 100});  // 400 points fill a stream buffer
  auto traj = std::make_shared<Trajectory>();
  traj->SetId(0);
  std::vector<std::shared_ptr<Trajectory>> trajs{traj};
  std::vector<Unit> U(n);
  for (int i = 0; i < n; i++) {
    auto& u = U[i];
    u.submap.reset(new Submap(o));
    SubmapId id;
    id.trajectory_index = 0;
    id.submap_index = i;
    u.submap->SetId(id);
    u.submap->SetSavePath(pkg);
    for (int k = 0; k < o.frame_count; k++) {
      auto f = std::make_shared<Frame>();
      auto c = make_cloud(w, w.range(1, npts), i * 8 + k);
      u.want_frames.push_back(*c);
      f->SetCloud(std::make_shared<data::InnerPointCloudData>(c));
      f->SetGlobalPose(wl::pose_of(i * 10 + k, w.real(-1, 1), 0, w.real(-1, 1)));
      f->SetTimeStamp(c->stamp);
      u.frames.push_back(f);
      u.submap->InsertFrame(f);
    }
    u.want = *u.submap->Cloud()->GetInnerCloud();
    u.want_eigen = *u.submap->Cloud()->GetEigenCloud();
    size_t total = 0;
    for (auto& f : u.want_frames) total += f.points.size();
    if (u.want.points.size() != total) sim::violation(P, "incomplete-submap", "a submap has %zu points, its frames %zu", u.want.points.size(), total);
    traj->push_back(u.submap);
  }
  sim::disk.root = spec.scratch;
  sim::disk.enabled = true;
  if (sim::faults().chance(0.5)) sim::disk.p_short = 0.2;
  if (faults) {
    auto& f = sim::faults();
    const int kind = (int)f.below(5);
    const double p = f.pick<double>({0.05, 0.3, 1.0});
    if (kind == 0) sim::disk.p_open = p;
    if (kind == 1) sim::disk.p_write = p;
    if (kind == 2) sim::disk.p_close = p;
    if (kind == 3) sim::disk.disk_full_after = (int64_t)f.below(1 + n * o.frame_count * npts * 30);
    if (kind == 4) sim::disk.p_open = sim::disk.p_write = sim::disk.p_close = p / 4;
  }
  auto bad = [&](const char* what, const std::string& d, int i) {
    sim::violation(P, std::string("wrong-") + what, "%s of submap %d: %s%s", what, i, d.c_str(), U[i].matched ? " (saved)" : "");
  };
  auto read_submap = [&](sim::Rng& r, bool hold) {
    const int i = (int)r.below(n);
    auto& u = U[i];
    double start, ref;
    uint64_t opens, reads;
    bool alone;
    {
      sim::Atomic at;
      start = sim::now_s();
      ref = u.last_start;
      alone = u.reading == 0;
      u.reading++;
      reads = ++u.reads;
      opens = sim::disk_read_opens(u.file);
    }
    auto d = u.submap->Cloud();
    auto c = d->GetInnerCloud();
    {
      sim::Atomic at;
      auto e = differs(c, u.want);
      if (!e.empty()) bad("cloud", e, i);
      u.reading--;
      if (reads != u.reads) alone = false;
      const bool loaded = sim::disk_read_opens(u.file) != opens;
      if (loaded) sim::probe("submap_reloaded");
      if (loaded && alone && ref >= 0 && sim::now_s() - ref < o.disk_saving_delay - 0.001)
        sim::violation(P, "dropped-early", "submap %d was dropped from memory %g s after it was read, the delay is %d s", i, sim::now_s() - ref, o.disk_saving_delay);
      u.last_start = std::max(u.last_start, start);
    }
    if (!hold) return;
    const int again = (int)r.range(1, 2);
    for (int k = 0; k < again; k++) {
      sleep_ms(r.pick<double>({0.0, 5.0, 300.0, 1500.0, 6000.0}) * r.unit());
      {
        sim::Atomic at;
        u.reads++;
      }
      auto e = differs(d->GetInnerCloud(), u.want);
      auto g = d->GetEigenCloud();
      sim::Atomic at;
      u.reads++;
      u.last_start = -1;
      if (!e.empty()) bad("held-cloud", e, i);
      e = differs(g, u.want_eigen);
      if (!e.empty()) bad("held-matrix", e, i);
      if (!(d->GetTime() == u.want.stamp)) bad("held-cloud", "time stamp differs", i);
    }
  };
  auto read_frame = [&](sim::Rng& r, bool hold) {
    const int i = (int)r.below(n), k = (int)r.below(o.frame_count);
    auto& u = U[i];
    auto d = u.frames[k]->Cloud();
    if (hold) sleep_ms(r.pick<double>({0.0, 5.0, 300.0, 1500.0}) * r.unit());
    auto e = differs(d->GetInnerCloud(), u.want_frames[k]);
    auto g = d->GetEigenCloud();
    sim::Atomic at;
    if (!e.empty()) bad("frame", e, i);
    if (!g || (size_t)g->points.cols() != u.want_frames[k].points.size()) bad("frame-matrix", "incomplete", i);
  };
  {
    std::unique_ptr<MemoryManager> mm(new MemoryManager(&trajs));
    std::vector<std::function<void()>> fs;
    std::vector<uint64_t> seeds;
    for (int i = 0; i <= readers; i++) seeds.push_back(w.next());
    fs.push_back([&, s = seeds[0]] {
      sim::Rng r(s);
      for (int i = 0; i < n; i++) {
        sleep_ms(r.pick<double>({0.0, 2.0, 500.0, 3000.0}) * r.unit());
        sim::event("match %d", i);
        U[i].submap->SetMatchedTransformedToNext(wl::pose_of(1, 2, 3, 0.1));
        sim::Atomic at;
        U[i].matched = true;
        sim::event("matched %d", i);
      }
    });
    for (int t = 0; t < readers; t++)
      fs.push_back([&, s = seeds[1 + t]] {
        sim::Rng r(s);
        const int ops = r.range(3, 14);
        const double pause = r.pick<double>({0.0, 30.0, 800.0, 3000.0});
        for (int k = 0; k < ops; k++) {
          if (pause > 0) sleep_ms(pause * r.unit());
          if (r.chance(0.6)) read_submap(r, r.chance(0.3));
          else read_frame(r, r.chance(0.3));
        }
      });
    for (int i = 0; i < n; i++) U[i].file = pkg + U[i].submap->SavedFileName();
    sim::parallel(fs);
    {
      sim::Atomic at;
      for (int i = 0; i < n; i++) {
        if (sim::disk_faults_on(U[i].file)) sim::probe("fault_on_submap_file");
        sim::state(sim::hash64(sim::disk_read_opens(U[i].file), sim::disk_faults_on(U[i].file)));
      }
      // from now on the disk works
      sim::disk.p_open = sim::disk.p_write = sim::disk.p_close = 0;
      sim::disk.disk_full_after = -1;
    }
    // the threads can stall for up to 200 s altogether
    const bool long_wait = P == "C08" && w.chance(0.2);
    sim::sleep_s(o.disk_saving_delay + (long_wait ? 300 : 3));
    sim::Rng r(w.next());
    for (int i = 0; i < n; i++) {
      auto& u = U[i];
      const uint64_t before = sim::disk_read_opens(u.file);
      auto d = u.submap->Cloud();
      auto e = differs(d->GetInnerCloud(), u.want);
      if (!e.empty()) bad("cloud", e, i);
      e = differs(d->GetEigenCloud(), u.want_eigen);
      if (!e.empty()) bad("matrix", e, i);
      if (long_wait && sim::disk_read_opens(u.file) == before)
        sim::violation(P, "never-dropped", "submap %d was still in memory %d s after it was used, the delay is %d s", i, o.disk_saving_delay + 300, o.disk_saving_delay);
      for (int k = 0; k < o.frame_count; k++) {
        e = differs(u.frames[k]->Cloud()->GetInnerCloud(), u.want_frames[k]);
        if (!e.empty()) bad("frame", e, i);
      }
    }
  }
  sim::disk.enabled = false;
}

// ---------------------------------------------------------------- C10
void run_file(const sim::Spec& spec) {
  auto& w = sim::workload();
  auto& f = sim::faults();
  const std::string name = spec.scratch + "/cloud.bin";
  auto c = make_cloud(w, w.chance(0.1) ? 0 : w.range(1, w.pick<int>({1, 4, 60, 900})), 1);
  const bool wrapper = !c->points.empty() && w.chance(0.5);
  const int mode = (int)f.below(5);  // 0 none 1 crash while saving 2 cut 3 failing reads 4 failing writes
  sim::disk.root = spec.scratch;
  sim::disk.enabled = true;
  if (f.chance(0.4)) sim::disk.p_short = 0.3;
  if (mode == 1) sim::set_crash_after_write_ops((int64_t)f.below(4));
  if (mode == 4) {
    const double p = f.pick<double>({0.1, 0.5});
    const int k = (int)f.below(3);
    if (k == 0) sim::disk.p_write = p;
    if (k == 1) sim::disk.p_close = p;
    if (k == 2) sim::disk.disk_full_after = (int64_t)f.below(1 + c->points.size() * 24);
  }
  bool stored;
  std::shared_ptr<data::InnerPointCloudData> data;
  if (wrapper) {
    data.reset(new data::InnerPointCloudData(std::make_shared<data::InnerCloudType>(*c)));
    stored = data->SaveToFile(name);
  } else {
    std::fstream of(name, std::ios::out | std::ios::binary);
    stored = of.is_open() && c->Serialize(&of) >= 0;
    of.close();
    stored = stored && of.good();
  }
  sim::disk.p_write = sim::disk.p_close = 0;
  sim::disk.disk_full_after = -1;
  const bool crash = sim::crashed();
  sim::set_crash_after_write_ops(-1);
  const bool wfault = sim::disk_faults_total() > 0;
  sim::event("stored %d crash %d", stored, crash);
  if (!stored && !wfault) sim::violation(P, "save-fails", "saving %zu points failed without a disk fault", c->points.size());
  if (crash) sim::count("fault.crash");
  if (!stored && !crash) {  // reported: nobody may rely on what is in the file
    sim::probe("save_failure_reported");
    sim::disk.enabled = false;
    return;
  }
  struct stat st;
  if (stat(name.c_str(), &st)) st.st_size = -1;
  const int64_t full = st.st_size;
  int64_t len = full;
  if (mode == 2 && len > 0) {
    len = (int64_t)f.below(len);
    if (truncate(name.c_str(), len)) sim::harness_error("truncate");
    sim::count("fault.file_cut");
    sim::event("cut at %ld", (long)len);
  }
  const bool damaged = crash || (mode == 2 && full > 0) || (wfault && !stored);
  if (mode == 3) {
    const double p = f.pick<double>({0.2, 0.7});
    const int k = (int)f.below(3);
    if (k != 0) sim::disk.p_read = p;
    if (k != 1) sim::disk.p_open_read = p;
  }
  const int tries = 2;
  for (int t = 0; t < tries; t++) {
    const int f0 = sim::disk_faults_total();
    if (t == 1) sim::disk.p_read = sim::disk.p_open_read = 0;  // transient
    data::InnerCloudType::Ptr got;
    bool ok;
    if (wrapper) {
      // after a crash another process reads the file: same access path
      if (t == 0) data->Clear();
      ok = data->CloudInMemory();
      if (ok) got = data->GetInnerCloud();
    } else {
      got.reset(new data::InnerCloudType);
      if (f.chance(0.3)) *got = *make_cloud(w, 3, 7);  // old contents must not survive
      std::fstream in(name, std::ios::in | std::ios::binary);
      ok = in.is_open() && got->Deserialize(&in) >= 0;
    }
    const bool rfault = sim::disk_faults_total() > f0;
    const auto e = ok ? differs(got, *c) : "";
    sim::state(sim::hash64(mode * 4 + ok * 2 + rfault, damaged));
    if (ok && !e.empty()) sim::violation(P, damaged || rfault ? "damaged-accepted" : "altered", "a reload reported success with a different cloud: %s", e.c_str());
    if (!ok && !damaged && !rfault) sim::violation(P, "reload-fails", "an intact file with %zu points was rejected", c->points.size());
    if (!ok) sim::probe("rejected");
    if (ok && damaged) sim::probe("damage_without_effect");
  }
  sim::disk.enabled = false;
}
}  // namespace

void world_run(const sim::Spec& spec) {
  static std::string prop = spec.prop;
  P = prop;
  sim::tuning.liveness_prop = prop.c_str();
  sim::tuning.max_time_s = 3000;
  sim::start();
  if (P == "C10") run_file(spec);
  else run_spill(spec);
  sim::stop();
}
