// World "package": splitting a finished map into pieces (C18), with simulated
// insertion threads and, in half of the runs, failing piece files.
#include <dirent.h>
#include <sys/stat.h>
#include <algorithm>
#include <map>
#include <set>
#include "builder/map_package.h"
#include "builder/submap.h"
#include "builder/trajectory.h"
#include "common.h"
#include "pcl/io/pcd_io.h"
#include "pugixml/pugixml.hpp"
const char* const kWorldName = "package";
using namespace static_map;

namespace {
std::string P;
struct Pt {
  double x, y, z;
  int tag;
  double px, py;  // position of its submap
};
}  // namespace

void world_run(const sim::Spec& spec) {
  static std::string prop = spec.prop;
  P = prop;
  sim::tuning.liveness_prop = prop.c_str();
  sim::tuning.max_time_s = 2000;
  auto& w = sim::workload();
  const std::string dir = spec.scratch + "/pkg/";
  mkdir(dir.c_str(), 0755);
  MapPackageOptions po;
  po.border_offset = w.pick<double>({5, 20, 40});
  po.piece_width = w.pick<double>({20, 60, 100, 400});
  if (w.chance(0.3)) po.cloud_file_prefix = "piece_";
  if (w.chance(0.3)) po.descript_filename = "desc.xml";
  MrvmSettings ms;
  ms.use_max_intensity = false;
  ms.high_resolution = w.pick<float>({1.f, 2.f});
  ms.max_point_num_in_cell = 100;
  const bool all = w.chance(0.6);  // every cell counts as static
  ms.prob_threshold = all ? 0.05f : 0.6f;
  ms.hit_prob = all ? 0.55f : 0.7f;  // one hit is enough
  const int ntraj = w.range(1, 2);
  sim::start();
  sim::tuning.calm = true;
  std::vector<std::shared_ptr<Trajectory>> trajs;
  std::vector<Pt> pts;
  double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
  int tag = 0;
  const double spread = w.pick<double>({5, 40, 120});
  std::set<std::tuple<int, int, int>> used;
  for (int t = 0; t < ntraj; t++) {
    auto traj = std::make_shared<Trajectory>();
    traj->SetId(t);
    const int n = w.range(t ? 0 : 1, 3);
    for (int i = 0; i < n; i++) {
      SubmapOptions o;
      o.enable_check = false;
      o.frame_count = 1;
      o.enable_disk_saving = false;
      auto s = std::make_shared<Submap>(o);
      SubmapId id;
      id.trajectory_index = t;
      id.submap_index = i;
      s->SetId(id);
      const Eigen::Matrix4d pose = wl::pose_of(w.real(-spread, spread), w.real(-spread, spread), w.real(-1, 1), w.real(-3, 3));
      data::InnerCloudType::Ptr c(new data::InnerCloudType);
      const int k = w.range(1, w.pick<int>({3, 25}));
      // without "all" the points of a submap lie on a sphere around it, so
      // that no ray crosses the cell of another point
      for (int j = 0; j < k; j++) {
        data::InnerPointType p;
        const double r = all ? w.real(1, 1.3 * po.border_offset) : 0.8 * po.border_offset;
        const double a = w.real(-3.14, 3.14), e = w.real(-0.3, 0.3);
        p.x = (float)(r * std::cos(a) * std::cos(e));
        p.y = (float)(r * std::sin(a) * std::cos(e));
        p.z = (float)(r * std::sin(e));
        p.intensity = (float)tag;
        p.factor = 0;
        Eigen::Vector4d g = pose * Eigen::Vector4d(p.x, p.y, p.z, 1);
        Pt q{g[0], g[1], g[2], tag, pose(0, 3), pose(1, 3)};
        tag++;
        c->points.push_back(p);
        pts.push_back(q);
      }
      auto f = std::make_shared<Frame>();
      c->stamp = SimpleTime::FromNanoSec(1500000000000000000ll + tag);
      f->SetCloud(std::make_shared<data::InnerPointCloudData>(c));
      f->SetTimeStamp(c->stamp);
      s->InsertFrame(f);
      s->SetGlobalPose(pose);
      traj->push_back(s);
      for (int d = 0; d < 2; d++) {
        lo[d] = std::min(lo[d], pose(d, 3));
        hi[d] = std::max(hi[d], pose(d, 3));
      }
    }
    trajs.push_back(traj);
  }
  for (int d = 0; d < 2; d++) {
    lo[d] -= po.border_offset;
    hi[d] += po.border_offset;
  }
  // with more than one submap the rays of one can cross the points of the other
  size_t nsub = 0;
  for (auto& t : trajs) nsub += t->size();
  const bool exact = all || nsub == 1;
  auto& f = sim::faults();
  const bool faulty = f.chance(0.5);
  if (faulty) {
    sim::disk.root = spec.scratch;
    sim::disk.enabled = true;
    sim::disk.only = ".pcd";
    const double p = f.pick<double>({0.1, 0.4, 1.0});
    const int kind = (int)f.below(4);
    if (kind == 0) sim::disk.p_open = p;
    if (kind == 1) sim::disk.p_fallocate = p;
    if (kind == 2) sim::disk.p_mmap = p;
    if (kind == 3) sim::disk.disk_full_after = (int64_t)f.below(3000);
  }
  sim::tuning.calm = false;
  const bool ok = SaveTrajectoriesAsMapPackage(trajs, po, ms, dir);
  sim::stop();
  sim::disk.enabled = false;
  if (!ok) sim::violation(P, "no-package", "a map with %zu submaps was not saved", nsub);
  pugi::xml_document doc;
  if (!doc.load_file((dir + po.descript_filename).c_str())) sim::violation(P, "no-description", "the description can not be read");
  struct Piece {
    double x, y;
    std::map<int, pcl::PointXYZI> got;
  };
  std::vector<Piece> pieces;
  std::set<std::string> listed;
  for (auto n : doc.child("MapPackage").children("Piece")) {
    Piece q;
    q.x = n.attribute("x").as_double();
    q.y = n.attribute("y").as_double();
    const std::string file = n.attribute("file").as_string();
    if (!listed.insert(file).second) sim::violation(P, "listed-twice", "%s is listed twice", file.c_str());
    pcl::PointCloud<pcl::PointXYZI> c;
    struct stat st;
    if (stat((dir + file).c_str(), &st)) sim::violation(P, "file-missing", "%s is listed but does not exist", file.c_str());
    int r = -1;
    try {
      r = pcl::io::loadPCDFile(dir + file, c);
    } catch (const std::exception&) {
    }
    if (r < 0) sim::violation(P, "file-damaged", "%s is listed but can not be read", file.c_str());
    for (auto& p : c.points)
      if (!q.got.insert({(int)std::lround(p.intensity), p}).second) sim::violation(P, "point-twice", "%s has a point twice", file.c_str());
    pieces.push_back(q);
  }
  int left_out = 0;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      const std::string n = e->d_name;
      if (n == "." || n == ".." || n == po.descript_filename || listed.count(n)) continue;
      if (sim::disk_faults_on(dir + n)) {
        left_out++;
        continue;
      }
      sim::violation(P, "file-not-listed", "%s is not listed", n.c_str());
    }
    closedir(d);
  }
  const int nfault = sim::disk_faults_total();
  if (nfault) sim::probe("piece_fault");
  const double half = po.piece_width / 2, eps = 2e-3;
  size_t covered = 0;
  for (auto& p : pts) {
    const bool in_map = p.x > lo[0] + eps && p.x < hi[0] - eps && p.y > lo[1] + eps && p.y < hi[1] - eps;
    const bool near = std::fabs(p.x - p.px) < po.border_offset - eps && std::fabs(p.y - p.py) < po.border_offset - eps;
    bool found = false;
    for (auto& q : pieces) {
      const bool inside = in_map && std::fabs(p.x - q.x) < half - eps && std::fabs(p.y - q.y) < half - eps;
      const bool outside = std::fabs(p.x - q.x) > half + eps || std::fabs(p.y - q.y) > half + eps;
      auto g = q.got.find(p.tag);
      if (g == q.got.end()) {
        if (inside && near && exact) sim::violation(P, "point-missing", "the piece at (%g, %g) lacks the point (%g, %g, %g)", q.x, q.y, p.x, p.y, p.z);
        continue;
      }
      found = true;
      if (outside) sim::violation(P, "point-outside", "the piece at (%g, %g) has the point (%g, %g, %g)", q.x, q.y, p.x, p.y, p.z);
      if (std::fabs(g->second.x + q.x - p.x) > 0.01 || std::fabs(g->second.y + q.y - p.y) > 0.01 || std::fabs(g->second.z - p.z) > 0.01)
        sim::violation(P, "point-moved", "the piece at (%g, %g) has the point (%g, %g, %g) at (%g, %g, %g)", q.x, q.y, p.x, p.y, p.z, g->second.x, g->second.y, g->second.z);
    }
    if (found) covered++;
    if (!found && in_map && near && exact && !nfault) sim::violation(P, "not-covered", "the point (%g, %g, %g) is in no piece", p.x, p.y, p.z);
  }
  for (auto& q : pieces)
    for (auto& g : q.got)
      if (g.first < 0 || g.first >= tag) sim::violation(P, "point-unknown", "a piece has a point that no submap has");
  sim::state(sim::hash64(pieces.size(), left_out * 64 + nsub * 8 + nfault));
  sim::count("pieces", pieces.size());
  sim::count("points", covered);
  if (left_out) sim::probe("piece_left_out");
}
