// World "mapper": the whole single-trajectory map builder (C01, C03, C04, C05,
// C14, C16, C17) with a stand-in for the external registration library.
#include <dirent.h>
#include <sys/stat.h>
#include <map>
#include <set>
#include <sstream>
#include <gtsam/geometry/Pose3.h>
#include <gtsam/nonlinear/LevenbergMarquardtOptimizer.h>
#include <gtsam/nonlinear/NonlinearFactorGraph.h>
#include <gtsam/slam/BetweenFactor.h>
#include <gtsam/slam/PriorFactor.h>
#include <tbb/global_control.h>
#include "GeographicLib/LocalCartesian.hpp"
#include "builder/map_builder.h"
#include "common.h"
#include "common/performance/simple_prof.h"
#include "pcl/io/pcd_io.h"
#include "registrators/icp_pointmatcher.h"
const char* const kWorldName = "mapper";
using namespace static_map;
using wl::pose_of;
using wl::sleep_ms;
typedef Eigen::Matrix4d M4;

namespace {

const int kTag = 64;  // intensity = scan * kTag + point
const double kMinScore = 0.75;

struct ScanPlan {
  uint64_t stamp_us = 0;
  int gap_us = 0;       // pause before it is handed in
  M4 pose;              // true pose relative to the first scan
  std::vector<pcl::PointXYZI> pts;
  bool inserted = false;
};

// Everything the registration stand-in needs and records.
struct State {
  std::string P;
  std::vector<ScanPlan> scans;
  int frame_count = 2;
  double max_align_s = 0;
  uint64_t salt = 0;
  bool exact_points = true;   // no motion compensation
  double noise = 1;           // of the registration of submaps
  bool loops = false;         // submaps are also registered against others than their predecessor
  // record of the front end
  std::vector<std::pair<int, int>> fe;  // (source scan, target scan)
  // record of the back end: source first scan -> times registered
  std::map<int, int> pair_count;
  std::map<int, std::vector<int>> pair_source, pair_target;  // by source first scan
  std::map<int, M4, std::less<int>, Eigen::aligned_allocator<std::pair<const int, M4>>> pair_result, pair_guess;
  std::map<int, double> pair_score;
  std::multiset<std::pair<int, int>> pairs;  // target, source
  int aligning = 0;
  // notifications
  struct Show {
    std::vector<int> scans;
    M4 pose;
    size_t points;
  };
  std::vector<Show, Eigen::aligned_allocator<Show>> shows;
  size_t path_len_max = 0;
  struct View {  // a shown path, map or graph
    char kind;
    size_t shows;  // submaps shown before
    std::vector<M4, Eigen::aligned_allocator<M4>> poses;
    std::vector<pcl::PointXYZI> pts;
    std::vector<std::pair<int, int>> edges;
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  };
  std::vector<std::shared_ptr<View>> views;
  int fixes = 0;
  std::string faulty;  // the exported file whose writing fails
  // motion compensation: points of the key frames by tag, as they must be stored
  bool comp = false;
  std::map<int, Eigen::Vector3d> stored;
  std::map<int, Eigen::Vector3d> pending;  // of the scan that was matched last
  int pending_scan = -1;
  double range = 1;
  M4 acc = M4::Identity(), pending_acc = M4::Identity();
};
State* S = nullptr;

int scan_of(float intensity) { return (int)std::lround(intensity) / kTag; }

// scans whose points are in the cloud, with the number of points of each
std::map<int, int> tags(const std::vector<data::InnerPointType>& pts) {
  std::map<int, int> m;
  for (auto& p : pts) m[scan_of(p.intensity)]++;
  return m;
}

// deterministic pseudo random number of a pair
double unit_of(uint64_t a, uint64_t b) { return (sim::hash64(sim::hash64(S->salt, a), b) >> 11) * (1.0 / 9007199254740992.0); }

double planned_loop_score(int first_source, int first_target) {
  const uint64_t k = sim::hash64(first_source, first_target);
  return unit_of(k, 21) < 0.8 ? 0.85 + 0.1 * unit_of(k, 22) : 0.2 + 0.4 * unit_of(k, 22);
}

double planned_score(int first_source) {
  const double k = unit_of(first_source, 1), v = unit_of(first_source, 2);
  return k < 0.6 ? 0.76 + 0.2 * v : k < 0.68 ? kMinScore : k < 0.76 ? 0.74 : 0.2 + 0.4 * v;
}

M4 planned_result(int first_source, int first_target) {
  const M4 rel = S->scans[first_target].pose.inverse() * S->scans[first_source].pose;
  const uint64_t k = S->loops ? sim::hash64(first_source, first_target) : first_source;
  return rel * pose_of(S->noise * (0.2 * unit_of(k, 3) - 0.1), S->noise * (0.2 * unit_of(k, 4) - 0.1), S->noise * 0.05 * unit_of(k, 5),
                       S->noise * (0.04 * unit_of(k, 6) - 0.02));
}

// What the points of a scan look like after the sensor moved by `motion` during the scan.
std::map<int, Eigen::Vector3d> compensated(int scan, const M4& motion) {
  std::map<int, Eigen::Vector3d> out;
  auto& pts = S->scans[scan].pts;
  const Eigen::Quaterniond q(motion.block<3, 3>(0, 0).eval());
  for (size_t k = 0; k < pts.size(); k++) {
    const double f = (double)k / pts.size();
    out[(int)std::lround(pts[k].intensity)] =
        Eigen::Quaterniond::Identity().slerp(f, q).toRotationMatrix() * Eigen::Vector3d(pts[k].x, pts[k].y, pts[k].z) + f * motion.block<3, 1>(0, 3);
  }
  return out;
}

void compare_points(const std::vector<data::InnerPointType>& got, const std::map<int, Eigen::Vector3d>& want, const char* code, const char* what, int scan) {
  for (auto& p : got) {
    auto it = want.find((int)std::lround(p.intensity));
    if (it == want.end()) continue;
    const double d = (it->second - Eigen::Vector3d(p.x, p.y, p.z)).norm();
    if (d > 2e-3) sim::violation(S->P, code, "%s: a point of scan %d is off by %g m", what, scan, d);
  }
}

// The scan that was matched last is a key frame or not: the next registration tells.
void settle(int target) {
  if (S->pending_scan < 0) return;
  const double d = S->pending_acc.block<3, 1>(0, 3).norm();
  if (target >= 0 ? target == S->pending_scan && d >= S->range - 1e-4 : d >= S->range) {
    for (auto& kv : S->pending) S->stored[kv.first] = kv.second;
    S->acc = M4::Identity();
  } else {
    S->acc = S->pending_acc;
  }
  S->pending_scan = -1;
}

void check_compensation(const data::InnerCloudType& sc, const data::InnerCloudType& tc, int src, int tgt, const M4& guess) {
  if (S->stored.empty())
    for (auto& p : S->scans[tgt].pts) S->stored[(int)std::lround(p.intensity)] = Eigen::Vector3d(p.x, p.y, p.z);  // the first scan
  settle(tgt);
  compare_points(tc.points, S->stored, "key-frame-points", "the points that a scan is matched against", tgt);
  compare_points(sc.points, compensated(src, S->acc.inverse() * guess), "matched-points", "the points that are matched", src);
  S->pending_acc = S->scans[tgt].pose.inverse() * S->scans[src].pose;
  S->pending = compensated(src, S->acc.inverse() * S->pending_acc);
  S->pending_scan = src;
  const double move = (S->acc.inverse() * S->pending_acc).block<3, 1>(0, 3).norm();
  if (move > 0.1) sim::probe("moved_while_scanning");
  if (S->acc.block<3, 1>(0, 3).norm() > 0.1) sim::probe("between_key_frames");
}

void align(simhook::AlignArgs* a) {
  // what the registration sees when it starts
  data::InnerCloudType::Ptr sc, tc;
  if (a->source) sc = a->source->GetInnerCloud();
  if (a->target) tc = a->target->GetInnerCloud();
  std::map<int, int> st, tt;
  {
    sim::Atomic at;
    if (!sc || !tc || sc->points.empty() || tc->points.empty())
      sim::violation(S->P, "registered-empty", "a registration was started with an empty cloud");
    st = tags(sc->points);
    tt = tags(tc->points);
    const int n = (int)S->scans.size();
    for (auto* m : {&st, &tt})
      for (auto& kv : *m) {
        if (kv.first < 0 || kv.first >= n) sim::violation(S->P, "alien-points", "a registration got points that no scan contains");
        if (kv.second != (int)S->scans[kv.first].pts.size())
          sim::violation(S->P, "incomplete-points", "a registration got %d of the %zu points of scan %d", kv.second, S->scans[kv.first].pts.size(), kv.first);
      }
    S->aligning++;
    if (S->aligning > 1) sim::probe("parallel_registrations");
  }
  const bool front = st.size() == 1;
  const int src = st.begin()->first, tgt = tt.begin()->first;
  double d = S->max_align_s * unit_of(sim::hash64(src, tgt), front ? 7 : 8);
  if (!front) d *= 3;
  if (d > 0) sim::sleep_s(d);
  sim::Atomic at;
  S->aligning--;
  if (front) {
    sim::event("match scan %d to %d", src, tgt);
    S->fe.emplace_back(src, tgt);
    if (S->comp) check_compensation(*sc, *tc, src, tgt, a->guess);
    a->result = S->scans[tgt].pose.inverse() * S->scans[src].pose;
    a->score = 0.95;
  } else {
    sim::event("match submap %d to %d", src, tgt);
    S->pair_count[src]++;
    for (auto& kv : st) S->pair_source[src].push_back(kv.first);
    for (auto& kv : tt) S->pair_target[src].push_back(kv.first);
    S->pair_guess[src] = a->guess;
    a->result = planned_result(src, tgt);
    a->score = S->loops ? planned_loop_score(src, tgt) : planned_score(src);
    S->pairs.insert({tgt, src});
    S->pair_result[src] = a->result;
    S->pair_score[src] = a->score;
  }
}

bool exists(const std::string& f) {
  struct stat st;
  return stat(f.c_str(), &st) == 0;
}

std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}

// ---------------------------------------------------------------- expected
struct Expected {
  std::vector<int> frames;                // key frames (scan indices)
  std::vector<std::vector<int>> submaps;  // groups
  std::vector<M4, Eigen::aligned_allocator<M4>> G;  // final submap poses
};

struct Cfg {
  double range = 1.0, angle = 0;  // of the key frames: m, degrees (0: any)
  bool use_imu = false, gps = false, compensation = false, disk = false, kitti = false, separate = false, direct = true, mrvm = false, package = false,
       filters = false, show = false;
  int step = 2, delay = 1, merge = 1, gps_num = 1000;
  double gps_angle = 1.5;
  bool loops = false;
  int ignore = 3, nearest = 5;
  std::string exp, pkg;
};

double turned(const M4& m) { return Eigen::AngleAxisd(Eigen::Matrix3d(m.block<3, 3>(0, 0))).angle() * 180 / M_PI; }

// The same as a sum over the axes. Plans stay clear of turns that the two
// readings of "angle" judge differently.
double turned_by_axes(const M4& m) {
  const double pitch = std::asin(std::max(-1., std::min(1., -m(2, 0))));
  return (std::fabs(std::atan2(m(2, 1), m(2, 2))) + std::fabs(pitch) + std::fabs(std::atan2(m(1, 0), m(0, 0)))) * 180 / M_PI;
}

Expected expect(const Cfg& c, const std::vector<int>& seq) {
  Expected e;
  for (int s : seq) {
    if (e.frames.empty()) {
      e.frames.push_back(s);
      continue;
    }
    const M4 rel = S->scans[e.frames.back()].pose.inverse() * S->scans[s].pose;
    if (rel.block<3, 1>(0, 3).norm() >= c.range || (c.angle > 0 && turned(rel) >= c.angle)) e.frames.push_back(s);
  }
  for (size_t i = 0; i + S->frame_count <= e.frames.size(); i += S->frame_count)
    e.submaps.emplace_back(e.frames.begin() + i, e.frames.begin() + i + S->frame_count);
  for (size_t i = 0; i < e.submaps.size(); i++) {
    if (i == 0) {
      e.G.push_back(M4::Identity());
      continue;
    }
    const int src = e.submaps[i][0], tgt = e.submaps[i - 1][0];
    const M4 guess = S->scans[tgt].pose.inverse() * S->scans[src].pose;
    e.G.push_back(e.G.back() * (planned_score(src) >= kMinScore ? planned_result(src, tgt) : guess));
  }
  return e;
}

struct Row {
  double v[7];
};

bool read_csv(const std::string& f, std::vector<Row>* out) {
  std::ifstream in(f);
  if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    Row r;
    if (sscanf(line.c_str(), "%lf, %lf, %lf, %lf, %lf, %lf, %lf", &r.v[0], &r.v[1], &r.v[2], &r.v[3], &r.v[4], &r.v[5], &r.v[6]) != 7) return false;
    out->push_back(r);
  }
  return true;
}

M4 from6(const double* v) {
  return pose_of(v[0], v[1], v[2], v[5], v[4], v[3]);
}

bool load_pcd(const std::string& f, std::vector<pcl::PointXYZI>* out) {
  pcl::PointCloud<pcl::PointXYZI> c;
  try {
    if (pcl::io::loadPCDFile(f, c) < 0) return false;
  } catch (...) {
    return false;
  }
  out->assign(c.begin(), c.end());
  return true;
}

const double kTolT = 0.01, kTolR = 0.01;

// Checks of single exported files; each returns an empty string or what is
// wrong.  `E` is the expected map.
std::string check_path_csv(const Cfg& c, const Expected& E) {
  std::vector<Row> rows;
  if (!read_csv(c.exp + "path.csv", &rows)) return "path.csv is missing or malformed";
  const size_t want = E.submaps.size() * S->frame_count;
  char b[200];
  if (rows.size() != want) {
    snprintf(b, sizeof b, "path.csv has %zu rows, expected %zu", rows.size(), want);
    return b;
  }
  size_t k = 0;
  for (size_t i = 0; i < E.submaps.size(); i++)
    for (int s : E.submaps[i]) {
      const M4 p = E.G[i] * (S->scans[E.submaps[i][0]].pose.inverse() * S->scans[s].pose);
      const M4 g = from6(rows[k].v + 1);
      if ((size_t)std::lround(rows[k].v[0]) != k) {
        snprintf(b, sizeof b, "path.csv row %zu is numbered %g", k, rows[k].v[0]);
        return b;
      }
      if (wl::trans_diff(p, g) > kTolT || wl::rot_diff(p, g) > kTolR) {
        snprintf(b, sizeof b, "path.csv row %zu: pose is off by %g m, %g (rotation)", k, wl::trans_diff(p, g), wl::rot_diff(p, g));
        return b;
      }
      k++;
    }
  return "";
}

std::string check_path_pcd(const Cfg& c, const Expected& E) {
  std::vector<pcl::PointXYZI> pts;
  const std::string f = c.exp + "path.pcd";
  const size_t want = E.submaps.size() * S->frame_count;
  if (want == 0) return "";
  if (!load_pcd(f, &pts)) return "path.pcd is missing or unreadable";
  if (pts.size() != want) return "path.pcd has a wrong number of points";
  size_t k = 0;
  for (size_t i = 0; i < E.submaps.size(); i++)
    for (int s : E.submaps[i]) {
      const M4 p = E.G[i] * (S->scans[E.submaps[i][0]].pose.inverse() * S->scans[s].pose);
      if ((Eigen::Vector3d(pts[k].x, pts[k].y, pts[k].z) - p.block<3, 1>(0, 3)).norm() > kTolT) return "path.pcd: wrong position";
      if (std::lround(pts[k].intensity) != (long)k) return "path.pcd: wrong order";
      k++;
    }
  return "";
}

std::string check_kitti(const Cfg& c, const Expected& E) {
  std::ifstream in(c.exp + "kitti_pose.txt");
  if (!in) return "kitti_pose.txt is missing";
  std::string line;
  size_t k = 0;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    M4 m = M4::Identity();
    for (int r = 0; r < 3; r++)
      for (int q = 0; q < 4; q++)
        if (!(is >> m(r, q))) return "kitti_pose.txt: malformed row";
    if (k >= E.G.size()) return "kitti_pose.txt has too many rows";
    if (wl::trans_diff(m, E.G[k]) > kTolT || wl::rot_diff(m, E.G[k]) > kTolR) return "kitti_pose.txt: wrong pose";
    k++;
  }
  return k == E.G.size() ? "" : "kitti_pose.txt has too few rows";
}

std::string check_xml(const Cfg& c, const Expected& E) {
  pugi::xml_document doc;
  if (!doc.load_file((c.pkg + "map.xml").c_str())) return "map.xml is missing or malformed";
  auto t = doc.child("Map").child("Trajectory");
  if (!t) return "map.xml: no trajectory";
  size_t k = 0;
  char b[200];
  for (auto n = t.child("Submap"); n; n = n.next_sibling("Submap"), k++) {
    if (k >= E.G.size()) return "map.xml lists too many submaps";
    if (n.attribute("id").as_int(-1) != (int)k) {
      snprintf(b, sizeof b, "map.xml: submap %zu has id %d", k, n.attribute("id").as_int(-1));
      return b;
    }
    double v[6] = {n.attribute("tx").as_double(), n.attribute("ty").as_double(), n.attribute("tz").as_double(),
                   n.attribute("rx").as_double(), n.attribute("ry").as_double(), n.attribute("rz").as_double()};
    const M4 g = from6(v);
    if (wl::trans_diff(g, E.G[k]) > kTolT || wl::rot_diff(g, E.G[k]) > kTolR) {
      snprintf(b, sizeof b, "map.xml: pose of submap %zu is off by %g m", k, wl::trans_diff(g, E.G[k]));
      return b;
    }
    std::string con = n.attribute("connections").as_string();
    std::string want = k + 1 < E.G.size() ? "[0," + std::to_string(k + 1) + "]" : "";
    if (con != want) return "map.xml: submap " + std::to_string(k) + " lists connections '" + con + "', expected '" + want + "'";
    if (c.disk) {
      std::string f = n.attribute("file").as_string();
      if (f.empty() || !exists(c.pkg + f)) return "map.xml: file of submap " + std::to_string(k) + " is missing";
    }
  }
  if (t.next_sibling("Trajectory")) return "map.xml: more than one trajectory";
  return k == E.G.size() ? "" : "map.xml lists " + std::to_string(k) + " submaps, expected " + std::to_string(E.G.size());
}

// points of submaps [from, to) at their final poses
std::string check_points(const Expected& E, size_t from, size_t to, const std::vector<pcl::PointXYZI>& pts, const std::string& name) {
  std::map<int, Eigen::Vector3d> want;
  for (size_t i = from; i < to; i++)
    for (int s : E.submaps[i]) {
      const M4 p = E.G[i] * (S->scans[E.submaps[i][0]].pose.inverse() * S->scans[s].pose);
      for (auto& q : S->scans[s].pts) {
        const int tag = (int)std::lround(q.intensity);
        const Eigen::Vector3d at = S->comp && S->stored.count(tag) ? S->stored[tag] : Eigen::Vector3d(q.x, q.y, q.z);
        want[tag] = (p * at.homogeneous()).head<3>();
      }
    }
  std::set<int> seen;
  char b[200];
  for (auto& q : pts) {
    const int tag = (int)std::lround(q.intensity);
    if (!want.count(tag)) {
      snprintf(b, sizeof b, "%s contains a point of scan %d that is not part of it", name.c_str(), tag / kTag);
      return b;
    }
    if (!seen.insert(tag).second) {
      snprintf(b, sizeof b, "%s contains a point of scan %d twice", name.c_str(), tag / kTag);
      return b;
    }
    if (S->exact_points && (Eigen::Vector3d(q.x, q.y, q.z) - want[tag]).norm() > 0.05) {
      snprintf(b, sizeof b, "%s: a point of scan %d is off by %g m", name.c_str(), tag / kTag, (Eigen::Vector3d(q.x, q.y, q.z) - want[tag]).norm());
      return b;
    }
  }
  if (seen.size() != want.size()) {
    snprintf(b, sizeof b, "%s contains %zu of %zu points", name.c_str(), seen.size(), want.size());
    return b;
  }
  return "";
}

// C34: what was shown while the map grew.
void check_views(const Expected& E) {
  const std::string& P = S->P;
  for (auto& v : S->views) {
    const size_t n = v->shows + 1;  // finished submaps; the first one is not shown alone
    if (v->kind == 'p' || v->kind == 'e') {
      const char* name = v->kind == 'p' ? "path" : "graph";
      if (v->poses.size() != n) sim::violation(P, name, "a shown %s has %zu submaps when %zu were finished", name, v->poses.size(), n);
      for (size_t i = 0; i < n; i++)
        if (wl::trans_diff(v->poses[i], E.G[i]) > kTolT || wl::rot_diff(v->poses[i], E.G[i]) > kTolR)
          sim::violation(P, name, "a shown %s with %zu submaps has the pose of submap %zu off by %g m", name, n, i, wl::trans_diff(v->poses[i], E.G[i]));
      if (v->kind == 'e') {
        std::sort(v->edges.begin(), v->edges.end());
        for (size_t i = 0; i + 1 < n || i < v->edges.size(); i++)
          if (i >= v->edges.size() || i + 1 >= n || v->edges[i] != std::make_pair((int)i, (int)i + 1))
            sim::violation(P, name, "a shown graph of %zu submaps has %zu edges, or not the ones between successive submaps", n, v->edges.size());
      }
    } else {
      std::map<int, size_t> submap_of;
      for (size_t i = 0; i < n; i++)
        for (int s : E.submaps[i]) submap_of[s] = i;
      for (auto& q : v->pts) {
        const int tag = (int)std::lround(q.intensity), s = tag / kTag;
        if (!submap_of.count(s)) sim::violation(P, "map", "a shown map has a point of scan %d, which is in no finished submap", s);
        const size_t g = submap_of[s];
        const M4 p = E.G[g] * (S->scans[E.submaps[g][0]].pose.inverse() * S->scans[s].pose);
        const pcl::PointXYZI* raw = nullptr;
        for (auto& r : S->scans[s].pts)
          if ((int)std::lround(r.intensity) == tag) raw = &r;
        const double d = raw ? ((p * Eigen::Vector4d(raw->x, raw->y, raw->z, 1)).head<3>() - Eigen::Vector3d(q.x, q.y, q.z)).norm() : 1e9;
        if (!(d < 0.05)) sim::violation(P, "map", "a point of scan %d in a shown map is off by %g m", s, d);
        sim::probe("shown_map_point");
      }
    }
  }
}

// name -> problem ("" = fine) for every file that must have been exported
std::map<std::string, std::string> check_exports(const Cfg& c, const Expected& E) {
  std::map<std::string, std::string> r;
  r["path.csv"] = check_path_csv(c, E);
  if (!E.submaps.empty()) r["path.pcd"] = check_path_pcd(c, E);
  if (c.kitti) r["kitti_pose.txt"] = check_kitti(c, E);
  r["map.xml"] = check_xml(c, E);
  if (c.direct && !E.submaps.empty()) {
    if (!c.separate) {
      std::vector<pcl::PointXYZI> pts;
      r["whole_map.pcd"] = load_pcd(c.exp + "whole_map.pcd", &pts) ? check_points(E, 0, E.submaps.size(), pts, "whole_map.pcd") : "whole_map.pcd is missing or unreadable";
    } else {
      const size_t parts = (E.submaps.size() + c.step - 1) / c.step;
      for (size_t k = 0; k < parts; k++) {
        const std::string n = "part_map_" + std::to_string(k) + ".pcd";
        std::vector<pcl::PointXYZI> pts;
        r[n] = load_pcd(c.exp + n, &pts) ? check_points(E, k * c.step, std::min<size_t>((k + 1) * c.step, E.submaps.size()), pts, n) : n + " is missing or unreadable";
      }
      if (exists(c.exp + "part_map_" + std::to_string(parts) + ".pcd")) r["part_map_" + std::to_string(parts) + ".pcd"] = "one part too many";
    }
  }
  if (c.mrvm && !E.submaps.empty()) {
    if (!c.separate) {
      std::vector<pcl::PointXYZI> pts;
      r["static_map.pcd"] = exists(c.exp + "static_map.pcd") && load_pcd(c.exp + "static_map.pcd", &pts) && !pts.empty() ? "" : "static_map.pcd is missing or unreadable";
    } else {
      const size_t parts = (E.submaps.size() + c.step - 1) / c.step;
      for (size_t k = 0; k < parts; k++) {
        const std::string n = "static_part_map_" + std::to_string(k) + ".pcd";
        std::vector<pcl::PointXYZI> pts;
        r[n] = exists(c.exp + n) && load_pcd(c.exp + n, &pts) && !pts.empty() ? "" : n + " is missing or unreadable";
      }
    }
  }
  return r;
}

std::string config_xml(const Cfg& c) {
  std::ostringstream o;
  auto b = [](bool v) { return v ? "true" : "false"; };
  o << "<?xml version=\"1.0\"?><edward_liu><static_mapping><whole_options export_file_path=\"" << c.exp << "\" map_package_path=\"" << c.pkg
    << "\" separate_output=\"" << b(c.separate) << "\" output_direct_combined_map=\"" << b(c.direct) << "\" output_mrvm=\"" << b(c.mrvm)
    << "\" output_kitti_pose=\"" << b(c.kitti) << "\" separate_step=\"" << c.step << "\"/>";
  if (c.filters)
    o << "<filters><filter name=\"Range\"><param type=\"1\" name=\"max_range\">200.</param><param type=\"1\" name=\"min_range\">0.1</param></filter></filters>";
  o << "<front_end_options accumulate_cloud_num=\"" << c.merge << "\"><scan_matcher_options type=\"1\"/><motion_filter translation_range=\"" << c.range
    << "\" angle_range=\"" << c.angle << "\"/><motion_compensation_options enable=\"" << b(c.compensation) << "\" use_average=\"false\"/><imu_options use_imu=\"" << b(c.use_imu)
    << "\" type=\"0\" imu_frequency=\"100.\" gravity_constant=\"9.8\"/></front_end_options>"
    << "<back_end_options><submap_matcher_options type=\"1\" accepted_min_score=\"" << kMinScore << "\"/><submap_options frame_count=\"" << S->frame_count
    << "\" enable_inner_mrvm=\"false\" enable_voxel_filter=\"false\" enable_check=\"false\" enable_disk_saving=\"" << b(c.disk) << "\" disk_saving_delay=\"" << c.delay
    << "\" saving_name_prefix=\"s_\"/><isam_optimizer_options use_odom=\"false\" use_gps=\"" << b(c.gps)
    << "\" gps_factor_init_num=\"" << c.gps_num << "\" gps_factor_sample_step=\"1\" gps_factor_init_angle_rad=\"" << c.gps_angle << "\"/>"
    << "<loop_detector_setting use_gps=\"" << b(c.loops) << "\" use_descriptor=\"" << b(!c.loops) << "\" loop_ignore_threshold=\"" << (c.loops ? c.ignore : 1000)
    << "\" trying_detect_loop_count=\"1\" max_close_loop_distance=\"" << (c.loops ? 15 : 8)
    << "\" max_close_loop_z_distance=\"3\" m2dp_match_score=\"0.97\" accept_scan_match_score=\"0.8\" nearest_history_pos_num=\"" << c.nearest << "\"/></back_end_options>"
    << "<map_package_options enable=\"" << b(c.package) << "\" border_offset=\"5\" piece_width=\"50.\" cloud_file_prefix=\"part_\" descript_filename=\"map_package.xml\"/>"
    << "<output_mrvm_settings output_average=\"false\" output_rgb=\"false\" prob_threshold=\"0.51\" low_resolution=\"1.\" high_resolution=\"0.1\" hit_prob=\"0.55\" "
       "miss_prob=\"0.48\" z_offset=\"0.\" max_point_num_in_cell=\"10\"/></static_mapping></edward_liu>";
  return o.str();
}

void make_scans(int n, double p_small, double range, int npts, double turn = 0) {
  auto& w = sim::workload();
  S->scans.resize(n);
  double x = 0, y = 0, z = 0, yaw = 0;
  uint64_t t = 1500000000ull * 1000000ull + w.below(1000000);
  M4 key = M4::Identity();
  for (int i = 0; i < n; i++) {
    auto& s = S->scans[i];
    if (i > 0) {
      double step = w.chance(p_small) ? w.real(0.2, 0.5) * range : w.real(1.1, 1.6) * range;
      yaw += w.real(-0.15, 0.15) + turn;
      // keep clear of the key-frame threshold
      for (int tries = 0;; tries++) {
        const double nx = x + step * std::cos(yaw), ny = y + step * std::sin(yaw);
        const double d = (Eigen::Vector3d(nx, ny, z) - key.block<3, 1>(0, 3)).norm();
        if (std::fabs(d - range) > 0.02 * range || tries > 20) {
          x = nx;
          y = ny;
          break;
        }
        step += 0.05 * range;
      }
      z += w.real(-0.01, 0.01);
    }
    s.pose = pose_of(x, y, z, yaw, 0.02 * std::sin(i), 0.02 * std::cos(i) - 0.02 * std::cos(0));
    if (i == 0) s.pose = M4::Identity();
    if (i > 0 && (s.pose.block<3, 1>(0, 3) - key.block<3, 1>(0, 3)).norm() >= range) key = s.pose;
    t += (uint64_t)w.range(40000, 200000);
    s.stamp_us = t;
    const int np = w.chance(0.003) ? 60 : w.range(npts, npts + 4);
    for (int k = 0; k < np; k++) {
      pcl::PointXYZI p;
      p.x = (float)w.real(-20, 20);
      p.y = (float)w.real(-20, 20);
      p.z = (float)w.real(-2, 4);
      if (std::fabs(p.x) < 1) p.x += 3;
      p.intensity = (float)(i * kTag + k);
      s.pts.push_back(p);
    }
  }
}

// Scans of a vehicle that stands, moves or turns on the spot, all clear of the key-frame limits.
void make_turning_scans(int n, const Cfg& c) {
  auto& w = sim::workload();
  make_scans(n, 0, c.range, 4);
  M4 at = M4::Identity(), key = at;
  for (int i = 1; i < n; i++) {
    M4 pose = key;  // standing where the last key frame was
    for (int tries = 0; tries < 200; tries++) {
      const int kind = (int)w.below(4), axis = w.chance(0.6) ? 0 : w.range(1, 2);
      const double step = (kind == 0 ? w.real(1.1, 1.6) : w.chance(0.3) ? 0. : w.real(0, 0.4)) * c.range, dir = w.real(-0.5, 0.5);
      const double turn = (kind == 1 ? (w.chance(0.5) ? 1 : -1) * w.real(1.3, 2.5) : kind == 2 ? 0. : w.real(-0.4, 0.4)) * c.angle * M_PI / 180;
      const M4 next =
          at * pose_of(step * std::cos(dir), step * std::sin(dir), 0, axis == 0 ? turn : 0, axis == 1 ? turn : 0, axis == 2 ? turn : 0);
      const M4 rel = key.inverse() * next;
      const double d = rel.block<3, 1>(0, 3).norm() / c.range, a = turned(rel) / c.angle, b = turned_by_axes(rel) / c.angle;
      if ((d >= 0.95 && d <= 1.05) || (a >= 0.95 && a <= 1.05) || (b >= 0.95 && b <= 1.05) || (a < 1) != (b < 1) || std::max(a, b) * c.angle > 85) continue;
      pose = next;
      if (d >= 1) sim::probe("key_frame_by_motion");
      else if (a >= 1) sim::probe(axis == 0 ? "key_frame_by_turning" : "key_frame_by_tilting");
      else sim::probe("no_key_frame");
      if (d >= 1 || a >= 1) key = next;
      break;
    }
    at = S->scans[i].pose = pose;
  }
}

// One exported file (or the whole export directory) can not be written.
void choose_fault(const Cfg& c) {
  auto& f = sim::faults();
  std::vector<std::string> names = {"/exp/path.csv", "/exp/path.pcd", "/pkg/map.xml"};
  if (c.kitti) names.push_back("/exp/kitti_pose.txt");
  if (c.direct) names.push_back(c.separate ? "/exp/part_map_0.pcd" : "/exp/whole_map.pcd");
  if (c.mrvm) names.push_back(c.separate ? "/exp/static_part_map_0.pcd" : "/exp/static_map.pcd");
  if (c.package) {
    names.push_back("/exp/part_0_0.pcd");
    names.push_back("/exp/map_package.xml");
  }
  if (c.gps) {
    names.push_back("/exp/original_gps.pcd");
    names.push_back("/exp/enu_path.pcd");
  }
  names.push_back("/exp/");
  names.push_back("");
  S->faulty = names[f.below(names.size())];
  if (S->faulty.empty()) return;
  sim::event("fault on %s", S->faulty.c_str());
  if (S->faulty == "/exp/" && f.chance(0.5)) {
    rmdir(c.exp.c_str());  // the directory is missing
    sim::probe("export_dir_missing");
    return;
  }
  sim::disk.only = S->faulty == "/exp/" ? S->faulty : S->faulty.substr(4);
  switch (f.below(6)) {
    case 0: sim::disk.p_open = 1; break;
    case 1: sim::disk.p_write = sim::disk.p_fallocate = sim::disk.p_mmap = 1; break;
    case 2: sim::disk.p_fallocate = 1; sim::disk.p_write = 0.5; break;
    case 3: sim::disk.p_mmap = 1; sim::disk.p_write = 0.5; break;
    case 4: sim::disk.disk_full_after = f.range(0, 2000); break;
    case 5: sim::disk.p_open = sim::disk.p_write = sim::disk.p_fallocate = sim::disk.p_mmap = sim::disk.p_close = 0.3; break;
  }
  sim::disk.enabled = true;
}

// ---------------------------------------------------------------- the run
void run(const sim::Spec& spec) {
  auto& w = sim::workload();
  const std::string& P = S->P;
  Cfg c;
  c.exp = spec.scratch + "/exp/";
  c.pkg = spec.scratch + "/pkg/";
  S->salt = w.next();
  const bool heavy = P != "C01";
  const bool lengthy = w.chance(0.02);  // many submaps
  S->frame_count = P == "C01" ? w.pick<int>({2, 4, 1000}) : w.chance(0.08) ? w.pick<int>({4, 5, 8}) : w.range(2, 3);
  int nscan;
  if (P == "C01") {
    nscan = lengthy ? w.range(25, 150) : w.range(1, 24);
  } else if (P == "C05") {
    nscan = w.pick<int>({0, 1, 2, 3, 4, 5, 6, 8, 11});
  } else {
    // around multiples of the submap size
    nscan = std::max(1, S->frame_count * w.range(1, 4) + w.range(-1, 1));
  }
  const double p_small = w.chance(0.5) ? 0.0 : w.real(0.1, 0.5);
  if (p_small > 0 && P != "C01") nscan += w.range(0, 4);
  if (P == "C01" && S->frame_count != 1000) nscan = std::min(nscan, lengthy ? 60 : 14);
  else if (P != "C01" && lengthy) nscan = S->frame_count * w.range(6, 24) + w.range(-1, 1);
  if (P == "C29") {
    nscan = lengthy ? w.range(30, 100) : w.range(2, 20);
    c.range = w.pick<double>({1.0, 0.4, 5.0});
    c.angle = w.pick<double>({5.0, 20.0, 60.0});
    make_turning_scans(nscan + 3, c);
  } else {
    make_scans(nscan + 3, p_small, c.range, 4);
  }
  c.use_imu = (P == "C01" || P == "C05") && w.chance(0.3);
  c.compensation = (P == "C01" || P == "C05" || P == "C03") && w.chance(0.3);
  S->exact_points = !c.compensation;
  c.filters = w.chance(0.3);
  c.disk = P != "C01" && w.chance(P == "C16" ? 0.5 : 0.4);
  c.delay = w.range(0, 2);
  c.kitti = w.chance(0.5);
  c.separate = w.chance(0.3);
  c.step = w.range(1, 3);
  c.direct = P == "C05" ? w.chance(0.6) : true;
  c.mrvm = (P == "C05" || P == "C17") ? w.chance(0.4) : w.chance(0.1);
  c.package = P == "C17" || P == "C05" ? w.chance(0.2) : false;
  c.show = w.chance(0.5) || P == "C04" || P == "C34";
  c.gps = P == "C17" && w.chance(0.5);
  if (P == "C17" && c.mrvm) c.direct = w.chance(0.8);
  S->max_align_s = w.pick<double>({0.0, 0.01, 0.3, 1.5});
  const double rate_ms = w.pick<double>({0.0, 1.0, 8.0, 60.0, 300.0});
  for (auto& s : S->scans) s.gap_us = (int)(rate_ms * 2000 * w.unit());
  const double finish_delay_s = w.chance(0.5) ? 0.0 : w.pick<double>({0.003, 0.02, 0.3, 1.0, 4.0}) * w.unit();
  const bool concurrent_finish = w.chance(P == "C01" || P == "C03" ? 0.3 : 0.15);
  const double concurrent_at = w.unit() * (rate_ms / 1000 * nscan + 0.02);
  sim::event("scans %d frames %d", nscan, S->frame_count);

  sim::disk.root = spec.scratch;
  {
    std::ofstream o(spec.scratch + "/cfg.xml");
    o << config_xml(c);
  }
  mkdir(c.exp.c_str(), 0755);
  mkdir(c.pkg.c_str(), 0755);
  { REGISTER_BLOCK("warm up"); }  // the profiler keeps a thread for the life of the process
  const int baseline = sim::live_threads();
  bool finish_called = false;
  int before_finish = 0;          // scans completely handed in before finish was called
  std::vector<int> late;          // handed in while or after finish was called
  {
    std::unique_ptr<MapBuilder> mb(new MapBuilder);
    mb->SetTransformOdomToLidar(M4::Identity());
    mb->SetTransformImuToLidar(M4::Identity());
    mb->SetTrackingToImu(M4::Identity());
    mb->SetTrackingToOdom(M4::Identity());
    mb->SetTrackingToGps(M4::Identity());
    mb->SetTrackingToLidar(M4::Identity());
    if (c.show) {
      mb->SetShowSubmapFunction([](const MapBuilder::PointCloudPtr& cl, const M4& pose) {
        sim::Atomic at;
        State::Show s;
        std::set<int> t;
        for (auto& p : *cl) t.insert(scan_of(p.intensity));
        s.scans.assign(t.begin(), t.end());
        s.pose = pose;
        s.points = cl->size();
        S->shows.push_back(s);
        sim::event("show %zu", S->shows.size());
      });
      mb->SetShowPathFunction([](const std::vector<M4>& poses) {
        sim::Atomic at;
        if (poses.size() < S->path_len_max) sim::violation(S->P, "path-shrinks", "a shown path has %zu poses after %zu", poses.size(), S->path_len_max);
        S->path_len_max = poses.size();
        auto v = std::make_shared<State::View>();
        v->kind = 'p';
        v->shows = S->shows.size();
        v->poses.assign(poses.begin(), poses.end());
        S->views.push_back(v);
      });
      if (P == "C34") {
        mb->SetShowMapFunction([](const MapBuilder::PointCloudPtr& cl) {
          sim::Atomic at;
          auto v = std::make_shared<State::View>();
          v->kind = 'm';
          v->shows = S->shows.size();
          v->pts.assign(cl->points.begin(), cl->points.end());
          S->views.push_back(v);
        });
        mb->SetShowEdgeFunction([](const std::map<int64_t, back_end::ViewGraph::GraphItem>& g) {
          sim::Atomic at;
          auto v = std::make_shared<State::View>();
          v->kind = 'e';
          v->shows = S->shows.size();
          for (auto& i : g) {
            if (i.first != (int64_t)v->poses.size()) sim::violation(S->P, "graph", "a shown graph has submap %ld in place of %zu", (long)i.first, v->poses.size());
            v->poses.push_back(i.second.self_pose);
            for (auto& k : i.second.connections) v->edges.push_back({(int)i.first, (int)k.first});
          }
          S->views.push_back(v);
        });
      }
    }
    mb->Initialise((spec.scratch + "/cfg.xml").c_str());
    mb->EnableUsingOdom(false);
    mb->EnableUsingGps(c.gps);
    if (P == "C17") choose_fault(c);
    auto insert = [&](int i) {
      MapBuilder::PointCloudPtr cl(new MapBuilder::PointCloudType);
      for (auto& p : S->scans[i].pts) cl->push_back(p);
      cl->header.stamp = S->scans[i].stamp_us;
      mb->InsertPointcloudMsg(cl);
      sim::event("scan %d", i);
    };
    auto imu = [&](uint64_t us) {
      data::ImuMsg::Ptr m(new data::ImuMsg);
      m->header.stamp = SimpleTime::FromNanoSec(us * 1000);
      m->linear_acceleration << 0, 0, 9.8;
      m->angular_velocity << 0, 0, 0;
      m->orientation.setIdentity();
      mb->InsertImuMsg(m);
    };
    std::thread sensor([&] {
      uint64_t t_imu = S->scans.empty() ? 0 : S->scans[0].stamp_us - 50000;
      for (int i = 0; i < nscan; i++) {
        if (S->scans[i].gap_us) std::this_thread::sleep_for(std::chrono::microseconds(S->scans[i].gap_us));
        if (c.use_imu)
          for (; t_imu <= S->scans[i].stamp_us; t_imu += 20000) imu(t_imu);
        if (c.gps && !finish_called) {
          data::NavSatFixMsg::Ptr g(new data::NavSatFixMsg);
          g->header.stamp = SimpleTime::FromNanoSec(S->scans[i].stamp_us * 1000);
          g->status.status = data::STATUS_FIX;
          g->latitude = 31.1 + 1e-6 * i;
          g->longtitude = 121.3;
          g->altitude = 4;
          mb->InsertGpsMsg(g);
          sim::Atomic at;
          if (!finish_called) S->fixes++;
        }
        insert(i);
        sim::Atomic at;
        if (!finish_called) before_finish = i + 1;
      }
    });
    if (concurrent_finish) {
      sim::sleep_s(concurrent_at);
    } else {
      sensor.join();
      if (finish_delay_s > 0) sim::sleep_s(finish_delay_s);
    }
    {
      sim::Atomic at;
      finish_called = true;
      sim::event("finish after %d", before_finish);
      if (concurrent_finish) sim::probe("finish_while_arriving");
    }
    mb->FinishAllComputations();
    sim::event("finished");
    if (sensor.joinable()) sensor.join();
    const size_t fe_at_finish = S->fe.size();
    for (int i = nscan; i < nscan + 3; i++) insert(i);  // must be ignored
    sleep_ms(300);
    if (S->fe.size() != fe_at_finish) sim::violation(P, "scan-after-finish", "a scan was matched after finish had returned");
    mb.reset();
  }
  if (sim::live_threads() != baseline) sim::violation(P, "threads-left", "threads alive after the builder was destroyed:%s", sim::thread_list().c_str());
  sim::disk.enabled = false;
  sim::Atomic at;
  // ---- C01: what was matched
  const std::string A = P;
  std::vector<int> seq;
  if (nscan > 0 && (before_finish > 0 || !S->fe.empty())) seq.push_back(0);
  for (auto& st : S->fe) seq.push_back(st.first);
  sim::state(sim::hash64(seq.size(), before_finish));
  if (P == "C01" || P == "C05" || P == "C03" || P == "C16" || P == "C29") {
    for (size_t i = 1; i < seq.size(); i++) {
      if (seq[i] != seq[i - 1] + 1)
        sim::violation(A, seq[i] <= seq[i - 1] ? "scan-repeated" : "scan-skipped", "scan %d was matched after scan %d", seq[i], seq[i - 1]);
    }
    if ((int)seq.size() < before_finish)
      sim::violation(A, "scans-lost-at-finish", "%d scans were handed in before finish, only %zu of them were matched", before_finish, seq.size());
    if ((int)seq.size() > nscan) sim::violation(A, "scan-after-finish", "a scan handed in after finish was matched");
  }
  const Expected E = expect(c, seq);
  // the front end matches every scan against the newest key frame
  if (P == "C01" || P == "C03" || P == "C29") {
    int key = 0;
    size_t kf = 0;
    for (auto& st : S->fe) {
      while (kf + 1 < E.frames.size() && E.frames[kf + 1] < st.first) kf++;
      key = E.frames[kf];
      if (st.second != key) sim::violation(A, "wrong-target", "scan %d was matched against scan %d instead of key frame %d", st.first, st.second, key);
    }
  }
  if (P == "C01") return;
  // ---- C03 / C04
  if (E.submaps.size() == 1) sim::probe("one_submap");
  if (E.submaps.empty()) sim::probe("no_submap");
  if (E.submaps.size() > 2) sim::probe("three_or_more_submaps");
  std::map<int, size_t> group_of;
  for (size_t i = 0; i < E.submaps.size(); i++) group_of[E.submaps[i][0]] = i;
  if (P == "C03" || P == "C04") {
    for (auto& kv : S->pair_source) {
      if (!group_of.count(kv.first)) sim::violation(A, "wrong-group", "a submap starts at scan %d, which does not start a group of %d key frames", kv.first, S->frame_count);
      size_t g = group_of[kv.first];
      std::vector<int> got = kv.second;
      if (P == "C04" && S->pair_count[kv.first] > 1) sim::violation(A, "registered-twice", "submap %zu was registered %d times", g, S->pair_count[kv.first]);
      got.resize(std::min<size_t>(got.size(), E.submaps[g].size() * 1));
      if (kv.second.size() / std::max(1, S->pair_count[kv.first]) != E.submaps[g].size() || got != E.submaps[g])
        sim::violation(A, "wrong-group", "submap %zu does not consist of its %d key frames", g, S->frame_count);
      if (g == 0) sim::violation(A, "wrong-pair", "the first submap was registered");
      if (S->pair_target[kv.first] != E.submaps[g - 1] && S->pair_count[kv.first] == 1) sim::violation(A, "wrong-pair", "submap %zu was not registered against its predecessor", g);
    }
    for (size_t i = 1; i < E.submaps.size(); i++)
      if (!S->pair_count.count(E.submaps[i][0]))
        sim::violation(A, P == "C03" ? "group-without-submap" : "not-registered", "submap %zu of %zu was never registered against its predecessor", i, E.submaps.size());
  }
  if (P == "C04") {
    for (auto& kv : S->pair_guess) {
      const size_t g = group_of[kv.first];
      const M4 want = S->scans[E.submaps[g - 1][0]].pose.inverse() * S->scans[kv.first].pose;
      if (wl::trans_diff(want, kv.second) > kTolT || wl::rot_diff(want, kv.second) > kTolR)
        sim::violation(A, "wrong-guess", "submap %zu: the initial guess is off by %g m", g, wl::trans_diff(want, kv.second));
    }
  }
  if (P == "C04" || P == "C34") {
    if (c.show) {
      if (!E.submaps.empty() && S->shows.size() != E.submaps.size() - 1)
        sim::violation(A, "notifications", "%zu submaps were shown, expected %zu", S->shows.size(), E.submaps.size() - 1);
      for (size_t i = 0; i < S->shows.size(); i++) {
        if (S->shows[i].scans != E.submaps[i + 1]) sim::violation(A, "notifications", "notification %zu does not show submap %zu", i, i + 1);
        size_t points = 0;
        for (int k : E.submaps[i + 1]) points += S->scans[k].pts.size();
        if (S->shows[i].points != points) sim::violation(A, "notifications", "submap %zu is shown with %zu of %zu points", i + 1, S->shows[i].points, points);
        if (wl::trans_diff(S->shows[i].pose, E.G[i + 1]) > kTolT || wl::rot_diff(S->shows[i].pose, E.G[i + 1]) > kTolR)
          sim::violation(A, "notification-pose", "notification of submap %zu: pose off by %g m", i + 1, wl::trans_diff(S->shows[i].pose, E.G[i + 1]));
      }
      if (E.submaps.size() > 1 && S->path_len_max != E.submaps.size()) sim::violation(A, "notifications", "the last shown path has %zu poses, expected %zu", S->path_len_max, E.submaps.size());
    }
  }
  if (P == "C34") check_views(E);
  if (P == "C05" || P == "C34") return;
  auto res = check_exports(c, E);
  if (c.gps && S->fixes > 0 && !concurrent_finish) {
    std::vector<pcl::PointXYZI> pts;
    res["original_gps.pcd"] = load_pcd(c.exp + "original_gps.pcd", &pts) && (int)pts.size() == S->fixes ? "" : "original_gps.pcd is missing, unreadable or incomplete";
  }
  if (c.package && !E.submaps.empty()) {
    pugi::xml_document doc;
    std::string bad;
    if (!doc.load_file((c.exp + "map_package.xml").c_str()) || !doc.child("MapPackage")) bad = "map_package.xml is missing or malformed";
    for (auto n = doc.child("MapPackage").child("Piece"); n; n = n.next_sibling("Piece")) {  // none when all points are outside the box around the submaps
      std::vector<pcl::PointXYZI> pts;
      // the PCD writer does not report a failing close, so the file with the fault may be listed
      if (!S->faulty.empty() && (std::string("/exp/") + n.attribute("file").as_string()).compare(0, S->faulty.size(), S->faulty) == 0) continue;
      if (!load_pcd(c.exp + n.attribute("file").as_string(), &pts) || pts.empty()) bad = "map_package.xml lists a piece that is missing, unreadable or empty";
    }
    res["map_package.xml"] = bad;
  }
  if (sim::disk_faults_total() > 0) sim::probe("export_fault");
  for (auto& kv : res) {
    if (kv.second.empty()) continue;
    if (P == "C17") {
      const std::string full = (kv.first == "map.xml" ? "/pkg/" : "/exp/") + kv.first;
      if (!S->faulty.empty() && full.compare(0, S->faulty.size(), S->faulty) == 0) continue;  // the file with the fault
      sim::violation(A, "other-file-lost", "%s (the fault was on %s)", kv.second.c_str(), S->faulty.empty() ? "nothing" : S->faulty.c_str());
    }
    if (P == "C16") sim::violation(A, "export-" + kv.first.substr(0, kv.first.find_first_of("0123456789.")), "%s", kv.second.c_str());
    if (P == "C29" && kv.first == "path.csv") sim::violation(A, "export", "%s", kv.second.c_str());
    if (P == "C03" && (kv.first == "path.csv" || kv.first.find("_map") != std::string::npos)) sim::violation(A, "export", "%s", kv.second.c_str());
    if (P == "C04" && (kv.first == "path.csv" || kv.first == "map.xml")) sim::violation(A, "export", "%s", kv.second.c_str());
  }
}

// C14: scans, IMU samples and fixes that are late, doubled, out of order, lost
// or empty, delivered by one or by several threads.
struct Msg {
  int kind;  // 0 scan, 1 imu, 2 gps
  int id;    // scan index
  uint64_t stamp_us;
  double arrive_us;
  bool empty;
};

void run_messages(const sim::Spec& spec) {
  auto& w = sim::workload();
  auto& f = sim::faults();
  const std::string& P = S->P;
  Cfg c;
  c.exp = spec.scratch + "/exp/";
  c.pkg = spec.scratch + "/pkg/";
  S->salt = w.next();
  S->frame_count = w.range(2, 3);
  const int nscan = w.range(1, 12);
  make_scans(nscan, w.chance(0.5) ? 0.0 : 0.4, c.range, 4);
  c.use_imu = w.chance(0.5);
  c.gps = w.chance(0.6);
  c.compensation = P == "C26" || w.chance(0.2);
  S->comp = P == "C26";
  S->range = c.range;
  S->exact_points = !c.compensation || S->comp;
  c.filters = w.chance(0.5);
  c.disk = w.chance(0.2);
  c.separate = w.chance(0.2);
  S->max_align_s = w.pick<double>({0.0, 0.01, 0.3});
  const double speed = w.pick<double>({0.0, 0.001, 0.05, 1.0});  // arrival in real time
  const bool threads = w.chance(0.5);
  const bool concurrent_finish = w.chance(0.2);
  // the ideal stream
  std::vector<Msg> ideal;
  const uint64_t t0 = S->scans[0].stamp_us - 100000, t1 = S->scans.back().stamp_us + 200000;
  for (int i = 0; i < nscan; i++) ideal.push_back({0, i, S->scans[i].stamp_us, 0, false});
  if (c.use_imu)
    for (uint64_t t = t0; t < t1; t += 20000) ideal.push_back({1, 0, t, 0, false});
  if (c.gps)
    for (uint64_t t = t0 + 13000; t < t1; t += 100000) ideal.push_back({2, 0, t, 0, false});
  const bool faulty = f.chance(0.85);
  double pr[3][4];
  for (auto& k : pr)
    for (auto& x : k) x = faulty ? f.pick<double>({0.0, 0.05, 0.25}) : 0;
  const double max_delay = f.pick<double>({30000.0, 150000.0, 800000.0});
  static const char* const kNames[3][4] = {{"scan_lost", "scan_doubled", "scan_late", "scan_empty"}, {"imu_lost", "imu_doubled", "imu_late", ""}, {"gps_lost", "gps_doubled", "gps_late", ""}};
  std::vector<Msg> del;
  for (auto m : ideal) {
    m.arrive_us = (double)(m.stamp_us - t0);
    if (sim::fault_choice(kNames[m.kind][0], pr[m.kind][0])) continue;
    if (sim::fault_choice(kNames[m.kind][2], pr[m.kind][2])) m.arrive_us += max_delay * f.unit();
    if (m.kind == 0 && sim::fault_choice(kNames[0][3], pr[0][3])) m.empty = true;
    del.push_back(m);
    if (sim::fault_choice(kNames[m.kind][1], pr[m.kind][1])) {
      Msg d = m;
      d.arrive_us += f.chance(0.5) ? 0 : max_delay * f.unit();
      del.push_back(d);
    }
  }
  std::stable_sort(del.begin(), del.end(), [](const Msg& a, const Msg& b) { return a.arrive_us < b.arrive_us; });
  sim::event("messages %zu imu %d gps %d threads %d", del.size(), c.use_imu, c.gps, threads);

  sim::disk.root = spec.scratch;
  {
    std::ofstream o(spec.scratch + "/cfg.xml");
    o << config_xml(c);
  }
  mkdir(c.exp.c_str(), 0755);
  mkdir(c.pkg.c_str(), 0755);
  { REGISTER_BLOCK("warm up"); }
  bool finish_called = false;
  struct Arrived {
    int scan;
    bool sure;  // handed in completely before finish and after the first IMU sample
  };
  std::vector<Arrived> arrived;
  uint64_t first_imu = 0;
  bool imu_ready = !c.use_imu;
  {
    std::unique_ptr<MapBuilder> mb(new MapBuilder);
    mb->SetTransformOdomToLidar(M4::Identity());
    mb->SetTransformImuToLidar(M4::Identity());
    mb->SetTrackingToImu(M4::Identity());
    mb->SetTrackingToOdom(M4::Identity());
    mb->SetTrackingToGps(M4::Identity());
    mb->SetTrackingToLidar(M4::Identity());
    mb->Initialise((spec.scratch + "/cfg.xml").c_str());
    mb->EnableUsingOdom(false);
    mb->EnableUsingGps(c.gps);
    auto deliver = [&](const Msg& m) {
      if (m.kind == 0) {
        MapBuilder::PointCloudPtr cl(new MapBuilder::PointCloudType);
        if (!m.empty)
          for (auto& p : S->scans[m.id].pts) cl->push_back(p);
        cl->header.stamp = m.stamp_us;
        bool ready, fin;
        {
          sim::Atomic at;
          ready = imu_ready && (!c.use_imu || m.stamp_us >= first_imu);
          if (!m.empty) arrived.push_back({m.id, false});
        }
        mb->InsertPointcloudMsg(cl);
        sim::Atomic at;
        fin = finish_called;
        if (!m.empty && ready && !fin) arrived.back().sure = true;
        sim::event("scan %d%s", m.id, m.empty ? " (empty)" : "");
      } else if (m.kind == 1) {
        data::ImuMsg::Ptr q(new data::ImuMsg);
        q->header.stamp = SimpleTime::FromNanoSec(m.stamp_us * 1000);
        q->linear_acceleration << 0, 0, 9.8;
        q->angular_velocity << 0, 0, 0.01;
        q->orientation.setIdentity();
        mb->InsertImuMsg(q);
        sim::Atomic at;
        if (!imu_ready) {
          imu_ready = true;
          first_imu = m.stamp_us;
        }
      } else {
        data::NavSatFixMsg::Ptr g(new data::NavSatFixMsg);
        g->header.stamp = SimpleTime::FromNanoSec(m.stamp_us * 1000);
        g->status.status = data::STATUS_FIX;
        g->latitude = 31.1 + 1e-6 * (double)(m.stamp_us - t0) / 1e5;
        g->longtitude = 121.3;
        g->altitude = 4;
        mb->InsertGpsMsg(g);
      }
    };
    auto play = [&](int kind) {
      double t = 0;
      for (auto& m : del) {
        if (kind >= 0 && m.kind != kind) continue;
        if (speed > 0 && m.arrive_us > t) sim::sleep_s(speed * (m.arrive_us - t) / 1e6);
        t = m.arrive_us;
        deliver(m);
      }
    };
    std::vector<std::thread> th;
    if (threads)
      for (int k = 0; k < 3; k++) th.emplace_back(play, k);
    else
      th.emplace_back(play, -1);
    if (concurrent_finish)
      sim::sleep_s(w.unit() * (speed * (t1 - t0) / 1e6 + 0.01));
    else
      for (auto& t : th) t.join();
    {
      sim::Atomic at;
      finish_called = true;
    }
    mb->FinishAllComputations();
    sim::event("finished");
    if (concurrent_finish)
      for (auto& t : th) t.join();
    mb.reset();
  }
  sim::disk.enabled = false;
  sim::Atomic at;
  if (S->comp) settle(-1);
  // what was matched
  std::vector<int> seq;
  if (!S->fe.empty()) seq.push_back(S->fe[0].second);
  for (auto& st : S->fe) seq.push_back(st.first);
  if (seq.empty()) {
    // a single scan is not matched to anything
    int n = 0;
    uint64_t newest = 0;
    for (auto& a : arrived) {
      const uint64_t t = S->scans[a.scan].stamp_us;
      if (t > newest && a.sure) n++;
      newest = std::max(newest, t);
    }
    if (n > 1) sim::violation(P, "scan-lost", "%d scans in order were handed in, none was matched", n);
    return;
  }
  // the matched scans are scans that arrived, in the order of arrival
  std::vector<char> used(arrived.size(), 0);
  {
    size_t a = 0;
    for (int s : seq) {
      size_t b = a;
      while (b < arrived.size() && arrived[b].scan != s) b++;
      if (b == arrived.size()) sim::violation(P, "out-of-order", "scan %d was matched more often than it arrived, or not in the order of arrival", s);
      used[b] = 1;
      a = b + 1;
    }
  }
  for (size_t i = 1; i < seq.size(); i++)
    if (S->scans[seq[i]].stamp_us < S->scans[seq[i - 1]].stamp_us) sim::violation(P, "stale-scan-used", "scan %d was matched after the newer scan %d", seq[i], seq[i - 1]);
  // every scan that is newer than all before it is matched
  uint64_t newest = 0;
  for (size_t i = 0; i < arrived.size(); i++) {
    const uint64_t t = S->scans[arrived[i].scan].stamp_us;
    if (t > newest && arrived[i].sure && !used[i]) sim::violation(P, "scan-lost", "scan %d was newer than all before and was not matched", arrived[i].scan);
    if (t < newest) sim::probe("stale_scan");
    newest = std::max(newest, t);
  }
  sim::state(sim::hash64(seq.size(), arrived.size()));
  for (size_t i = 0; i < seq.size(); i++)
    for (size_t k = 0; k < i; k++)
      if (std::fabs((S->scans[seq[k]].pose.inverse() * S->scans[seq[i]].pose).block<3, 1>(0, 3).norm() - c.range) < 1e-4) return;  // too close to decide
  const Expected E = expect(c, seq);
  size_t kf = 0;
  int key = seq[0];
  for (auto& st : S->fe) {
    if (st.second != key) sim::violation(P, "wrong-target", "scan %d was matched against scan %d instead of key frame %d", st.first, st.second, key);
    if (kf + 1 < E.frames.size() && E.frames[kf + 1] == st.first) key = E.frames[++kf];
  }
  for (auto& kv : check_exports(c, E))
    if (!kv.second.empty()) sim::violation(P, "export-" + kv.first.substr(0, kv.first.find_first_of("0123456789.")), "%s", kv.second.c_str());
}

void transforms(MapBuilder* mb, const M4& tracking_to_gps) {
  mb->SetTransformOdomToLidar(M4::Identity());
  mb->SetTransformImuToLidar(M4::Identity());
  mb->SetTrackingToImu(M4::Identity());
  mb->SetTrackingToOdom(M4::Identity());
  mb->SetTrackingToGps(tracking_to_gps);
  mb->SetTrackingToLidar(M4::Identity());
}

bool read_xml(const std::string& f, std::vector<M4, Eigen::aligned_allocator<M4>>* poses, std::vector<std::string>* connections) {
  pugi::xml_document doc;
  if (!doc.load_file(f.c_str())) return false;
  for (auto n = doc.child("Map").child("Trajectory").child("Submap"); n; n = n.next_sibling("Submap")) {
    double v[6] = {n.attribute("tx").as_double(), n.attribute("ty").as_double(), n.attribute("tz").as_double(),
                   n.attribute("rx").as_double(), n.attribute("ry").as_double(), n.attribute("rz").as_double()};
    poses->push_back(from6(v));
    connections->push_back(n.attribute("connections").as_string());
  }
  return true;
}

struct Fix {
  uint64_t stamp_us;
  Eigen::Vector3d enu;
  bool valid;
  double arrive_us;
};

// The fixes of a receiver at `lever` from the scanner, in the frame of the first one, for a map that lies at
// `yaw` in it.  Fixes at every scan and between two scans.
std::vector<Fix> make_fixes(double yaw, const Eigen::Vector3d& lever, M4* map_in_gps) {
  M4 T = pose_of(0, 0, 0, yaw);
  std::vector<Fix> r;
  auto pos = [&](const M4& p) { return Eigen::Vector3d((T * p * Eigen::Vector4d(lever[0], lever[1], lever[2], 1)).head<3>()); };
  const Eigen::Vector3d origin = pos(S->scans[0].pose);
  T.block<3, 1>(0, 3) -= origin;
  for (size_t i = 0; i < S->scans.size(); i++) {
    r.push_back({S->scans[i].stamp_us, pos(S->scans[i].pose), true, (double)S->scans[i].stamp_us});
    if (i + 1 < S->scans.size()) {
      const uint64_t mid = (S->scans[i].stamp_us + S->scans[i + 1].stamp_us) / 2;
      r.push_back({mid, 0.5 * (pos(S->scans[i].pose) + pos(S->scans[i + 1].pose)), true, (double)mid});
    }
  }
  *map_in_gps = T;
  return r;
}

void deliver_fix(MapBuilder* mb, const Fix& x, bool garbage) {
  static const GeographicLib::LocalCartesian frame(31.1, 121.3, 4);
  data::NavSatFixMsg::Ptr g(new data::NavSatFixMsg);
  g->header.stamp = SimpleTime::FromNanoSec(x.stamp_us * 1000);
  g->status.status = x.valid ? data::STATUS_FIX : data::STATUS_NO_FIX;
  Eigen::Vector3d e = x.enu;
  if (garbage) e += Eigen::Vector3d(40, -70, 5);
  double la, lo, al;
  frame.Reverse(e[0], e[1], e[2], la, lo, al);
  g->latitude = la;
  g->longtitude = lo;
  g->altitude = al;
  mb->InsertGpsMsg(g);
}

// C25: with enough fixes everything that is exported is in the frame of the fixes.
void run_gps(const sim::Spec& spec) {
  auto& w = sim::workload();
  auto& f = sim::faults();
  const std::string& P = S->P;
  Cfg c;
  c.exp = spec.scratch + "/exp/";
  c.pkg = spec.scratch + "/pkg/";
  S->salt = w.next();
  S->noise = 0;
  S->frame_count = w.range(2, 3);
  const int nscan = std::max(1, S->frame_count * w.range(3, 8) + w.range(-1, 1));
  make_scans(nscan, 0, c.range, 4, w.real(-0.3, 0.3));
  // so far apart that an interpolation over at most 0.2 s can not cut a corner
  for (int i = 1; i < nscan; i++) S->scans[i].stamp_us = S->scans[i - 1].stamp_us + (uint64_t)w.range(150000, 200000);
  c.gps = true;
  c.gps_num = w.range(3, 4);  // fewer can not give the direction
  c.gps_angle = w.pick<double>({0.0, 0.2, 0.6});
  if (c.gps_angle > 0 && w.chance(0.4)) {  // straight on, with the heading only off by rounding
    const double h = w.real(-1, 1), e = w.pick<double>({0.0, 1e-9, 1e-8, 1e-7, 1e-5});
    double x = 0;
    for (int i = 1; i < nscan; i++) {
      x += w.real(1.1, 1.6) * c.range;
      S->scans[i].pose = pose_of(x * std::cos(h), x * std::sin(h), 0, w.real(-e, e), w.real(-e, e), w.real(-e, e));
    }
    sim::probe("straight");
  }
  c.kitti = w.chance(0.5);
  c.separate = w.chance(0.3);
  c.disk = w.chance(0.3);
  S->max_align_s = w.pick<double>({0.0, 0.01, 0.3});
  const double speed = w.pick<double>({0.0, 0.05, 1.0});
  const bool first = w.chance(0.5), threads = w.chance(0.5);
  const Eigen::Vector3d lever(w.real(-1, 1), w.real(-1, 1), w.real(-0.5, 0.5));
  M4 T, tracking_to_gps = pose_of(lever[0], lever[1], lever[2], w.real(-1, 1));
  auto fixes = make_fixes(w.real(-0.8, 0.8), lever, &T);
  const bool faulty = f.chance(0.7);
  const double p_lost = faulty ? f.pick<double>({0.0, 0.1, 0.4}) : 0, p_late = faulty ? f.pick<double>({0.0, 0.1}) : 0, p_bad = faulty ? f.pick<double>({0.0, 0.1, 0.4}) : 0;
  std::vector<Fix> del;
  for (auto x : fixes) {
    if (!del.empty()) {
      if (sim::fault_choice("gps_lost", p_lost)) continue;
      if (sim::fault_choice("gps_invalid", p_bad)) x.valid = false;
      if (sim::fault_choice("gps_late", p_late)) x.arrive_us += 300000 * f.unit();
    }
    del.push_back(x);
  }
  std::stable_sort(del.begin(), del.end(), [](const Fix& a, const Fix& b) { return a.arrive_us < b.arrive_us; });
  sim::disk.root = spec.scratch;
  {
    std::ofstream o(spec.scratch + "/cfg.xml");
    o << config_xml(c);
  }
  mkdir(c.exp.c_str(), 0755);
  mkdir(c.pkg.c_str(), 0755);
  { REGISTER_BLOCK("warm up"); }
  {
    std::unique_ptr<MapBuilder> mb(new MapBuilder);
    transforms(mb.get(), tracking_to_gps);
    mb->Initialise((spec.scratch + "/cfg.xml").c_str());
    mb->EnableUsingOdom(false);
    mb->EnableUsingGps(true);
    auto insert = [&](int i) {
      MapBuilder::PointCloudPtr cl(new MapBuilder::PointCloudType);
      for (auto& p : S->scans[i].pts) cl->push_back(p);
      cl->header.stamp = S->scans[i].stamp_us;
      mb->InsertPointcloudMsg(cl);
      sim::event("scan %d", i);
    };
    auto fix = [&](const Fix& x) { deliver_fix(mb.get(), x, !x.valid); };
    const double t0 = (double)S->scans[0].stamp_us;
    auto wait = [&](double* t, double at) {
      if (speed > 0 && at > *t) sim::sleep_s(speed * (at - *t) / 1e6);
      *t = std::max(*t, at);
    };
    if (first) {
      for (auto& x : del) fix(x);
      for (int i = 0; i < nscan; i++) insert(i);
    } else if (threads) {
      std::thread g([&] {
        double t = t0;
        for (auto& x : del) {
          wait(&t, x.arrive_us);
          fix(x);
        }
      });
      double t = t0;
      for (int i = 0; i < nscan; i++) {
        wait(&t, (double)S->scans[i].stamp_us);
        insert(i);
      }
      g.join();
    } else {
      size_t k = 0;
      double t = t0;
      for (int i = 0; i < nscan; i++) {
        for (; k < del.size() && del[k].arrive_us <= S->scans[i].stamp_us; k++) fix(del[k]);
        wait(&t, (double)S->scans[i].stamp_us);
        insert(i);
      }
      for (; k < del.size(); k++) fix(del[k]);
    }
    mb->FinishAllComputations();
    mb.reset();
  }
  sim::Atomic at;
  std::vector<int> seq;
  for (int i = 0; i < nscan; i++) seq.push_back(i);
  Expected E = expect(c, seq);
  if (E.submaps.empty()) return;
  // the submaps that got a fix, and what follows for the frame
  std::vector<pcl::PointXYZI> enu;
  if (exists(c.exp + "enu_path.pcd") && !load_pcd(c.exp + "enu_path.pcd", &enu)) sim::violation(P, "export", "enu_path.pcd can not be read");
  size_t cached = 0, from = 0;
  bool aligned = false, unsure = false;
  double max_angle = 0;
  std::vector<double> angle;
  for (auto& g : E.G) {
    max_angle = std::max(max_angle, std::acos(std::min(1.0, std::max(-1.0, E.G[0].block<3, 1>(0, 0).dot(g.block<3, 1>(0, 0))))));
    angle.push_back(max_angle);
  }
  for (auto& q : enu) {
    const Eigen::Vector3d v(q.x, q.y, q.z);
    size_t i = from;
    while (i < E.G.size() && (v - (T * E.G[i] * Eigen::Vector4d(lever[0], lever[1], lever[2], 1)).head<3>()).norm() > (faulty ? 0.6 : 0.02)) i++;
    if (i == E.G.size()) sim::violation(P, "wrong-fix", "enu_path.pcd has the position (%.2f, %.2f, %.2f), where no submap was", v[0], v[1], v[2]);
    from = i + 1;
    if (aligned || unsure) continue;
    if ((int)cached < c.gps_num || angle[i] < c.gps_angle - 0.001) cached++;
    else if (angle[i] < c.gps_angle + 0.001 && c.gps_angle > 0) unsure = true;
    else aligned = true;
  }
  if (first && !faulty && enu.size() + 1 < E.G.size()) sim::violation(P, "fix-unused", "%zu of %zu submaps got a position although fixes cover all of them", enu.size(), E.G.size());
  if (unsure) return;
  sim::probe(aligned ? "in_gps_frame" : "in_map_frame");
  std::vector<M4, Eigen::aligned_allocator<M4>> got;
  std::vector<std::string> con;
  if (!read_xml(c.pkg + "map.xml", &got, &con) || got.size() != E.G.size()) sim::violation(P, "export", "map.xml is incomplete");
  sim::state(sim::hash64(enu.size() * 2 + aligned, got.size()));
  const M4 frame = aligned ? T : M4::Identity();
  for (size_t i = 0; i < got.size(); i++) {
    const M4 want = frame * E.G[i];
    const double d = wl::trans_diff(want, got[i]), r = wl::rot_diff(want, got[i]);
    if (d > (!aligned ? kTolT : faulty ? 0.6 : 0.1) || r > (!aligned ? kTolR : faulty ? 0.3 : 0.05))
      sim::violation(P, aligned ? "not-in-gps-frame" : "moved", "submap %zu of %zu is off by %.3f m and %.3f (rotation)%s", i, got.size(), d, r, aligned ? " in the frame of the fixes" : "");
  }
  E.G = got;  // and everything else is exported for exactly these poses
  for (auto& kv : check_exports(c, E))
    if (!kv.second.empty()) sim::violation(P, "export-" + kv.first.substr(0, kv.first.find_first_of("0123456789.")), "%s", kv.second.c_str());
}

// C27: the same scans give the same map whatever the timing, also with loop closures.
struct Built {
  std::vector<std::pair<int, int>> fe;
  std::multiset<std::pair<int, int>> pairs;
  std::vector<M4, Eigen::aligned_allocator<M4>> poses;
  std::vector<std::string> con;
  std::vector<Row> path;
  std::map<int, Eigen::Vector3d> map;
  size_t shows = 0;
};

void run_repeat(const sim::Spec& spec) {
  auto& w = sim::workload();
  const std::string& P = S->P;
  S->salt = w.next();
  S->loops = true;
  S->noise = w.pick<double>({0.1, 0.3, 1.0});
  S->frame_count = 2;
  Cfg c0;
  c0.loops = w.chance(0.85);
  c0.ignore = w.range(1, 3);
  c0.nearest = w.range(1, 4);
  c0.gps = w.chance(0.3);
  c0.gps_num = 3;
  c0.gps_angle = 0.1;
  const int nscan = S->frame_count * w.range(2, 9) + w.range(0, 1);
  make_scans(nscan, w.chance(0.5) ? 0 : 0.3, c0.range, 4, w.pick<double>({0.0, 0.3, 0.7}));
  std::vector<Fix> fixes;
  M4 T;
  if (c0.gps) fixes = make_fixes(w.real(-0.5, 0.5), Eigen::Vector3d(0, 0, 0), &T);
  c0.disk = w.chance(0.4);
  c0.show = w.chance(0.5);
  S->max_align_s = w.pick<double>({0.0, 0.02, 0.5});
  sim::disk.root = spec.scratch;
  { REGISTER_BLOCK("warm up"); }
  std::vector<Built> built;
  for (int pass = 0; pass < 2; pass++) {
    sim::tuning.calm = pass == 0;
    Cfg c = c0;
    c.delay = pass == 0 ? 1 : w.range(0, 2);
    c.exp = spec.scratch + "/exp" + std::to_string(pass) + "/";
    c.pkg = spec.scratch + "/pkg" + std::to_string(pass) + "/";
    const double rate_ms = w.pick<double>({0.0, 1.0, 60.0, 400.0});
    {
      std::ofstream o(spec.scratch + "/cfg.xml");
      o << config_xml(c);
    }
    mkdir(c.exp.c_str(), 0755);
    mkdir(c.pkg.c_str(), 0755);
    Built b;
    S->fe.clear();
    S->pairs.clear();
    {
      std::unique_ptr<MapBuilder> mb(new MapBuilder);
      transforms(mb.get(), M4::Identity());
      if (c.show) {
        mb->SetShowSubmapFunction([&](const MapBuilder::PointCloudPtr&, const M4&) {
          sim::Atomic at;
          b.shows++;
        });
        mb->SetShowEdgeFunction([](const std::map<int64_t, back_end::ViewGraph::GraphItem>&) {});
        mb->SetShowMapFunction([](const MapBuilder::PointCloudPtr&) {});
      }
      mb->Initialise((spec.scratch + "/cfg.xml").c_str());
      mb->EnableUsingOdom(false);
      mb->EnableUsingGps(c.gps);
      if (c.loops && !c.gps) mb->EnableUsingGps(false);
      for (auto& x : fixes) deliver_fix(mb.get(), x, false);
      sim::Rng r(w.next());
      for (int i = 0; i < nscan; i++) {
        if (rate_ms > 0) sleep_ms(rate_ms * r.unit());
        MapBuilder::PointCloudPtr cl(new MapBuilder::PointCloudType);
        for (auto& p : S->scans[i].pts) cl->push_back(p);
        cl->header.stamp = S->scans[i].stamp_us;
        mb->InsertPointcloudMsg(cl);
      }
      if (rate_ms > 0 && r.chance(0.5)) sleep_ms(3000 * r.unit());
      mb->FinishAllComputations();
      mb.reset();
    }
    sim::Atomic at;
    b.fe = S->fe;
    b.pairs = S->pairs;
    std::vector<pcl::PointXYZI> pts;
    if (!read_xml(c.pkg + "map.xml", &b.poses, &b.con)) sim::violation(P, "export", "map.xml is missing or malformed");
    if (!read_csv(c.exp + "path.csv", &b.path)) sim::violation(P, "export", "path.csv is missing or malformed");
    if (!b.poses.empty() && !load_pcd(c.exp + "whole_map.pcd", &pts)) sim::violation(P, "export", "whole_map.pcd is missing or malformed");
    for (auto& q : pts) b.map[(int)std::lround(q.intensity)] = Eigen::Vector3d(q.x, q.y, q.z);
    built.push_back(b);
  }
  sim::Atomic at;
  const Built &A = built[0], &B = built[1];
  size_t edges = 0;
  for (auto& s : B.con) edges += std::count(s.begin(), s.end(), '[');
  if (edges >= B.poses.size() && edges > 0) sim::probe("loop_closed");
  sim::state(sim::hash64(edges, B.poses.size()));
  if (A.fe != B.fe) sim::violation(P, "scans-differ", "%zu scans were matched, %zu without interleaving, or against other key frames", B.fe.size(), A.fe.size());
  if (A.poses.size() != B.poses.size()) sim::violation(P, "submaps-differ", "%zu submaps, %zu without interleaving", B.poses.size(), A.poses.size());
  if (A.pairs != B.pairs) sim::violation(P, "registrations-differ", "%zu registrations of submaps, %zu without interleaving, or of others", B.pairs.size(), A.pairs.size());
  if (A.con != B.con) sim::violation(P, "connections-differ", "the connections of the submaps are others than without interleaving");
  for (size_t i = 0; i < A.poses.size(); i++)
    if (wl::trans_diff(A.poses[i], B.poses[i]) > kTolT || wl::rot_diff(A.poses[i], B.poses[i]) > kTolR)
      sim::violation(P, "poses-differ", "submap %zu is %.4f m away from where it is without interleaving", i, wl::trans_diff(A.poses[i], B.poses[i]));
  if (A.path.size() != B.path.size()) sim::violation(P, "path-differs", "the path has %zu rows, %zu without interleaving", B.path.size(), A.path.size());
  for (size_t i = 0; i < A.path.size(); i++)
    if (wl::trans_diff(from6(A.path[i].v + 1), from6(B.path[i].v + 1)) > kTolT) sim::violation(P, "path-differs", "row %zu of the path differs from the one without interleaving", i);
  if (A.map.size() != B.map.size()) sim::violation(P, "map-differs", "the map has %zu points, %zu without interleaving", B.map.size(), A.map.size());
  for (auto& kv : A.map)
    if (!B.map.count(kv.first) || (B.map.at(kv.first) - kv.second).norm() > 0.05) sim::violation(P, "map-differs", "a point of scan %d is missing or elsewhere than without interleaving", kv.first / kTag);
  if (c0.show && A.shows != B.shows) sim::violation(P, "notifications-differ", "%zu submaps were shown, %zu without interleaving", B.shows, A.shows);
}

// C35: accepted loop closures take effect.  The reference is the best agreement of
// all registrations that are listed as connections, found in one go.
void run_closures(const sim::Spec& spec) {
  auto& w = sim::workload();
  const std::string& P = S->P;
  S->salt = w.next();
  S->loops = true;
  S->noise = w.pick<double>({0.0, 0.3, 1.0});
  S->frame_count = w.range(2, 3);
  Cfg c;
  c.loops = true;
  c.ignore = w.range(1, 4);
  c.nearest = w.range(1, 6);
  c.disk = w.chance(0.3);
  c.kitti = true;
  c.separate = w.chance(0.3);
  const int nscan = S->frame_count * w.range(3, 10) + w.range(0, 1);
  make_scans(nscan, w.chance(0.5) ? 0 : 0.3, c.range, 4, w.pick<double>({0.1, 0.3, 0.7}));
  S->max_align_s = w.pick<double>({0.0, 0.02, 0.5});
  sim::disk.root = spec.scratch;
  c.exp = spec.scratch + "/exp/";
  c.pkg = spec.scratch + "/pkg/";
  {
    std::ofstream o(spec.scratch + "/cfg.xml");
    o << config_xml(c);
  }
  mkdir(c.exp.c_str(), 0755);
  mkdir(c.pkg.c_str(), 0755);
  const double rate_ms = w.pick<double>({0.0, 1.0, 60.0, 400.0});
  {
    std::unique_ptr<MapBuilder> mb(new MapBuilder);
    transforms(mb.get(), M4::Identity());
    mb->Initialise((spec.scratch + "/cfg.xml").c_str());
    mb->EnableUsingOdom(false);
    mb->EnableUsingGps(false);
    sim::Rng r(w.next());
    for (int i = 0; i < nscan; i++) {
      if (rate_ms > 0) sleep_ms(rate_ms * r.unit());
      MapBuilder::PointCloudPtr cl(new MapBuilder::PointCloudType);
      for (auto& p : S->scans[i].pts) cl->push_back(p);
      cl->header.stamp = S->scans[i].stamp_us;
      mb->InsertPointcloudMsg(cl);
    }
    if (rate_ms > 0 && r.chance(0.5)) sleep_ms(3000 * r.unit());
    mb->FinishAllComputations();
  }
  sim::Atomic at;
  std::vector<int> all(nscan);
  for (int i = 0; i < nscan; i++) all[i] = i;
  Expected E = expect(c, all);
  const int n = (int)E.submaps.size();
  std::vector<M4, Eigen::aligned_allocator<M4>> got;
  std::vector<std::string> con;
  if (!read_xml(c.pkg + "map.xml", &got, &con)) sim::violation(P, "export", "map.xml is missing or malformed");
  if ((int)got.size() != n) sim::violation(P, "submaps", "%zu submaps, expected %d", got.size(), n);
  // the connections, as edges of a graph
  gtsam::NonlinearFactorGraph graph;
  gtsam::Values start;
  const auto noise = gtsam::noiseModel::Diagonal::Sigmas((gtsam::Vector(6) << 0.1, 0.1, 0.1, 0.15, 0.15, 0.15).finished());
  graph.emplace_shared<gtsam::PriorFactor<gtsam::Pose3>>(0, gtsam::Pose3(), gtsam::noiseModel::Isotropic::Sigma(6, 1e-6));
  auto first = [&](int k) { return E.submaps[k][0]; };
  M4 chain = M4::Identity();
  std::set<std::pair<int, int>> linked;
  int loops = 0;
  for (int i = 0; i < n; i++) {
    if (i > 0) {
      const M4 guess = S->scans[first(i - 1)].pose.inverse() * S->scans[first(i)].pose;
      const M4 rel = planned_loop_score(first(i), first(i - 1)) >= kMinScore ? planned_result(first(i), first(i - 1)) : guess;
      chain = chain * rel;
      graph.emplace_shared<gtsam::BetweenFactor<gtsam::Pose3>>(i - 1, i, gtsam::Pose3(rel), noise);
    }
    start.insert(i, gtsam::Pose3(chain));
    std::set<int> seen;
    for (const char* q = con[i].c_str(); (q = strchr(q, '['));) {
      int tr = -1, j = -1;
      if (sscanf(q, "[%d,%d]", &tr, &j) != 2 && sscanf(q, "[%d, %d]", &tr, &j) != 2) sim::violation(P, "connection", "submap %d has the connections '%s'", i, con[i].c_str());
      q++;
      if (j == i + 1) {
        seen.insert(j);
        continue;
      }
      if (j <= i + c.ignore || j >= n || !seen.insert(j).second) sim::violation(P, "connection", "submap %d has the connections '%s'", i, con[i].c_str());
      if (!S->pairs.count({first(i), first(j)})) sim::violation(P, "connection", "submaps %d and %d are connected but were never registered", i, j);
      if (planned_loop_score(first(j), first(i)) < 0.8) sim::violation(P, "connection", "submaps %d and %d are connected although their registration was bad", i, j);
      linked.insert({i, j});
      graph.emplace_shared<gtsam::BetweenFactor<gtsam::Pose3>>(i, j, gtsam::Pose3(planned_result(first(j), first(i))), noise);
      loops++;
    }
    if (i + 1 < n && !seen.count(i + 1)) sim::violation(P, "connection", "submap %d is not connected to the next one", i);
  }
  if (loops > 0) sim::probe("loop_closed");
  // a closure is used with all its good registrations or not at all
  for (int j = 0; j < n; j++) {
    int good = 0, used = 0;
    for (int i = 0; i + 1 < j; i++) {
      if (S->pairs.count({first(i), first(j)}) && planned_loop_score(first(j), first(i)) >= 0.8) good++;
      used += linked.count({i, j});
    }
    if (used > 0 && used != good) sim::violation(P, "edges-left-out", "submap %d: %d of %d good registrations of a loop are used", j, used, good);
    if (used == 0 && good >= 2 && S->noise == 0) sim::violation(P, "closure-left-out", "submap %d: %d registrations that agree are not used", j, good);
    if (good > 2) sim::probe("many_edges");
  }
  gtsam::Values best = start;
  if (n > 0) {
    gtsam::LevenbergMarquardtParams lp;
    lp.setRelativeErrorTol(1e-12);
    lp.setAbsoluteErrorTol(1e-12);
    best = gtsam::LevenbergMarquardtOptimizer(graph, start, lp).optimize();
  }
  for (int i = 0; i < n; i++) {
    const M4 want = best.at<gtsam::Pose3>(i).matrix();
    if (loops > 0 && wl::trans_diff(want, start.at<gtsam::Pose3>(i).matrix()) > 0.1) sim::probe("pose_corrected");
    const double d = wl::trans_diff(got[i], want), a = wl::rot_diff(got[i], want);
    if (d > 0.01 || a > 0.002)
      sim::violation(P, "not-closed", "submap %d is %.4f m and %.4f rad away from where its registrations put it (%d loop connections)", i, d, a, loops);
  }
  sim::state(sim::hash64(loops, n));
  E.G = got;  // and everything else is exported for exactly these poses
  for (auto& kv : check_exports(c, E))
    if (!kv.second.empty() && kv.first != "map.xml") sim::violation(P, "export-" + kv.first.substr(0, kv.first.find_first_of("0123456789.")), "%s", kv.second.c_str());
}

}  // namespace

void (*simhook::g_align)(simhook::AlignArgs*) = align;

void world_run(const sim::Spec& spec) {
  static tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1);
  static std::string prop = spec.prop;
  sim::tuning.liveness_prop = prop.c_str();
  sim::tuning.max_time_s = 2000;
  static State st;
  S = &st;
  st.P = prop;
  sim::start();
  if (prop == "C14" || prop == "C26")
    run_messages(spec);
  else if (prop == "C25")
    run_gps(spec);
  else if (prop == "C27")
    run_repeat(spec);
  else if (prop == "C35")
    run_closures(spec);
  else
    run(spec);
  sim::stop();
}
