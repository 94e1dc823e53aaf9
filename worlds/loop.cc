// World "loop": loop closure detection with parallel registrations (C19).  The
// same history is given to one detector whose tasks run one after the other and
// to one whose tasks interleave; registrations are planned by the world.
#include <map>
#include <set>
#include "back_end/loop_detector.h"
#include "builder/frame.h"
#include "builder/submap.h"
#include "common.h"
#include "registrators/icp_pointmatcher.h"
const char* const kWorldName = "loop";
using namespace static_map;
using back_end::DetectResult;
using back_end::LoopDetector;

namespace {
std::string P;
struct Plan {
  Eigen::Matrix4d t;
  double score, duration;
};
std::vector<std::shared_ptr<Submap>> S;
std::map<const void*, int> index_of;        // cloud -> submap
std::map<std::pair<int, int>, Plan> plans;  // target, source
std::vector<std::pair<int, int>> tried;     // by the detector that is running
double now_pose_error = 0;

Plan& plan_of(int target, int source) {
  auto it = plans.find({target, source});
  if (it == plans.end()) sim::harness_error("no plan for %d %d", target, source);
  return it->second;
}

void align(simhook::AlignArgs* a) {
  double d;
  {
    sim::Atomic at;
    auto s = index_of.find(a->source.get()), t = index_of.find(a->target.get());
    if (s == index_of.end() || t == index_of.end()) sim::violation(P, "unknown-cloud", "a registration got a cloud that belongs to no submap");
    const std::pair<int, int> p(t->second, s->second);
    tried.push_back(p);
    Plan& q = plan_of(p.first, p.second);
    a->result = q.t;
    a->score = q.score;
    d = q.duration;
  }
  if (d > 0) wl::sleep_ms(d * 1e3);
}

struct Seen {
  std::map<std::pair<int, int>, std::pair<Eigen::Matrix4d, double>> edges;
  bool ok = false;
};
}  // namespace
void (*simhook::g_align)(simhook::AlignArgs*) = align;

void world_run(const sim::Spec& spec) {
  static std::string prop = spec.prop;
  P = prop;
  sim::tuning.liveness_prop = prop.c_str();
  sim::tuning.max_time_s = 5000;
  auto& w = sim::workload();
  back_end::LoopDetectorSettings o;
  o.use_descriptor = false;
  o.loop_ignore_threshold = w.range(1, 5);
  o.trying_detect_loop_count = w.range(1, 3);
  o.nearest_history_pos_num = w.range(1, 5);
  o.max_close_loop_distance = (float)w.real(3, 15);
  o.max_close_loop_z_distance = 1.f;
  o.accept_scan_match_score = (float)w.pick<double>({0.5, 0.75});
  const int n = w.range(6, 24);
  const double radius = w.real(1, 10), step = w.real(0.3, 1.2), zstep = w.chance(0.3) ? w.real(0, 0.3) : 0;
  const int shape = (int)w.below(3);  // circle, there and back, random
  std::vector<Eigen::Matrix4d> pose;
  Eigen::Vector3d at(0, 0, 0);
  for (int i = 0; i < n; i++) {
    if (shape == 0) at << radius * std::cos(i * step), radius * std::sin(i * step), i * zstep;
    if (shape == 1) at << (i < n / 2 ? i : n - i) * step * 3, 0.1 * (i % 3), i * zstep;
    if (shape == 2) at += Eigen::Vector3d(w.real(-3, 3), w.real(-3, 3), w.real(-zstep, zstep));
    pose.push_back(wl::pose_of(at[0], at[1], at[2], w.real(-3, 3)));
  }
  sim::start();
  sim::tuning.calm = true;
  SubmapOptions so;
  so.enable_check = false;
  so.enable_disk_saving = false;
  so.frame_count = 1;
  for (int i = 0; i < n; i++) {
    auto s = std::make_shared<Submap>(so);
    SubmapId id;
    id.trajectory_index = 0;
    id.submap_index = i;
    s->SetId(id);
    auto f = std::make_shared<Frame>();
    data::InnerCloudType::Ptr c(new data::InnerCloudType);
    data::InnerPointType p;
    p.x = p.y = p.z = i;
    p.intensity = p.factor = 0;
    c->points.push_back(p);
    f->SetCloud(std::make_shared<data::InnerPointCloudData>(c));
    f->SetGlobalPose(pose[i]);
    s->InsertFrame(f);
    s->SetGlobalPose(pose[i]);
    S.push_back(s);
    index_of[s->Cloud().get()] = i;
  }
  // registration results: the true motion plus the drift of the source and a
  // difference of the pair
  const double pgood = w.pick<double>({0.3, 0.8, 1.0});
  const int noise = (int)w.below(3);  // none, near the limit, far off
  const double slow = w.chance(0.5) ? w.real(0.1, 3) : 0;
  for (int j = 0; j < n; j++) {
    const Eigen::Matrix4d drift = wl::pose_of(w.real(-1, 1), w.real(-1, 1), 0, w.real(-0.05, 0.05));
    for (int i = 0; i < n; i++) {
      if (i == j) continue;
      Plan p;
      Eigen::Matrix4d d = Eigen::Matrix4d::Identity();
      if (noise == 1) d = wl::pose_of(w.real(-0.2, 0.2), 0, 0, w.chance(0.3) ? w.real(-0.015, 0.015) : 0);
      if (noise == 2 && w.chance(0.3)) d = wl::pose_of(w.real(-2, 2), 0, 0, w.real(-0.1, 0.1));
      p.t = pose[i].inverse() * pose[j] * drift * d;
      p.score = w.chance(pgood) ? w.real(o.accept_scan_match_score + 0.01, 1) : w.real(0.01, o.accept_scan_match_score - 0.01);
      p.duration = slow > 0 && w.chance(0.7) ? w.real(0, slow) : 0;
      plans[{i, j}] = p;
    }
  }
  std::vector<char> detect(n);
  for (auto& d : detect) d = w.chance(0.95);
  std::vector<std::pair<int, Eigen::Matrix4d>> moves(n, {-1, Eigen::Matrix4d::Identity()});
  for (int i = 0; i < n; i++)
    if (w.chance(0.2)) moves[i] = {w.range(0, n - 1), wl::pose_of(w.real(-2, 2), w.real(-2, 2), 0, 0)};

  const int threads = sim::live_threads();
  std::vector<Seen> first;
  for (int pass = 0; pass < 3; pass++) {
    sim::tuning.calm = pass == 0;
    std::vector<Eigen::Matrix4d> now = pose;
    for (int i = 0; i < n; i++) S[i]->SetGlobalPose(pose[i]);
    LoopDetector det(o);
    for (int j = 0; j < n; j++) {
      if (moves[j].first >= 0) {  // the optimiser moves an earlier submap
        now[moves[j].first] = moves[j].second * now[moves[j].first];
        S[moves[j].first]->SetGlobalPose(now[moves[j].first]);
      }
      tried.clear();
      const DetectResult r = det.AddFrame(S[j], detect[j]);
      sim::Atomic at2;
      Seen seen;
      seen.ok = r.close_succeed;
      std::vector<Eigen::Matrix4d> implied;
      for (auto& e : r.edges) {
        const auto p = e.close_pair_index;
        if (p.second != j || p.first < 0 || p.first >= j) sim::violation(P, "wrong-pair", "an edge %d-%d was reported for submap %d", p.first, p.second, j);
        if (seen.edges.count(p)) sim::violation(P, "double-edge", "the edge %d-%d was reported twice", p.first, p.second);
        if (j - p.first <= o.loop_ignore_threshold) sim::violation(P, "too-recent", "an edge %d-%d although %d submaps are ignored", p.first, p.second, o.loop_ignore_threshold);
        const Eigen::Vector3d d = now[p.first].block<3, 1>(0, 3) - now[j].block<3, 1>(0, 3);
        if (d.head<2>().norm() > o.max_close_loop_distance + 1e-3 || std::fabs(d[2]) > o.max_close_loop_z_distance + 1e-3)
          sim::violation(P, "too-far", "an edge %d-%d over %.2f m", p.first, p.second, d.norm());
        const Plan& q = plan_of(p.first, p.second);
        if (q.score < o.accept_scan_match_score) sim::violation(P, "low-score", "an edge %d-%d with score %.3f (limit %.3f)", p.first, p.second, q.score, o.accept_scan_match_score);
        if (wl::trans_diff(q.t, e.transform) > 1e-6 || wl::rot_diff(q.t, e.transform) > 1e-6) sim::violation(P, "wrong-transform", "the edge %d-%d has a transform that was not registered", p.first, p.second);
        seen.edges[p] = {e.transform, e.score};
        implied.push_back(now[p.first] * e.transform);
      }
      if (!detect[j] && !r.edges.empty()) sim::violation(P, "not-asked", "edges were reported without detection");
      for (auto& p : tried)
        if (plan_of(p.first, p.second).score > o.accept_scan_match_score && !seen.edges.count(p))
          sim::violation(P, "edge-lost", "the registration %d-%d was good enough but is not reported", p.first, p.second);
      if (r.close_succeed) {
        bool centre = false;  // an edge all others agree with
        for (auto& a : implied) {
          bool all = true;
          for (auto& b : implied) all = all && wl::trans_diff(a, b) < 0.25 + 1e-3;
          centre = centre || all;
        }
        if (implied.size() < 2 || !centre) sim::violation(P, "disagreeing", "%zu edges that do not agree were accepted", implied.size());
        sim::probe("accepted");
      } else if (implied.size() >= 2) {
        bool agree = true;
        for (auto& a : implied)
          for (auto& b : implied) agree = agree && wl::trans_diff(a, b) < 0.2 && wl::rot_diff(a, b) < 0.01;
        if (agree) sim::violation(P, "not-accepted", "%zu agreeing edges were not accepted", implied.size());
        sim::probe("rejected");
      }
      if (pass == 0) {
        first.push_back(seen);
      } else {
        const Seen& f = first[j];
        bool same = f.edges.size() == seen.edges.size();
        for (auto& e : seen.edges) same = same && f.edges.count(e.first) && wl::trans_diff(f.edges.at(e.first).first, e.second.first) < 1e-6 && std::fabs(f.edges.at(e.first).second - e.second.second) < 1e-6;
        if (!same) sim::violation(P, "edges-differ", "submap %d: %zu edges, %zu when the registrations run one after the other", j, seen.edges.size(), f.edges.size());
        if (f.ok != seen.ok) sim::violation(P, "verdict-differs", "submap %d: %zu edges were %s, %s when the registrations run one after the other", j, seen.edges.size(), seen.ok ? "accepted" : "rejected", f.ok ? "accepted" : "rejected");
      }
      sim::state(sim::hash64(seen.edges.size() * 4 + seen.ok, sim::hash64(o.loop_ignore_threshold, j)));
    }
  }
  if (sim::live_threads() != threads) sim::violation(P, "threads-left", "detection left threads behind: %s", sim::thread_list().c_str());
  sim::stop();
}
