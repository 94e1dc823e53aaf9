// World "mrvm": parallel insertion of scans into the multi-resolution voxel
// map (C15).  The same scans are inserted once without and once with simulated
// threads; scenes with axis-parallel rays are also compared with a model.
#include <algorithm>
#include <map>
#include <tuple>
#include "builder/multi_resolution_voxel_map.h"
#include "common.h"
const char* const kWorldName = "mrvm";
using namespace static_map;

namespace {
std::string P;
typedef std::tuple<int, int, int> Key;
struct Cell {
  int points = 0, intensity = 0, prob = -1;
  std::vector<std::array<float, 3>> xyz;
};
typedef std::map<Key, Cell> Map;
struct Scan {
  data::InnerCloudType::Ptr cloud;
  Eigen::Vector3f origin;
};

Key key_of(float x, float y, float z, float res) { return Key((int)std::floor(x / res), (int)std::floor(y / res), (int)std::floor(z / res)); }

Map contents(MultiResolutionVoxelMap* m, float res) {
  Map out;
  for (int k = 0; k < 256; k++) {
    pcl::PointCloud<pcl::PointXYZI>::Ptr c(new pcl::PointCloud<pcl::PointXYZI>);
    m->OutputToPointCloud(k / 256.f, c);
    if (c->empty()) break;
    Key last;
    bool first = true;
    for (auto& p : c->points) {
      Key q = key_of(p.x, p.y, p.z, res);
      Cell& e = out[q];
      e.prob = k;
      e.intensity = (int)std::lround(p.intensity);
      if (k == 0) {
        e.points++;
        e.xyz.push_back({p.x, p.y, p.z});
      }
    }
  }
  for (auto& e : out) std::sort(e.second.xyz.begin(), e.second.xyz.end());
  return out;
}

std::string text(const Key& k) {
  char b[64];
  snprintf(b, sizeof b, "(%d, %d, %d)", std::get<0>(k), std::get<1>(k), std::get<2>(k));
  return b;
}

int step(int k, double p, double slack) {
  const double q = k / 256.;
  double odd = std::log(q / (1 - q)) + std::log(p / (1 - p));
  double r = 1 - 1 / (1 + std::exp(odd));
  r = std::min(0.9, std::max(0.1, r));
  return (int)std::floor(r * 256 + slack);
}
}  // namespace

void world_run(const sim::Spec& spec) {
  static std::string prop = spec.prop;
  P = prop;
  sim::tuning.liveness_prop = prop.c_str();
  auto& w = sim::workload();
  MrvmSettings s;
  const float res = s.high_resolution = w.pick<float>({0.25f, 0.5f, 1.f});
  s.use_max_intensity = true;
  s.output_average = false;
  s.max_point_num_in_cell = w.pick<int>({1, 2, 3, 5, 10, 40});
  s.hit_prob = w.pick<float>({0.55f, 0.6f, 0.7f});
  s.miss_prob = w.pick<float>({0.48f, 0.45f, 0.4f});
  s.z_offset = w.chance(0.2) ? res * w.range(-1, 1) : 0.f;
  const bool axis = w.chance(0.5);  // rays along one axis
  const int nscan = w.range(1, 4);
  const int npts = w.chance(0.03) ? 600 : w.pick<int>({6, 20, 60});
  std::vector<Eigen::Vector3i> targets;
  const int ntarget = w.range(1, 6), reach = w.range(2, 8);
  const int ndir = w.range(1, 2);
  std::vector<std::pair<int, int>> dirs;
  for (int i = 0; i < ndir; i++) dirs.push_back({(int)w.below(3), w.chance(0.5) ? 1 : -1});
  for (int i = 0; i < ntarget; i++) {
    Eigen::Vector3i t(0, 0, 0);
    auto& d = dirs[w.below(ndir)];
    if (axis) t[d.first] = d.second * w.range(w.chance(0.2) ? 0 : 1, reach);  // 0: where the sensor is
    else t << w.range(-reach, reach), w.range(-reach, reach), w.range(-2, 2);
    targets.push_back(t);
  }
  std::vector<Scan> scans;
  for (int i = 0; i < nscan; i++) {
    Scan sc;
    sc.cloud.reset(new data::InnerCloudType);
    Eigen::Vector3i o(0, 0, 0);
    if (!axis) o << w.range(-1, 1), w.range(-1, 1), 0;
    sc.origin = (o.cast<float>() + Eigen::Vector3f(0.5f, 0.5f, 0.5f)) * res;
    sc.origin[2] -= s.z_offset;
    const int n = w.range(2, npts);
    std::vector<Eigen::Vector3i> seen;  // the other targets are not hit by this scan
    for (auto& t : targets)
      if (w.chance(0.6)) seen.push_back(t);
    if (seen.empty()) seen = targets;
    for (int k = 0; k < n; k++) {
      auto& t = seen[w.below(seen.size())];
      data::InnerPointType p;
      p.x = (t[0] + (float)w.real(0.1, 0.9)) * res;
      p.y = (t[1] + (float)w.real(0.1, 0.9)) * res;
      p.z = (t[2] + (float)w.real(0.1, 0.9)) * res;
      p.intensity = (float)w.range(0, 200);
      p.factor = 0;
      sc.cloud->points.push_back(p);
    }
    scans.push_back(sc);
  }
  // without threads
  Map want;
  {
    MultiResolutionVoxelMap m;
    m.Initialise(s);
    for (auto& sc : scans) m.InsertPointCloud(std::make_shared<data::InnerCloudType>(*sc.cloud), sc.origin);
    want = contents(&m, res);
  }
  sim::tuning.max_time_s = 1000;
  MultiResolutionVoxelMap m;
  m.Initialise(s);
  sim::start();
  for (auto& sc : scans) m.InsertPointCloud(std::make_shared<data::InnerCloudType>(*sc.cloud), sc.origin);
  if (sim::live_threads() != 1) sim::violation(P, "threads-left", "insertion left threads behind: %s", sim::thread_list().c_str());
  sim::stop();
  const Map got = contents(&m, res);
  // model
  std::map<Key, int> hits, maxi;
  std::map<Key, std::pair<int, int>> prob;  // bounds
  for (auto& sc : scans) {
    std::map<Key, int> h;
    for (auto& p : sc.cloud->points) {
      const Key k = key_of(p.x, p.y, p.z, res);
      h[k]++;
      if (!prob.count(k)) prob[k] = {128, 128};
      prob[k] = {step(prob[k].first, s.hit_prob, -0.01), step(prob[k].second, s.hit_prob, 0.01)};
      maxi[k] = std::max(maxi[k], (int)p.intensity);
    }
    for (auto& e : h) hits[e.first] += e.second;
    if (axis)
      for (auto& p : sc.cloud->points) {
        const Key e = key_of(p.x, p.y, p.z, res);
        const int t[3] = {std::get<0>(e), std::get<1>(e), std::get<2>(e)};
        const int d = std::max({std::abs(t[0]), std::abs(t[1]), std::abs(t[2])});
        for (int i = 0; i < d; i++) {
          const Key k(t[0] / d * i, t[1] / d * i, t[2] / d * i);
          if (!prob.count(k) || h.count(k)) continue;
          prob[k] = {step(prob[k].first, s.miss_prob, -0.01), step(prob[k].second, s.miss_prob, 0.01)};
          sim::probe("miss");
        }
      }
  }
  for (auto& e : got) {
    auto h = hits.find(e.first);
    if (h == hits.end()) sim::violation(P, "extra-cell", "cell %s holds %d points but no scan hit it", text(e.first).c_str(), e.second.points);
    if (e.second.points > s.max_point_num_in_cell)
      sim::violation(P, "too-many-points", "cell %s stores %d points, the limit is %d", text(e.first).c_str(), e.second.points, s.max_point_num_in_cell);
  }
  for (auto& h : hits) {
    auto g = got.find(h.first);
    const std::string t = text(h.first);
    const int n = std::min(h.second, s.max_point_num_in_cell);
    if (g == got.end()) sim::violation(P, "missing-cell", "cell %s was hit %d times but is not in the map", t.c_str(), h.second);
    if (g->second.points != n) sim::violation(P, "point-count", "cell %s stores %d points, %d expected", t.c_str(), g->second.points, n);
    if (g->second.intensity != maxi[h.first])
      sim::violation(P, "max-intensity", "cell %s has the maximum intensity %d, %d expected", t.c_str(), g->second.intensity, maxi[h.first]);
    auto f = want.find(h.first);
    if (f == want.end() || f->second.prob != g->second.prob)
      sim::violation(P, "occupancy-differs", "cell %s has occupancy %d/256, %d/256 without threads", t.c_str(), g->second.prob, f == want.end() ? -1 : f->second.prob);
    auto& b = prob[h.first];
    if (axis && (g->second.prob < b.first || g->second.prob > b.second))
      sim::violation(P, "occupancy-wrong", "cell %s has occupancy %d/256, expected %d..%d", t.c_str(), g->second.prob, b.first, b.second);
    sim::state(sim::hash64(g->second.prob, g->second.points));
  }
  if (got.size() != want.size()) sim::violation(P, "cell-count", "%zu cells, %zu without threads", got.size(), want.size());
}
