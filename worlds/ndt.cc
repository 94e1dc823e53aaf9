// World "ndt": registration with the parallel normal distributions transform
// (C22).  The same pair of clouds is registered without threads and under
// random schedules of the worker threads.
#include <thread>
#include "common.h"
#include "registrators/icp_pointmatcher.h"
#include "registrators/ndt.h"
const char* const kWorldName = "ndt";
using namespace static_map;
void (*simhook::g_align)(simhook::AlignArgs*) = nullptr;  // not used here

namespace {
std::string P;
typedef data::InnerCloudType Cloud;
struct Answer {
  bool ok = false;
  Eigen::Matrix4d t = Eigen::Matrix4d::Identity();
  double score = 0;
};
struct Job {
  Cloud::Ptr source, target;
  Eigen::Matrix4d guess, truth;
  Answer want;
  bool stable = true;  // the result without threads does not hang on rounding
};

data::InnerPointType point(const Eigen::Vector3d& v) {
  data::InnerPointType p;
  p.x = v[0];
  p.y = v[1];
  p.z = v[2];
  p.intensity = 0;
  p.factor = 0;
  return p;
}

Answer align(registrator::Ndt* m, const Job& j, const Eigen::Matrix4d& guess) {
  Answer a;
  m->SetInputSource(std::make_shared<data::InnerPointCloudData>(std::make_shared<Cloud>(*j.source)));
  m->SetInputTarget(std::make_shared<data::InnerPointCloudData>(std::make_shared<Cloud>(*j.target)));
  a.ok = m->Align(guess, a.t);
  a.score = m->GetFitnessScore();
  return a;
}

double apart(const Answer& a, const Answer& b) { return std::max(std::max(wl::trans_diff(a.t, b.t), wl::rot_diff(a.t, b.t)), std::fabs(a.score - b.score)); }

// A corner of a room, with boxes: planes in three directions.
Job make_job(sim::Rng& w) {
  Job j;
  j.source.reset(new Cloud);
  j.target.reset(new Cloud);
  const int n = w.pick<int>({30, 60, 90, 150});
  const double size = w.real(1.2, 2.2);
  std::vector<Eigen::Vector3d> v;
  for (int i = 0; i < n; i++) {
    const double a = w.real(0, size), b = w.real(0, size), e = w.real(-0.02, 0.02);
    Eigen::Vector3d p;
    switch (i % 3) {
      case 0: p << a, b, e; break;
      case 1: p << a, e, b / 2; break;
      default: p << e, a, b / 2; break;
    }
    v.push_back(p);
  }
  j.truth = wl::pose_of(w.real(-0.2, 0.2), w.real(-0.2, 0.2), w.real(-0.05, 0.05), w.real(-0.03, 0.03));
  const Eigen::Matrix4d inv = j.truth.inverse();
  const int step = w.chance(0.7) ? 1 : 2;
  for (size_t i = 0; i < v.size(); i++) {
    j.target->points.push_back(point(v[i]));
    if (i % step == 0) j.source->points.push_back(point((inv * v[i].homogeneous()).head<3>()));
  }
  j.guess = w.chance(0.5) ? Eigen::Matrix4d::Identity() : wl::pose_of(w.real(-0.1, 0.1), w.real(-0.1, 0.1), 0, w.real(-0.02, 0.02));
  return j;
}
}  // namespace

void world_run(const sim::Spec& spec) {
  static std::string prop = spec.prop;
  P = prop;
  sim::tuning.liveness_prop = prop.c_str();
  sim::tuning.max_time_s = 10000;
  auto& w = sim::workload();
  const int users = w.chance(0.25) ? 2 : 1, rounds = w.range(1, 2);
  std::vector<std::vector<Job>> jobs(users);
  for (auto& js : jobs)
    for (int i = 0; i < rounds; i++) js.push_back(make_job(w));
  for (auto& js : jobs)
    for (auto& j : js) {
      registrator::Ndt m;
      j.want = align(&m, j, j.guess);
      for (int k = 0; k < 3; k++) {
        Eigen::Matrix4d g = j.guess;
        for (int q = 0; q < 3; q++) g(q, 3) += w.real(-2e-5, 2e-5);
        registrator::Ndt n;
        const Answer a = align(&n, j, g);
        if (a.ok != j.want.ok || apart(a, j.want) > 2e-3) j.stable = false;
      }
      if (!j.stable) sim::probe("unstable_scene");
      if (wl::trans_diff(j.want.t, j.truth) < 0.05) sim::probe("recovered");
    }
  sim::start();
  auto work = [&](std::vector<Job>& js) {
    registrator::Ndt m;
    for (auto& j : js) {
      const Answer a = align(&m, j, j.guess);
      sim::Atomic at;
      sim::event("result %.17g %.17g %.17g", a.t(0, 3), a.t(1, 3), a.score);
      sim::state(sim::hash64(j.source->points.size(), (uint64_t)(a.t(0, 3) * 1e9)));
      if (a.ok != j.want.ok) sim::violation(P, "status", "registration %s, without threads it %s", a.ok ? "succeeded" : "failed", j.want.ok ? "succeeded" : "failed");
      if (j.stable && apart(a, j.want) > 1e-2)
        sim::violation(P, "schedule-dependent", "result differs from the one without threads by %.3g m, %.3g rad, score %.3g", wl::trans_diff(a.t, j.want.t), wl::rot_diff(a.t, j.want.t),
                       std::fabs(a.score - j.want.score));
    }
  };
  if (users == 1) {
    work(jobs[0]);
  } else {
    std::vector<std::thread> t;
    for (auto& js : jobs) t.emplace_back([&] { work(js); });
    for (auto& x : t) x.join();
  }
  if (sim::live_threads() != 1) sim::violation(P, "threads-left", "registration left threads behind: %s", sim::thread_list().c_str());
  sim::stop();
}
