// World "extrap": pose prediction with poses, IMU samples and predictions from
// different threads, IMU samples late, doubled, swapped or lost (C13).
#include "builder/pose_extrapolator.h"
#include "common.h"
const char* const kWorldName = "extrap";
using namespace static_map;
typedef Eigen::Matrix4d M4;

namespace {
struct World {
  std::string P;
  double t0 = 0, v[3], yaw_rate = 0, dyaw = 0, dt_imu = 0.02;
  std::vector<double> pose_t, imu_t, imu_w;
  std::vector<char> imu_opt;    // may be ignored
  std::vector<int> imu_order;  // delivery order (indices), with faults
  // progress: [completed, started)
  int pose_done = 0, pose_started = 0, imu_done = 0, imu_started = 0;
  bool imu_mode = false;
  double D = 0;
  // the vehicle turns about the vertical axis on ground with this slope
  Eigen::Matrix3d slope = Eigen::Matrix3d::Identity();
  double slope_angle = 0;
};
World* W;

SimpleTime at(double t) { return SimpleTime::FromNanoSec(1500000000000000000ll + (int64_t)std::llround((W->t0 + t) * 1e9)); }
// yaw measured by the first n delivered samples between a and b (sample and
// hold): least and greatest, as a sample that arrived out of order or after
// the pose it belongs to may be ignored
std::pair<double, double> measured(int n, double a, double b) {
  struct S {
    double t, w;
    bool opt;
  };
  std::vector<S> s;
  for (int i = 0; i < n; i++) s.push_back({W->imu_t[W->imu_order[i]], W->imu_w[W->imu_order[i]], (bool)W->imu_opt[i]});
  std::stable_sort(s.begin(), s.end(), [](const S& x, const S& y) { return x.t < y.t; });
  double lo = 0, hi = 0, wl = s[0].w, wh = s[0].w, t = a;
  for (auto& x : s) {
    if (x.t >= b) break;
    if (x.t > a) {
      lo += wl * (x.t - t);
      hi += wh * (x.t - t);
      t = x.t;
    }
    wl = x.opt ? std::min(wl, x.w) : x.w;
    wh = x.opt ? std::max(wh, x.w) : x.w;
  }
  return {lo + wl * (b - t), hi + wh * (b - t)};
}
double true_yaw(double t) { return W->yaw_rate * t; }
M4 true_pose(double t) {
  M4 m = wl::pose_of(W->v[0] * t, W->v[1] * t, W->v[2] * t, true_yaw(t));
  m.block<3, 3>(0, 0) = Eigen::Matrix3d(m.block<3, 3>(0, 0)) * W->slope;
  return m;
}

// How far the rotation may be off after predicting from a to b: on a slope the
// turn may be integrated in coarse steps, which is an error of second order.
double slack(double a, double b) {
  const double turn = W->yaw_rate * (b - a);
  if (W->slope_angle == 0) return 1e-5;
  // without an IMU the turn rate comes from poses up to a second apart
  const double coarse = W->imu_mode ? std::fabs(turn) : std::fabs(turn) + 0.5 * std::fabs(W->yaw_rate);
  return 3e-3 + 1.25 * W->slope_angle * std::fabs(turn) * coarse;
}

data::ImuMsg imu_msg(int i) {
  data::ImuMsg m;
  m.header.stamp = at(W->imu_t[i]);
  m.linear_acceleration = W->slope.transpose() * Eigen::Vector3d(0, 0, 9.8);
  m.angular_velocity = W->slope.transpose() * Eigen::Vector3d(0, 0, W->imu_w[i]);
  m.orientation.setIdentity();
  return m;
}

double wrap(double a) {
  while (a > M_PI) a -= 2 * M_PI;
  while (a < -M_PI) a += 2 * M_PI;
  return std::fabs(a);
}

// is `got` a correct prediction for t, given what was delivered meanwhile?
void check(double t, const M4& got, int p0, int p1, int i0, int i1, const char* who) {
  double best_t = 1e9, best_y = 1e9;
  const Eigen::Matrix3d flat = Eigen::Matrix3d(got.block<3, 3>(0, 0)) * W->slope.transpose();
  const double gy = std::atan2(flat(1, 0), flat(0, 0));
  const double tilt = std::hypot(flat(2, 0), flat(2, 1));
  if (!(tilt < slack(W->pose_t[std::max(0, p0 - 1)], t))) sim::violation(W->P, "wrong-tilt", "%s: prediction for %.3f s is tilted by %g rad", who, t, tilt);
  for (int p = std::max(1, p0); p <= p1; p++) {
    const double tn = W->pose_t[p - 1];
    const M4 base = true_pose(tn);
    // the velocity is known once the poses span the configured duration
    const double span = tn - W->pose_t[0];
    std::vector<double> scales;
    if (span >= W->D - 1e-6) scales.push_back(1);
    if (span <= W->D + 1e-6) scales.push_back(0);
    for (double s : scales) {
      Eigen::Vector3d want = base.block<3, 1>(0, 3);
      for (int k = 0; k < 3; k++) want[k] += s * W->v[k] * (t - tn);
      const double dt = (want - got.block<3, 1>(0, 3)).norm();
      if (!W->imu_mode) {
        const double dy = wrap(true_yaw(tn) + s * W->yaw_rate * (t - tn) - gy);
        if (dt < 1e-5 && dy < slack(tn, t)) return;
        if (dt + dy < best_t + best_y) best_t = dt, best_y = dy;
        continue;
      }
      for (int i = i0; i <= i1; i++) {
        const auto m = measured(i, tn, t);
        const double lo = true_yaw(tn) + m.first - gy, hi = true_yaw(tn) + m.second - gy;
        double dy = std::min(wrap(lo), wrap(hi));
        if (wrap((lo + hi) / 2) <= (hi - lo) / 2) dy = 0;
        if (dt < 1e-5 && dy < slack(tn, t) + W->dyaw) return;
        if (dt + dy < best_t + best_y) best_t = dt, best_y = dy;
      }
    }
  }
  sim::violation(W->P, "wrong-prediction", "%s: prediction for %.3f s is off by %g m and %g rad after %d-%d poses and %d-%d IMU samples (tilt %g)", who, t, best_t, best_y, p0, p1, i0,
                 i1, tilt);
}

M4 ask(PoseExtrapolator* e, double t, const char* who) {
  int p0, i0;
  {
    sim::Atomic a;
    p0 = W->pose_done;
    i0 = W->imu_done;
  }
  const M4 g = e->ExtrapolatePose(at(t));
  sim::Atomic a;
  check(t, g, p0, W->pose_started, i0, W->imu_started, who);
  sim::state(sim::hash64(W->pose_started - p0, W->imu_started - i0));
  if (W->imu_started != i0) sim::probe("imu_during_prediction");
  return g;
}

void run(const sim::Spec&) {
  auto& w = sim::workload();
  auto& f = sim::faults();
  W->imu_mode = w.chance(0.7);
  W->t0 = w.unit();
  for (double& x : W->v) x = w.real(-3, 3);
  W->yaw_rate = w.real(-1, 1);
  W->D = w.pick<double>({0.001, 0.1, 0.35});
  const int np = w.range(2, 8);
  double t = 0;
  W->pose_t.push_back(0);
  for (int i = 1; i < np; i++) W->pose_t.push_back(t += 0.02 + 0.001 * w.range(0, 180));
  const double end = t + 0.3;
  const bool constant = w.chance(0.5);
  if (constant && w.chance(0.5)) {
    const double dir = w.real(-M_PI, M_PI);
    W->slope_angle = w.real(0.05, 0.4);
    W->slope = Eigen::AngleAxisd(W->slope_angle, Eigen::Vector3d(std::cos(dir), std::sin(dir), 0)).toRotationMatrix();
    sim::probe("slope");
  }
  double maxd = 0;
  for (double x = 0; x < end; x += W->dt_imu) {
    W->imu_t.push_back(x);
    W->imu_w.push_back(constant ? W->yaw_rate : W->yaw_rate + 0.5 * std::sin(6 * x));
  }
  // sample and hold against any other integration rule, and one sample of slack
  for (size_t i = 1; i < W->imu_w.size(); i++) maxd = std::max(maxd, std::fabs(W->imu_w[i] - W->imu_w[i - 1]));
  // message faults
  const bool faulty = W->imu_mode && f.chance(0.6);
  const double pd = faulty ? f.pick<double>({0.0, 0.1, 0.3}) : 0, pdup = faulty ? f.pick<double>({0.0, 0.1, 0.3}) : 0, psw = faulty ? f.pick<double>({0.0, 0.1, 0.3}) : 0;
  int gap = 0, maxgap = 0;
  W->imu_order.push_back(0);
  for (int i = 1; i < (int)W->imu_t.size(); i++) {
    if (sim::fault_choice("imu_lost", pd)) {
      maxgap = std::max(maxgap, ++gap);
      continue;
    }
    gap = 0;
    W->imu_order.push_back(i);
    if (sim::fault_choice("imu_doubled", pdup)) W->imu_order.push_back(i);
  }
  for (size_t i = 2; i < W->imu_order.size(); i++)
    if (sim::fault_choice("imu_late", psw)) {
      // late by one to three messages
      size_t j = std::min(W->imu_order.size() - 1, i + 1 + (size_t)f.below(3));
      const int x = W->imu_order[i];
      W->imu_order.erase(W->imu_order.begin() + i);
      W->imu_order.insert(W->imu_order.begin() + j, x);
    }
  W->imu_opt.assign(W->imu_order.size(), 1);
  W->imu_opt[0] = 0;
  // other rules of integration are fine, too
  W->dyaw = constant ? 0 : maxd * W->dt_imu * (1 + maxgap);
  std::unique_ptr<PoseExtrapolator> e;
  if (W->imu_mode) {
    e = PoseExtrapolator::InitializeWithImu(SimpleTime::FromSec(W->D), 9.8, imu_msg(0));
    W->imu_done = W->imu_started = 1;
    W->pose_done = W->pose_started = 1;
  } else {
    e = PoseExtrapolator::InitialSimpleCTRV(SimpleTime::FromSec(W->D));
    e->AddPose(at(0), true_pose(0));
    W->pose_done = W->pose_started = 1;
  }
  const double speed = w.pick<double>({0.0, 0.02, 1.0});  // how fast the messages come, in real time
  const double lag = w.pick<double>({0.0, 0.05, 0.3});    // processing time of the pose thread
  std::vector<uint64_t> seeds;
  for (int i = 0; i < 5; i++) seeds.push_back(w.next());
  const int askers = w.range(0, 2);
  std::vector<std::function<void()>> fs;
  fs.push_back([&] {  // matching: predict, then add the pose of the same time
    sim::Rng r(seeds[0]);
    if (r.chance(0.5)) ask(e.get(), r.real(0.001, 0.2), "before the first pose");
    for (int i = 1; i < np; i++) {
      if (speed > 0) sim::sleep_s(speed * (W->pose_t[i] - W->pose_t[i - 1]));
      if (lag > 0 && r.chance(0.3)) sim::sleep_s(lag * r.unit());
      const double ti = W->pose_t[i];
      int n0, n1;
      {
        sim::Atomic a;
        n0 = W->imu_done;
      }
      const M4 a = ask(e.get(), ti, "matching");
      if (r.chance(0.3)) ask(e.get(), ti + r.real(0.01, 0.3), "matching, later time");
      const M4 b = ask(e.get(), ti, "matching, again");
      {
        sim::Atomic at;
        n1 = W->imu_started;
      }
      if (n0 == n1 && (a - b).norm() > 1e-9) sim::violation(W->P, "prediction-changes", "two predictions for %.3f s differ by %g although nothing was delivered", ti, (a - b).norm());
      {
        sim::Atomic at;
        W->pose_started = i + 1;
      }
      e->AddPose(at(ti), true_pose(ti));
      {
        sim::Atomic at;
        W->pose_done = i + 1;
        sim::event("pose %d", i);
      }
      if (!(e->GetLastPoseTime() == at(ti))) sim::violation(W->P, "last-pose-time", "the time of the last pose is wrong");
      if (r.chance(0.5)) ask(e.get(), ti, "at the newest pose");
      if (r.chance(0.3)) ask(e.get(), ti + r.real(0.001, 0.1), "after the newest pose");
    }
  });
  if (W->imu_mode)
    fs.push_back([&] {
      double newest = 0;
      for (size_t k = 1; k < W->imu_order.size(); k++) {
        const int i = W->imu_order[k];
        if (speed > 0) sim::sleep_s(speed * W->dt_imu);
        {
          sim::Atomic at;
          W->imu_started = (int)k + 1;
          if (W->imu_t[i] < W->pose_t[W->pose_done - 1]) sim::probe("imu_older_than_pose");
        }
        e->AddImuData(imu_msg(i));
        sim::Atomic at;
        W->imu_done = (int)k + 1;
        if (W->imu_t[i] >= newest && W->imu_t[i] >= W->pose_t[W->pose_started - 1]) W->imu_opt[k] = 0;
        newest = std::max(newest, W->imu_t[i]);
      }
      sim::event("imu done");
    });
  for (int q = 0; q < askers; q++)
    fs.push_back([&, s = seeds[1 + q]] {
      sim::Rng r(s);
      const int n = r.range(1, 5);
      for (int k = 0; k < n; k++) {
        if (speed > 0) sim::sleep_s(speed * r.real(0, 0.4));
        ask(e.get(), end + r.real(0, 0.2), "other thread");
      }
    });
  sim::parallel(fs);
  ask(e.get(), end + 0.05, "at the end");
}
}  // namespace

void world_run(const sim::Spec& spec) {
  static World st;
  W = &st;
  st.P = spec.prop;
  sim::tuning.liveness_prop = st.P.c_str();
  sim::tuning.max_time_s = 1000;
  sim::start();
  run(spec);
  sim::stop();
}
