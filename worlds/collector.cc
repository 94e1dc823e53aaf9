// World "collector": sensor data collection (C01, C02, C11, C12).
#include <GeographicLib/LocalCartesian.hpp>
#include "builder/data/data_collector.h"
#include "common.h"
#include "pre_processors/filter_factory.h"
const char* const kWorldName = "collector";
using namespace static_map;
using data::DataCollector;
using wl::sleep_ms;

namespace {
const int64_t kT0 = 1500000000ll * 1000000000ll;

SimpleTime T(int64_t ns) { return SimpleTime::FromNanoSec(kT0 + ns); }

// ------------------------------------------------------------------ scans
struct Scan {
  uint64_t stamp_us;
  int n;
};

void run_scans(const std::string& P) {
  auto& w = sim::workload();
  const bool merge = P == "C02";
  const int N = merge ? w.range(2, 5) : 1;
  const bool lengthy = w.chance(0.03);  // long backlogs
  const int nscan = lengthy ? w.range(60, 700) : w.range(1, merge ? 30 : 16);
  const bool filtered = w.chance(0.5);
  // what is removed by pre-processing: points with |p| > 100
  std::vector<Scan> scans(nscan);
  uint64_t t = kT0 / 1000 + 1000;
  for (auto& s : scans) {
    t += (uint64_t)w.range(1000, 120000);
    s.stamp_us = t;
    s.n = w.chance(0.003) ? w.range(200, 3000) : w.range(1, 6);
    if (merge && w.chance(0.1)) s.n = 0;
  }
  // no merged scan without any point: those are not the subject here
  for (int i = 0; i < nscan; i += N)
    if (scans[i].n == 0) scans[i].n = 1;
  std::vector<int> gap(nscan);
  const double rate = lengthy ? w.pick<double>({0.0, 0.5}) : w.pick<double>({0.0, 0.5, 3.0, 20.0, 120.0});
  for (auto& g : gap) g = w.chance(0.3) ? 0 : (int)(rate * 1000 * w.unit() * 2);
  std::vector<std::vector<pcl::PointXYZI>> pts(nscan);
  for (int i = 0; i < nscan; i++)
    for (int k = 0; k < scans[i].n; k++) {
      pcl::PointXYZI p;
      p.x = 1.f + i % 50;
      p.y = 0.25f * (k % 100);
      p.z = (float)w.range(-8, 8);
      p.intensity = (float)((i * 10 + k) % 1000003);
      if (filtered && k > 0 && w.chance(0.3)) p.z = 500.f;
      pts[i].push_back(p);
    }
  // reference result
  struct Ref {
    int64_t ns;
    std::vector<data::InnerPointType> points;
  };
  std::vector<Ref> ref;
  for (int i = 0; i + N <= nscan; i += N) {
    Ref r;
    r.ns = (int64_t)scans[i].stamp_us * 1000;
    for (int j = i; j < i + N; j++)
      for (auto& p : pts[j]) {
        data::InnerPointType q;
        q.x = p.x;
        q.y = p.y;
        q.z = p.z;
        q.intensity = p.intensity;
        r.points.push_back(q);
      }
    ref.push_back(r);
  }
  pre_processers::filter::Factory factory;
  pugi::xml_document doc;
  const char* xml = "<filters><filter name=\"Range\"><param type=\"1\" name=\"max_range\">100.</param></filter></filters>";
  doc.load_string(xml);
  if (filtered) factory.InitFromXmlNode(doc.first_child());
  data::DataCollectorOptions o;
  o.accumulate_cloud_num = N;
  std::vector<data::InnerCloudType::Ptr> got;
  const bool burst_reader = w.chance(0.3);
  const int poll_us = w.pick<int>({100, 1000, 5000, 50000});
  {
    DataCollector dc(o, &factory);
    std::thread producer([&] {
      for (int i = 0; i < nscan; i++) {
        if (gap[i]) std::this_thread::sleep_for(std::chrono::microseconds(gap[i]));
        pcl::PointCloud<pcl::PointXYZI>::Ptr c(new pcl::PointCloud<pcl::PointXYZI>);
        for (auto& p : pts[i]) c->push_back(p);
        c->header.stamp = scans[i].stamp_us;
        dc.AddSensorData<pcl::PointXYZI>(c);
        c->clear();  // the caller may reuse its message
        sim::event("add %d", i);
      }
    });
    if (burst_reader) producer.join();
    double deadline = sim::now_s() + 120;
    while (got.size() < ref.size() && sim::now_s() < deadline) {
      const size_t before = dc.GetRemainingCloudSize();
      auto c = dc.GetNewCloud();
      if (c) {
        got.push_back(c);
        deadline = sim::now_s() + 120;
        sim::event("got %zu", got.size());
        sim::state(sim::hash64(got.size(), before));
      } else {
        std::this_thread::sleep_for(std::chrono::microseconds(poll_us));
      }
    }
    if (producer.joinable()) producer.join();
    if (got.size() == ref.size()) {
      sleep_ms(200);
      auto c = dc.GetNewCloud();
      if (c) sim::violation(P, "extra-scan", "one more scan than handed in");
    }
    sim::Atomic a;
    if (got.size() != ref.size())
      sim::violation(P, "scans-lost", "%zu of %zu scans came through pre-processing, none for 120 s", got.size(), ref.size());
    for (size_t i = 0; i < got.size(); i++) {
      const auto& g = *got[i];
      const int64_t ns = g.stamp.ToNanoSec();
      if (std::llabs(ns - ref[i].ns) > 1000)
        sim::violation(P, "wrong-stamp", "scan %zu: stamp %ld ns, expected %ld ns", i, (long)ns, (long)ref[i].ns);
      std::vector<const data::InnerPointType*> want;
      for (auto& q : ref[i].points)
        if (!filtered || std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z) <= 100.f) want.push_back(&q);
      if (g.points.size() != want.size())
        sim::violation(P, "wrong-points", "scan %zu: %zu points, expected %zu", i, g.points.size(), want.size());
      float last = -1;
      for (size_t k = 0; k < want.size(); k++) {
        const auto& p = g.points[k];
        if (!wl::same_float(p.x, want[k]->x) || !wl::same_float(p.y, want[k]->y) || !wl::same_float(p.z, want[k]->z) ||
            !wl::same_float(p.intensity, want[k]->intensity))
          sim::violation(P, "wrong-points", "scan %zu point %zu: (%g %g %g %g), expected (%g %g %g %g)", i, k, p.x, p.y, p.z, p.intensity, want[k]->x,
                         want[k]->y, want[k]->z, want[k]->intensity);
        if (merge) {
          if (!(p.factor >= 0 && p.factor < 1)) sim::violation(P, "factor-range", "scan %zu point %zu: factor %g", i, k, p.factor);
          if (p.factor < last) sim::violation(P, "factor-order", "scan %zu point %zu: factor %g after %g", i, k, p.factor, last);
          // position of the point in the merged scan
          size_t pos = want[k] - ref[i].points.data();
          double f = (double)pos / ref[i].points.size();
          if (std::fabs(p.factor - f) > 1e-5)
            sim::violation(P, pos == 0 ? "factor-start" : "factor-value", "scan %zu: point %zu of %zu carries factor %g", i, pos, ref[i].points.size(), p.factor);
          last = p.factor;
        }
      }
    }
  }
}

// ------------------------------------------------------------------ gps
struct Fix {
  int64_t ns;
  bool fixed;
  Eigen::Vector3d lla, enu;
  bool near = false;
};

struct Answer {
  bool has;
  Eigen::Vector3d v;
};

// All answers that are right for a query against fixes [from, n).
// Judged values: linear interpolation over the two bracketing fixes.
void gps_model(const std::vector<Fix>& f, size_t from, size_t n, int64_t t, double thr, std::vector<Answer>* out) {
  if (n <= from) {
    out->push_back({false, {}});
    return;
  }
  if (n - from == 1) {
    double d = std::fabs((double)(t - f[from].ns) * 1e-9);
    if (f[from].fixed && d <= thr) out->push_back({true, f[from].enu});
    else out->push_back({false, {}});
    return;
  }
  if (t < f[from].ns || t > f[n - 1].ns) {
    out->push_back({false, {}});
    return;
  }
  for (size_t i = from; i + 1 < n; i++) {
    if (t < f[i].ns || t > f[i + 1].ns) continue;
    const double dt = (f[i + 1].ns - f[i].ns) * 1e-9;
    if (dt > 0.2 || !f[i].fixed || !f[i + 1].fixed) {
      out->push_back({false, {}});
    } else {
      const double k = (t - f[i].ns) * 1e-9 / dt;
      out->push_back({true, f[i].enu + k * (f[i + 1].enu - f[i].enu)});
    }
  }
}

void run_gps(const std::string& P) {
  auto& w = sim::workload();
  const int nfix = w.chance(0.02) ? w.range(100, 600) : w.range(0, 24);
  std::vector<Fix> all;
  const double p_bad = w.chance(0.5) ? 0.0 : w.real(0.05, 0.5);
  const double p_gap = w.chance(0.5) ? 0.0 : w.real(0.05, 0.3);
  const double p_near = w.chance(0.7) ? 0.0 : w.real(0.05, 0.4);
  Eigen::Vector3d lla0(w.real(-60, 60), w.real(-170, 170), w.real(-50, 2000));
  int64_t t = w.range(0, 1000) * 1000000ll;
  Eigen::Vector3d lla = lla0;
  for (int i = 0; i < nfix; i++) {
    Fix f;
    f.ns = t;
    f.fixed = !w.chance(p_bad);
    if (i == 0 && w.chance(0.3)) f.fixed = false;
    f.lla = lla;
    all.push_back(f);
    if (i > 0 && w.chance(p_near)) {  // the same fix again, with a slightly later stamp
      f.ns += w.pick<int>({1, 2, 500, 1000, 1001, 1500});
      f.near = true;
      all.push_back(f);
      sim::probe("stamps_close");
    }
    t += w.chance(p_gap) ? w.range(210, 3000) * 1000000ll : w.range(5, 190) * 1000000ll;
    lla += Eigen::Vector3d(w.real(-1e-4, 1e-4), w.real(-1e-4, 1e-4), w.real(-1, 1));
  }
  const int64_t tend = t;
  // accepted: everything from the first valid fix on
  std::vector<Fix> acc, once;  // once: without the repeated fixes, which may be ignored
  std::vector<size_t> acc_count(all.size() + 1, 0), once_count(all.size() + 1, 0);  // accepted after i messages
  std::unique_ptr<GeographicLib::LocalCartesian> ref;
  for (size_t i = 0; i < all.size(); i++) {
    if (!ref && all[i].fixed) ref.reset(new GeographicLib::LocalCartesian(all[i].lla[0], all[i].lla[1], all[i].lla[2]));
    if (ref) {
      Fix f = all[i];
      ref->Forward(f.lla[0], f.lla[1], f.lla[2], f.enu[0], f.enu[1], f.enu[2]);
      acc.push_back(f);
      if (!f.near) once.push_back(f);
    }
    acc_count[i + 1] = acc.size();
    once_count[i + 1] = once.size();
  }
  pre_processers::filter::Factory factory;
  data::DataCollectorOptions o;
  DataCollector dc(o, &factory);
  size_t started = 0, finished = 0;  // messages
  const bool trimming = w.chance(0.6);
  const bool explicit_trim = w.chance(0.3);
  const int readers = w.range(1, 3);
  const int nq = w.range(1, 14);
  const bool sequential = w.chance(0.3);
  const int step_us = w.pick<int>({0, 10, 200, 5000});
  std::vector<int> gaps(all.size() + 1);
  for (auto& g : gaps) g = w.range(0, step_us);
  struct Q {
    int64_t t;
    double thr;
    int gap;
    bool trim;
  };
  std::vector<std::vector<Q>> qs(readers);
  for (int r = 0; r < readers; r++) {
    for (int k = 0; k < nq; k++) {
      Q q;
      if (!acc.empty() && w.chance(0.25)) q.t = acc[w.below(acc.size())].ns;
      else if (!acc.empty() && w.chance(0.3)) q.t = std::max<int64_t>(0, acc[w.below(acc.size())].ns + w.range(-8, 8) * 1000000ll);
      else if (!acc.empty() && w.chance(0.2)) q.t = acc[w.below(acc.size())].ns + w.range(0, 1600);
      else q.t = (int64_t)(w.unit() * (tend + 100000000ll));
      q.thr = w.pick<double>({0.001, 0.005, 0.05});
      // keep clear of the tolerance boundary
      for (auto& f : acc)
        if (std::fabs(std::fabs((q.t - f.ns) * 1e-9) - q.thr) < 2e-5) q.thr += 4e-4;
      q.gap = w.range(0, step_us * 2);
      q.trim = trimming && r == 0;
      qs[r].push_back(q);
    }
    if (r == 0 && trimming) std::sort(qs[r].begin(), qs[r].end(), [](const Q& a, const Q& b) { return a.t < b.t; });
  }
  // Times from `floor_ns` on are still covered: discarding may drop only what
  // is older than the bracket of a trimming query.
  int64_t floor_ns = -1, floor_pending = -1;
  std::vector<std::function<void()>> fs;
  // doubled fixes, and late ones that lie on the line between their neighbours:
  // whether they are ignored or sorted in, no answer may change
  auto& ff = sim::faults();
  const double p_dup = ff.pick<double>({0.0, 0.0, 0.1, 0.4}), p_late = ff.pick<double>({0.0, 0.0, 0.1, 0.4});
  auto send = [&](const Fix& f) {
    data::NavSatFixMsg m;
    m.header.stamp = T(f.ns);
    m.status.status = f.fixed ? data::STATUS_FIX : data::STATUS_NO_FIX;
    m.latitude = f.lla[0];
    m.longtitude = f.lla[1];
    m.altitude = f.lla[2];
    dc.AddSensorData(m);
  };
  auto producer = [&] {
    for (size_t i = 0; i < all.size(); i++) {
      if (gaps[i]) std::this_thread::sleep_for(std::chrono::microseconds(gaps[i]));
      {
        sim::Atomic a;
        started = i + 1;
      }
      send(all[i]);
      {
        sim::Atomic a;
        finished = i + 1;
        sim::event("fix %zu", i);
      }
      if (sim::fault_choice("gps_doubled", p_dup)) send(all[i - ff.below(std::min<size_t>(i + 1, 3))]);
      if (i > 0 && all[i].fixed && all[i - 1].fixed && all[i].ns - all[i - 1].ns < 190000000ll && sim::fault_choice("gps_late", p_late)) {
        Fix f = all[i];
        f.ns = (all[i].ns + all[i - 1].ns) / 2;
        f.lla = (all[i].lla + all[i - 1].lla) / 2;
        send(f);
      }
    }
  };
  auto reader = [&](int r) {
    for (auto& q : qs[r]) {
      if (q.gap) std::this_thread::sleep_for(std::chrono::microseconds(q.gap));
      size_t lo, lo_once;
      int64_t floor_before;
      {
        sim::Atomic a;
        lo = acc_count[finished];
        lo_once = once_count[finished];
        if (q.trim) floor_pending = std::max(floor_pending, q.t);
        floor_before = floor_ns;
        (void)floor_before;
      }
      auto v = dc.InterpolateGps(T(q.t), q.thr, q.trim);
      sim::Atomic a;
      const size_t hi = acc_count[started];
      if (q.trim) floor_ns = std::max(floor_ns, q.t);
      const bool covered = q.t >= floor_pending;
      std::vector<Answer> ok;
      for (size_t n = lo; n <= hi; n++) gps_model(acc, 0, n, q.t, q.thr, &ok);
      if (p_near > 0)
        for (size_t n = lo_once; n <= once_count[started]; n++) gps_model(once, 0, n, q.t, q.thr, &ok);
      if (!covered) ok.push_back({false, {}});
      bool match = false;
      for (auto& a2 : ok)
        if (a2.has == (bool)v && (!v || (*v - a2.v).norm() < 1e-5)) match = true;
      sim::event("query %ld -> %d", (long)q.t, (int)(bool)v);
      sim::state(sim::hash64(hi - lo, (bool)v + 2 * q.trim + 4 * covered));
      if (v) sim::probe("gps_answer");
      if (!match) {
        if (v && !ok.empty() && ok[0].has)
          sim::violation(P, "wrong-position", "query at %ld ns: (%g %g %g), expected (%g %g %g)", (long)q.t, (*v)[0], (*v)[1], (*v)[2], ok[0].v[0], ok[0].v[1],
                         ok[0].v[2]);
        sim::violation(P, v ? "unexpected-answer" : "missing-answer", "query at %ld ns (fixes %zu..%zu, trim %d): %s", (long)q.t, lo, hi, (int)q.trim,
                       v ? "an answer although there must be none" : "no answer although the time is covered");
      }
    }
  };
  auto trimmer = [&] {
    for (int k = 0; k < 3; k++) {
      sleep_ms(step_us / 1000.0 * 3);
      int64_t cut;
      {
        sim::Atomic a;
        // everything before `cut` may be dropped
        size_t n = acc_count[finished];
        if (n < 3) continue;
        cut = acc[n / 2].ns;
        floor_pending = std::max(floor_pending, cut);
      }
      dc.TrimSensorData(data::kGpsData, T(cut));
      sim::probe("explicit_trim");
    }
  };
  if (sequential) {
    producer();
    for (int r = 0; r < readers; r++) reader(r);
  } else {
    fs.push_back(producer);
    for (int r = 0; r < readers; r++) fs.push_back([&, r] { reader(r); });
    if (explicit_trim) fs.push_back(trimmer);
    sim::parallel(fs);
  }
  // the common frame is anchored at the first valid fix
  auto r = dc.GetGpsReference();
  if (r.is_initialized() != (bool)ref) sim::violation(P, "anchor", "reference present: %d, expected %d", (int)r.is_initialized(), (int)(bool)ref);
  if (ref) {
    if (std::fabs(r->LatitudeOrigin() - ref->LatitudeOrigin()) > 1e-12 || std::fabs(r->LongitudeOrigin() - ref->LongitudeOrigin()) > 1e-12 ||
        std::fabs(r->HeightOrigin() - ref->HeightOrigin()) > 1e-9)
      sim::violation(P, "anchor", "the frame is not anchored at the first valid fix");
  }
}

// ------------------------------------------------------------------ odometry
struct Od {
  int64_t ns;
  Eigen::Matrix4d rel;
  bool near;
};
struct OAnswer {
  bool has;
  Eigen::Matrix4d m;
};

void odom_model(const std::vector<Od>& f, size_t n, int64_t t, double thr, std::vector<OAnswer>* out) {
  if (n == 0) {
    out->push_back({false, {}});
    return;
  }
  if (n == 1) {
    if (std::fabs((double)(t - f[0].ns) * 1e-9) <= thr) out->push_back({true, f[0].rel});
    else out->push_back({false, {}});
    return;
  }
  if (t < f[0].ns || t > f[n - 1].ns) {
    out->push_back({false, {}});
    return;
  }
  for (size_t i = 0; i + 1 < n; i++) {
    if (t < f[i].ns || t > f[i + 1].ns) continue;
    const double dt = (f[i + 1].ns - f[i].ns) * 1e-9;
    if (dt > 1.0) {
      out->push_back({false, {}});
      continue;
    }
    const double k = (t - f[i].ns) * 1e-9 / dt;
    Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    m.block<3, 1>(0, 3) = f[i].rel.block<3, 1>(0, 3) * (1 - k) + f[i + 1].rel.block<3, 1>(0, 3) * k;
    Eigen::AngleAxisd d(Eigen::Matrix3d(f[i].rel.block<3, 3>(0, 0).transpose() * f[i + 1].rel.block<3, 3>(0, 0)));
    m.block<3, 3>(0, 0) = f[i].rel.block<3, 3>(0, 0) * Eigen::AngleAxisd(d.angle() * k, d.axis()).toRotationMatrix();
    out->push_back({true, m});
  }
}

void run_odom(const std::string& P) {
  auto& w = sim::workload();
  const int planned = w.chance(0.02) ? w.range(100, 600) : w.range(0, 24);
  std::vector<Od> f, once;  // once: without the repeated messages, which may be ignored
  std::vector<data::OdomMsg, Eigen::aligned_allocator<data::OdomMsg>> msgs;
  const double p_gap = w.chance(0.5) ? 0.0 : w.real(0.05, 0.3);
  int64_t t = w.range(0, 1000) * 1000000ll;
  double x = w.real(-50, 50), y = w.real(-50, 50), z = w.real(-5, 5), yaw = w.real(-3, 3), pitch = 0, roll = 0;
  const double p_near = w.chance(0.7) ? 0.0 : w.real(0.05, 0.4);
  Eigen::Matrix4d first = Eigen::Matrix4d::Identity();
  for (int i = 0; i < planned; i++) {
    Eigen::Matrix4d p = wl::pose_of(x, y, z, yaw, pitch, roll);
    data::OdomMsg m;
    m.header.stamp = T(t);
    m.SetPose(p);
    if (w.chance(0.3)) m.pose.pose.orientation.coeffs() *= -1;  // the same rotation
    msgs.push_back(m);
    if (i == 0) first = p;
    f.push_back({t, first.inverse() * p, false});
    once.push_back(f.back());
    if (i > 0 && w.chance(p_near)) {  // the same pose again, with a slightly later stamp
      const int64_t t2 = t + w.pick<int>({1, 2, 500, 1000, 1001, 1500});
      m.header.stamp = T(t2);
      msgs.push_back(m);
      f.push_back({t2, first.inverse() * p, true});
      sim::probe("stamps_close");
    }
    t += w.chance(p_gap) ? w.range(1010, 3000) * 1000000ll : w.range(2, 990) * 1000000ll;
    x += w.real(-2, 2);
    y += w.real(-2, 2);
    z += w.real(-0.2, 0.2);
    yaw += w.chance(0.2) ? w.real(-2.5, 2.5) : w.real(-0.3, 0.3);
    pitch = w.real(-0.3, 0.3);
    roll = w.real(-0.3, 0.3);
  }
  const int64_t tend = t;
  const int n = (int)f.size();
  std::vector<size_t> once_count(n + 1, 0);
  for (int i = 0; i < n; i++) once_count[i + 1] = once_count[i] + !f[i].near;
  pre_processers::filter::Factory factory;
  data::DataCollectorOptions o;
  DataCollector dc(o, &factory);
  size_t started = 0, finished = 0;
  const bool trimming = w.chance(0.6);
  const int readers = w.range(1, 3);
  const int nq = w.range(1, 14);
  const bool sequential = w.chance(0.3);
  const int step_us = w.pick<int>({0, 10, 200, 5000});
  std::vector<int> gaps(n + 1);
  for (auto& g : gaps) g = w.range(0, step_us);
  struct Q {
    int64_t t;
    double thr;
    int gap;
    bool trim;
  };
  std::vector<std::vector<Q>> qs(readers);
  for (int r = 0; r < readers; r++) {
    for (int k = 0; k < nq; k++) {
      Q q;
      if (!f.empty() && w.chance(0.25)) q.t = f[w.below(f.size())].ns;
      else if (!f.empty() && w.chance(0.3)) q.t = std::max<int64_t>(0, f[w.below(f.size())].ns + w.range(-8, 8) * 1000000ll);
      else if (!f.empty() && w.chance(0.2)) q.t = f[w.below(f.size())].ns + w.range(0, 1600);
      else q.t = (int64_t)(w.unit() * (tend + 100000000ll));
      q.thr = w.pick<double>({0.001, 0.005, 0.05});
      for (auto& a : f)
        if (std::fabs(std::fabs((q.t - a.ns) * 1e-9) - q.thr) < 2e-5) q.thr += 4e-4;
      q.gap = w.range(0, step_us * 2);
      q.trim = trimming && r == 0;
      qs[r].push_back(q);
    }
    if (r == 0 && trimming) std::sort(qs[r].begin(), qs[r].end(), [](const Q& a, const Q& b) { return a.t < b.t; });
  }
  int64_t floor_pending = -1;
  auto& ff = sim::faults();
  const double p_dup = ff.pick<double>({0.0, 0.0, 0.1, 0.4}), p_late = ff.pick<double>({0.0, 0.0, 0.1, 0.4});
  auto producer = [&] {
    for (int i = 0; i < n; i++) {
      if (gaps[i]) std::this_thread::sleep_for(std::chrono::microseconds(gaps[i]));
      {
        sim::Atomic a;
        started = i + 1;
      }
      dc.AddSensorData(msgs[i]);
      {
        sim::Atomic a;
        finished = i + 1;
        sim::event("odom %d", i);
      }
      if (sim::fault_choice("odom_doubled", p_dup)) dc.AddSensorData(msgs[i - (int)ff.below(std::min(i + 1, 3))]);
      if (i > 0 && f[i].ns - f[i - 1].ns < 990000000ll && sim::fault_choice("odom_late", p_late)) {
        std::vector<OAnswer> mid;
        const int64_t tm = (f[i].ns + f[i - 1].ns) / 2;
        odom_model(f, i + 1, tm, 0.001, &mid);
        data::OdomMsg m;
        m.header.stamp = T(tm);
        m.SetPose(first * mid[0].m);
        dc.AddSensorData(m);
      }
    }
  };
  auto reader = [&](int r) {
    for (auto& q : qs[r]) {
      if (q.gap) std::this_thread::sleep_for(std::chrono::microseconds(q.gap));
      size_t lo;
      {
        sim::Atomic a;
        lo = finished;
        if (q.trim) floor_pending = std::max(floor_pending, q.t);
      }
      auto v = dc.InterpolateOdom(T(q.t), q.thr, q.trim);
      sim::Atomic a;
      const size_t hi = started;
      const bool covered = q.t >= floor_pending;
      std::vector<OAnswer> ok;
      for (size_t k = lo; k <= hi; k++) odom_model(f, k, q.t, q.thr, &ok);
      if (p_near > 0)
        for (size_t k = once_count[lo]; k <= once_count[hi]; k++) odom_model(once, k, q.t, q.thr, &ok);
      if (!covered) ok.push_back({false, {}});
      bool match = false;
      for (auto& e : ok)
        if (e.has == (bool)v && (!v || (wl::trans_diff(*v, e.m) < 1e-4 && wl::rot_diff(*v, e.m) < 1e-4))) match = true;
      sim::event("query %ld -> %d", (long)q.t, (int)(bool)v);
      sim::state(sim::hash64(hi - lo, (bool)v + 2 * q.trim + 4 * covered));
      if (v) sim::probe("odom_answer");
      if (!match) {
        if (v && !ok.empty() && ok[0].has)
          sim::violation(P, "wrong-pose", "query at %ld ns: off by %g m, %g (rotation)", (long)q.t, wl::trans_diff(*v, ok[0].m), wl::rot_diff(*v, ok[0].m));
        sim::violation(P, v ? "unexpected-answer" : "missing-answer", "query at %ld ns (messages %zu..%zu, trim %d): %s", (long)q.t, lo, hi, (int)q.trim,
                       v ? "an answer although there must be none" : "no answer although the time is covered");
      }
    }
  };
  if (sequential) {
    producer();
    for (int r = 0; r < readers; r++) reader(r);
  } else {
    std::vector<std::function<void()>> fs;
    fs.push_back(producer);
    for (int r = 0; r < readers; r++) fs.push_back([&, r] { reader(r); });
    sim::parallel(fs);
  }
}

}  // namespace

void world_run(const sim::Spec& spec) {
  static std::string prop = spec.prop;
  sim::tuning.liveness_prop = prop.c_str();
  sim::tuning.max_time_s = 1000;
  sim::start();
  if (prop == "C11" || (prop == "C14" && sim::workload().chance(0.4))) run_gps(prop);
  else if (prop == "C12" || prop == "C14") run_odom(prop);
  else run_scans(prop);
  if (sim::live_threads() != 1) sim::violation(prop, "threads-left", "%d threads alive at the end", sim::live_threads());
  sim::stop();
}
