// World "filters": pre-processing filters that split their work over threads,
// and filter chains (C20).  A run without preemption inside the same process is
// the reference for runs under random schedules; the range filter and scenes
// with a flat floor are also compared with a model.
#include <algorithm>
#include <functional>
#include <thread>
#include "common.h"
#include "pre_processors/filter_axis_range.h"
#include "pre_processors/filter_bounding_box.h"
#include "pre_processors/filter_factory.h"
#include "pre_processors/filter_ground_removal2.h"
#include "pre_processors/filter_range.h"
const char* const kWorldName = "filters";
using namespace static_map;
namespace flt = static_map::pre_processers::filter;

namespace {
std::string P;
typedef data::InnerCloudType Cloud;
typedef std::shared_ptr<flt::Interface> Filter;

struct Out {
  std::vector<int> in, out;
  std::vector<data::InnerPointType> points;
  bool operator==(const Out& o) const { return in == o.in && out == o.out && wl::same_points(points, o.points); }
};

struct Def {
  std::string name, xml;
  double lo = 0, hi = 0;  // range filter
};

std::string param(const char* name, double v) {
  char b[160];
  snprintf(b, sizeof b, "<param type=\"1\" name=\"%s\">%.6f</param>", name, v);
  return b;
}
std::string parami(const char* name, int v) {
  char b[160];
  snprintf(b, sizeof b, "<param type=\"0\" name=\"%s\">%d</param>", name, v);
  return b;
}

Filter create(const Def& d) {
  Filter f;
  if (d.name == "Range") f = std::make_shared<flt::Range>();
  if (d.name == "GroundRemoval2") f = std::make_shared<flt::GroundRemoval2>();
  if (d.name == "AxisRange") f = std::make_shared<flt::AxisRange>();
  if (d.name == "BoundingBoxRemoval") f = std::make_shared<flt::BoundingBoxRemoval>();
  if (!f || !f->InitFromXmlText(("<filter name=\"" + d.name + "\">" + d.xml + "</filter>").c_str())) sim::harness_error("filter %s", d.name.c_str());
  return f;
}

Out apply(flt::Interface* f, const Cloud::Ptr& in) {
  Cloud::Ptr o(new Cloud);
  f->SetInputCloud(in);
  f->Filter(o);
  Out r;
  for (auto i : f->Inliers()) r.in.push_back(i);
  for (auto i : f->Outliers()) r.out.push_back(i);
  r.points = o->points;
  return r;
}

void check_partition(const Def& d, const Cloud& in, const Out& r) {
  std::vector<int> all = r.in;
  all.insert(all.end(), r.out.begin(), r.out.end());
  std::sort(all.begin(), all.end());
  bool ok = all.size() == in.points.size();
  for (size_t i = 0; ok && i < all.size(); i++) ok = all[i] == (int)i;
  if (!ok) sim::violation(P, "partition", "%s: %zu kept and %zu removed of %zu points", d.name.c_str(), r.in.size(), r.out.size(), in.points.size());
  if (r.points.size() != r.in.size()) sim::violation(P, "output-size", "%s: %zu points for %zu kept indices", d.name.c_str(), r.points.size(), r.in.size());
  for (size_t i = 0; i < r.in.size(); i++)
    if (!wl::same_point(r.points[i], in.points[r.in[i]])) sim::violation(P, "output-order", "%s: output point %zu is not input point %d", d.name.c_str(), i, r.in[i]);
}

struct Scene {
  Cloud::Ptr cloud;
  std::vector<int> floor;  // 1 floor, 0 obstacle, -1 not known
};

Def range_def(sim::Rng& w) {
  Def d;
  d.name = "Range";
  d.lo = w.chance(0.3) ? 0 : w.real(0.5, 6);
  d.hi = w.chance(0.2) ? 1000 : d.lo + w.real(1, 20);
  d.xml = param("min_range", d.lo) + param("max_range", d.hi);
  return d;
}

Def axis_def(sim::Rng& w) {
  Def d;
  d.name = "AxisRange";
  const double lo = w.real(-12, 2);
  d.xml = parami("axis_index", w.range(0, 2)) + param("min", lo) + param("max", lo + w.real(1, 20));
  return d;
}

Def box_def(sim::Rng& w) {
  Def d;
  d.name = "BoundingBoxRemoval";
  const double a = w.real(-8, 4), b = w.real(-8, 4);
  d.xml = param("min_x", a) + param("max_x", a + w.real(1, 6)) + param("min_y", b) + param("max_y", b + w.real(1, 6)) + param("min_z", -3) + param("max_z", 3);
  return d;
}

struct Ground {
  int segments, bins, threads;
  double rmin, rmax, z;
};

Def ground_def(sim::Rng& w, Ground* g, bool floor) {
  Def d;
  d.name = "GroundRemoval2";
  g->segments = w.pick<int>({4, 8, 12, 24, 36});
  g->bins = w.pick<int>({5, 8, 12, 20});
  g->threads = w.range(1, 6);
  g->rmin = 1;
  g->rmax = g->rmin + g->bins * (floor ? w.real(0.5, 1.5) : w.real(0.3, 2));
  g->z = w.real(-2, 0);
  d.xml = parami("segment_num", g->segments) + parami("bin_num", g->bins) + parami("thread_num", g->threads) + param("r_min", g->rmin) + param("r_max", g->rmax) +
          param("start_ground_height", g->z);
  if (floor)
    d.xml += param("long_line_threshold", 50);
  else
    d.xml += param("long_line_threshold", w.real(0.5, 4)) + param("search_angle", w.real(0, 60)) + param("max_dist_to_line", w.real(0.02, 0.4)) +
             param("max_error", w.real(0.02, 0.3)) + param("max_start_height", w.real(0.1, 1));
  return d;
}

Scene random_scene(sim::Rng& w, int n) {
  Scene s;
  s.cloud.reset(new Cloud);
  const double r = w.real(3, 20), zs = w.pick<double>({0.02, 0.2, 1.0});
  const double z0 = w.real(-2, 0);
  for (int i = 0; i < n; i++) {
    data::InnerPointType p;
    const double a = w.real(-M_PI, M_PI), q = r * std::sqrt(w.unit());
    p.x = q * std::cos(a);
    p.y = q * std::sin(a);
    p.z = z0 + w.real(-zs, zs) + (w.chance(0.2) ? w.real(0, 3) : 0);
    p.intensity = i;
    p.factor = 0;
    s.cloud->points.push_back(p);
    s.floor.push_back(-1);
  }
  return s;
}

// One floor point in the middle of every cell, and some points well above it.
Scene floor_scene(sim::Rng& w, const Ground& g) {
  Scene s;
  s.cloud.reset(new Cloud);
  struct E {
    data::InnerPointType p;
    int f;
  };
  std::vector<E> all;
  const double da = 2 * M_PI / g.segments, dr = (g.rmax - g.rmin) / g.bins;
  for (int a = 0; a < g.segments; a++)
    for (int b = 0; b < g.bins; b++) {
      const int above = w.chance(0.15) ? w.range(1, 3) : 0;
      for (int k = 0; k <= above; k++) {
        const double t = (a + w.real(0.2, 0.8)) * da, r = g.rmin + (b + (k ? w.real(0.2, 0.8) : 0.5)) * dr;
        E e;
        e.p.x = r * std::cos(t);
        e.p.y = r * std::sin(t);
        e.p.z = g.z + (k ? w.real(0.8, 3) : w.real(-0.02, 0.02));
        e.p.factor = 0;
        e.f = k == 0;
        all.push_back(e);
      }
    }
  for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[w.below(i)]);
  for (auto& e : all) {
    e.p.intensity = s.floor.size();
    s.cloud->points.push_back(e.p);
    s.floor.push_back(e.f);
  }
  return s;
}

void model(const Def& d, const Scene& s, const Out& r) {
  std::vector<char> kept(s.cloud->points.size(), 0);
  for (int i : r.in) kept[i] = 1;
  int exact = 0;
  for (size_t i = 0; i < kept.size(); i++) {
    auto& p = s.cloud->points[i];
    if (d.name == "Range") {
      const double q = std::sqrt((double)p.x * p.x + (double)p.y * p.y + (double)p.z * p.z);
      const double m = std::min(std::fabs(q - d.lo), std::fabs(q - d.hi));
      if (m < 1e-3) continue;
      if (kept[i] != (q >= d.lo && q <= d.hi)) sim::violation(P, "range-wrong", "point %zu at distance %.4f was %s (limits %.4f, %.4f)", i, q, kept[i] ? "kept" : "removed", d.lo, d.hi);
    }
    // a point that lies exactly on the fitted line is kept by this filter
    if (d.name == "GroundRemoval2" && s.floor[i] == 1 && kept[i] && ++exact <= 2) continue;
    if (d.name == "GroundRemoval2" && s.floor[i] >= 0 && kept[i] == s.floor[i])
      sim::violation(P, s.floor[i] ? "floor-kept" : "obstacle-removed", "point %zu of %zu (%s) was %s", i, kept.size(), s.floor[i] ? "floor" : "obstacle", kept[i] ? "kept" : "removed");
  }
}
}  // namespace

void world_run(const sim::Spec& spec) {
  static std::string prop = spec.prop;
  P = prop;
  sim::tuning.liveness_prop = prop.c_str();
  sim::tuning.max_time_s = 1000;
  auto& w = sim::workload();
  const int kind = (int)w.below(4);  // 0 range 1 ground 2 floor 3 chain
  const int users = w.chance(0.3) ? 2 : 1;  // threads with own filters at once
  const int rounds = w.range(1, 3);
  struct Job {
    std::vector<Def> defs;
    std::vector<Scene> scenes;
    std::vector<Out> want;
  };
  std::vector<Job> jobs(users);
  for (auto& j : jobs) {
    Ground g;
    if (kind == 0) j.defs.push_back(range_def(w));
    if (kind == 1 || kind == 2) j.defs.push_back(ground_def(w, &g, kind == 2));
    if (kind == 3) {
      const int n = w.range(0, 4);
      for (int i = 0; i < n; i++) {
        const int k = (int)w.below(5);
        j.defs.push_back(k <= 1 ? range_def(w) : k == 2 ? axis_def(w) : k == 3 ? box_def(w) : ground_def(w, &g, false));
      }
    }
    for (int i = 0; i < rounds; i++) j.scenes.push_back(kind == 2 ? floor_scene(w, g) : random_scene(w, w.range(1, w.pick<int>({8, 60, 300}))));
  }
  auto work = [&](Job& j, bool reference) {
    Filter single;
    std::shared_ptr<flt::Factory> chain;
    std::vector<Filter> each;
    if (kind != 3) single = create(j.defs[0]);
    else if (!reference) {
      chain = std::make_shared<flt::Factory>();
      std::string xml = "<filters>";
      for (auto& d : j.defs) xml += "<filter name=\"" + d.name + "\">" + d.xml + "</filter>";
      pugi::xml_document doc;
      if (!doc.load_string((xml + "</filters>").c_str())) sim::harness_error("xml");
      chain->InitFromXmlNode(doc.first_child());
    }
    for (size_t i = 0; i < j.scenes.size(); i++) {
      auto& s = j.scenes[i];
      Out r;
      if (single) {
        r = apply(single.get(), std::make_shared<Cloud>(*s.cloud));
        check_partition(j.defs[0], *s.cloud, r);
        model(j.defs[0], s, r);
      } else if (chain) {
        Cloud::Ptr o(new Cloud), in = std::make_shared<Cloud>(*s.cloud);
        chain->SetInputCloud(in);
        chain->Filter(o);
        r.points = o->points;
        if (!wl::same_points(in->points, s.cloud->points)) sim::violation(P, "input-changed", "the chain changed its input");
      } else {
        Cloud::Ptr c = std::make_shared<Cloud>(*s.cloud);
        for (auto& d : j.defs) {
          if (c->points.empty()) break;
          Filter f = create(d);
          Out o = apply(f.get(), c);
          check_partition(d, *c, o);
          Cloud::Ptr n(new Cloud);
          n->points = o.points;
          c = n;
        }
        r.points = c->points;
      }
      if (reference) {
        j.want.push_back(r);
        continue;
      }
      sim::Atomic a;
      const Out& q = j.want[i];
      if (!(r == q)) sim::violation(P, kind == 3 ? "chain-differs" : "schedule-dependent", "%s: %zu points kept, %zu without interleaving", j.defs.empty() ? "no filter" : j.defs[0].name.c_str(), r.points.size(), q.points.size());
      sim::state(sim::hash64(kind * 8 + users, r.points.size()));
    }
  };
  sim::tuning.calm = true;
  sim::start();
  for (auto& j : jobs) work(j, true);
  sim::tuning.calm = false;
  const int repeats = w.range(1, 2);
  for (int k = 0; k < repeats; k++) {
    if (users == 1) {
      work(jobs[0], false);
    } else {
      std::vector<std::thread> t;
      for (auto& j : jobs) t.emplace_back([&] { work(j, false); });
      for (auto& x : t) x.join();
    }
  }
  if (sim::live_threads() != 1) sim::violation(P, "threads-left", "filtering left threads behind: %s", sim::thread_list().c_str());
  sim::stop();
}
