#!/usr/bin/env python3
"""Writes the fifth batch of planted bugs (loop closures, GPS frame, late scans, scan files, log lines)."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(H))
from mkbug import make
KIT = open(H + "/kit.h").read()
SH = open(H + "/kit_demo.sh").read()
MB, IS = "builder/map_builder.cc", "back_end/isam_optimizer.cc"


def kit(id, prop, edits, needs, what, main):
    make(id, prop, edits, needs, what, SH, {"kit.h": KIT, "demo.cc": main})


LOOP = """#include "kit.h"
static kit::M4 at(double x, double y) {
  kit::M4 m = kit::M4::Identity();
  m(0, 3) = x;
  m(1, 3) = y;
  return m;
}
static pcl::PointCloud<pcl::PointXYZI> run(const std::string& dir) {
  auto b = kit::make(dir, kit::Options());
  for (int i = 0; i < 12; i++) { kit::insert(b.get(), i); kit::ms(50); }
  b->FinishAllComputations();
  pcl::PointCloud<pcl::PointXYZI> c;
  if (pcl::io::loadPCDFile(dir + "/exp/path.pcd", c) || c.size() != 12) kit::fail("path");
  return c;
}
"""
kit("c35-first-edge", "C35", [(IS, "edge.close_pair_index.second, edge.transform,", "edge.close_pair_index.second,\n                       result.edges.front().transform,")],
    "a loop closure with more than one registration", "a loop closure of several submap pairs bends the map", LOOP + """
int main(int, char** a) {
  kit::on_frame = [](static_map::back_end::DetectResult* r) {
    if (r->current_frame_index != 5) return;
    kit::close(r, 0, 5, at(15, 0.5));
    kit::close(r, 1, 5, at(12, 0.5));
    kit::close(r, 2, 5, at(9, 0.5));
  };
  auto c = run(a[1]);
  if (std::fabs(c[10].x - 15) > 0.5) kit::fail("the last submap is at the wrong place");
  _exit(0);
}
""")
kit("c35-skip-small", "C35", [(IS, "    frames[i]->SetGlobalPose(pose);\n    view_graph_", "    if ((pose - frames[i]->GlobalPose()).norm() < 0.5) {\n      // Nothing changed for this submap.\n      continue;\n    }\n    frames[i]->SetGlobalPose(pose);\n    view_graph_")],
    "a loop closure that corrects submaps by less than half a metre", "small corrections of a loop closure are not in the exported map", LOOP + """
int main(int, char** a) {
  kit::on_frame = [](static_map::back_end::DetectResult* r) {
    if (r->current_frame_index == 5) kit::close(r, 0, 5, at(15, 0.35));
  };
  auto c = run(a[1]);
  if (c[10].y < 0.1) kit::fail("the loop closure has no effect");
  _exit(0);
}
""")
kit("c35-frames-early", "C35", [
    (MB, "      isam_optimizer_->AddFrame(\n          current_submap, current_submap->match_score_to_previous_submap_);\n", "      isam_optimizer_->AddFrame(\n          current_submap, current_submap->match_score_to_previous_submap_);\n      current_submap->UpdateInnerFramePose();\n"),
    (MB, "          current_trajectory_->front()->match_score_to_previous_submap_);\n", "          current_trajectory_->front()->match_score_to_previous_submap_);\n      current_trajectory_->front()->UpdateInnerFramePose();\n"),
    (MB, "  for (auto& submap : *current_trajectory_) {\n    submap->UpdateInnerFramePose();\n  }\n\n  // calculate the coord", "  // calculate the coord")],
    "a loop closure that moves submaps joined before it", "the exported path keeps the poses from before a loop closure", LOOP + """
int main(int, char** a) {
  kit::on_frame = [](static_map::back_end::DetectResult* r) {
    if (r->current_frame_index == 5) for (int k = 0; k < 2; k++) kit::close(r, k, 5, at(15 - 3 * k, 4));
  };
  auto c = run(a[1]);
  if (c[10].y < 1) kit::fail("the last submap is not corrected");
  if (c[8].y < 0.5) kit::fail("a submap in front of the last one is not corrected");
  _exit(0);
}
""")
kit("c25-frames-not-moved", "C25", [(MB, "    submap->SetGlobalPose(new_submap_pose);\n    submap->UpdateInnerFramePose();", "    submap->SetGlobalPose(new_submap_pose);")],
    "enough GPS fixes and a turn, so that the map is moved into the GPS frame", "the path stays in the map frame while the submaps are in the GPS frame", """#include "kit.h"
#include "GeographicLib/LocalCartesian.hpp"
int main(int, char** a) {
  kit::Options o;
  o.gps = true;
  const double L = 60;
  kit::pose = [=](int i) {  // two sides of a square
    kit::M4 m = kit::M4::Identity();
    const double s = 3. * i;
    m(0, 3) = std::min(s, L);
    if (s > L) {
      m(1, 3) = s - L;
      m.block<3, 3>(0, 0) = Eigen::AngleAxisd(0.5 * M_PI, Eigen::Vector3d::UnitZ()).toRotationMatrix();
    }
    return m;
  };
  auto b = kit::make(a[1], o);
  GeographicLib::LocalCartesian lc(30., 120., 10.);
  const int n = 80;
  auto enu = [](int i) {  // the map is turned by 90 degrees against the GPS frame
    const kit::M4 p = kit::pose(i);
    return Eigen::Vector3d(-p(1, 3), p(0, 3), p(2, 3));
  };
  for (int i = 0; i < n; i++) {
    auto g = std::make_shared<static_map::data::NavSatFixMsg>();
    g->header.stamp = static_map::ToLocalTime(1500000000000000ull + i * 100000ull);
    g->status.status = static_map::data::STATUS_FIX;
    const auto e = enu(i);
    lc.Reverse(e[0], e[1], e[2], g->latitude, g->longtitude, g->altitude);
    b->InsertGpsMsg(g);
  }
  for (int i = 0; i < n; i++) { kit::insert(b.get(), i); kit::ms(30); }
  b->FinishAllComputations();
  pcl::PointCloud<pcl::PointXYZI> c;
  if (pcl::io::loadPCDFile(std::string(a[1]) + "/exp/path.pcd", c) || (int)c.size() != n) kit::fail("path");
  if (std::fabs(c[16].x - enu(16)[0]) > 3 || std::fabs(c[16].y - enu(16)[1]) > 3) kit::fail("the path is not in the GPS frame");
  _exit(0);
}
""")
kit("c14-late-queued", "C14", [(MB, "    if (extrapolator_ && source_time < extrapolator_->GetLastPoseTime()) {", "    if (use_imu_ && source_time < extrapolator_->GetLastPoseTime()) {")],
    "mapping without IMU and a scan out of order that arrives before the newer one is processed", "a scan out of order ends the program", """#include "kit.h"
int main(int, char** a) {
  kit::Options o;
  kit::on_align = [](kit::Call* c) { if (c->src.size() == 1) kit::ms(100); };
  auto b = kit::make(a[1], o);
  for (int i = 0; i < 6; i++) kit::insert(b.get(), i);
  kit::insert(b.get(), 7);
  kit::insert(b.get(), 6);
  for (int i = 8; i < 12; i++) kit::insert(b.get(), i);
  b->FinishAllComputations();
  if (kit::rows(std::string(a[1]) + "/exp/path.csv") < 10) kit::fail("path");
  _exit(0);
}
""")
make("c23-name-length", "C23", [("ros_node/kitti_reader.cc", "  std::sort(files_.begin(), files_.end());", "  // numeric order\n  std::sort(files_.begin(), files_.end(),\n            [](const std::string &a, const std::string &b) {\n              return a.size() != b.size() ? a.size() < b.size() : a < b;\n            });")],
     "a directory with scan files whose names have different lengths", "the scans are not delivered in the order of their names", """#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
B=$PWD/_build
mkdir -p "$t/stub/pcl_conversions"
: > "$t/stub/pcl_conversions/pcl_conversions.h"
g++ -std=gnu++14 -O1 -w -Wl,--unresolved-symbols=ignore-in-shared-libs -I"$t/stub" -Ithird_parties -I. -Ibuilder -I/usr/include/eigen3 -I/usr/include/pcl-1.14 -I/usr/include/vtk-9.1 \\
  "$here/demo.cc" -o "$t/demo" -L"$B/common" -lstatic_mapping_common -lpcl_common -lgtsam -lglog -lboost_filesystem -lboost_system -lboost_thread -lpthread || { rm -r "$t"; exit 3; }
mkdir "$t/scans"
LD_LIBRARY_PATH="$B/common" timeout 100 "$t/demo" "$t/scans"; rc=$?
rm -r "$t"
exit $rc
""", {"demo.cc": """#include <vector>
#include "ros_node/kitti_reader.cc"
int main(int, char** a) {
  const std::string d = a[1];
  const char* names[] = {"scan_1.bin", "scan_10.bin", "scan_2.bin"};
  for (int i = 0; i < 3; i++) {
    FILE* f = fopen((d + "/" + names[i]).c_str(), "wb");
    float v[4] = {(float)i, 0, 0, 0};
    fwrite(v, sizeof v, 1, f);
    fclose(f);
  }
  static_map::KittiReader r;
  r.SetPointCloudDataPath(d);
  for (int i = 0; i < 3; i++) {
    auto c = r.ReadNext();
    if (!c || c->empty() || c->points[0].x != (float)i) {
      fprintf(stderr, "DEMO FAILED: wrong scan\\n");
      _exit(1);
    }
  }
  _exit(0);
}
"""})
make("c24-static-text", "C24", [("common/macro_defines.cc", "  std::string str = file;", "  static std::string str;\n  str = file;")],
     "two threads that write log lines at the same time", "log lines name the wrong source file or the program crashes", """#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
B=$PWD/_build
g++ -std=gnu++14 -O1 -w -I. -Ithird_parties -I/usr/include/eigen3 -I/usr/include/pcl-1.14 "$here/demo.cc" -o "$t/demo" -L"$B/common" -lstatic_mapping_common -Wl,--unresolved-symbols=ignore-in-shared-libs -lglog -lboost_filesystem -lboost_system -lpthread || { rm -r "$t"; exit 3; }
LD_LIBRARY_PATH="$B/common" timeout 100 "$t/demo" "$t"; rc=$?
rm -r "$t"
exit $rc
""", {"demo.cc": """#include <cstdio>
#include <cstring>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#include "common/macro_defines.h"
int main() {
  std::vector<std::thread> t;
  for (int k = 0; k < 4; k++)
    t.emplace_back([k] {
      const std::string name = std::string(5 + 20 * k, 'a' + k) + ".cc", path = "/some/where/" + name;
      for (int i = 0; i < 300000; i++)
        if (strcmp(static_map::splited_file_name(path.c_str()), name.c_str())) {
          fprintf(stderr, "DEMO FAILED: wrong name\\n");
          _exit(1);
        }
    });
  for (auto& x : t) x.join();
  _exit(0);
}
"""})
