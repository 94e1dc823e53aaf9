#!/usr/bin/env python3
"""Writes the fourth batch of planted bugs (key frames, motion compensation, live views, voxel maps, pair registration)."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(H))
from mkbug import make
KIT = open(H + "/kit.h").read()
SH = open(H + "/kit_demo.sh").read()
MB, MV = "builder/map_builder.cc", "builder/multi_resolution_voxel_map.cc"


def kit(id, prop, edits, needs, what, main):
    make(id, prop, edits, needs, what, SH, {"kit.h": KIT, "demo.cc": main})


kit("c29-yaw-only", "C29", [(MB, "        (std::fabs(euler_angles[0]) + std::fabs(euler_angles[1]) +\n         std::fabs(euler_angles[2])) *\n        (180. / M_PI);", "        std::fabs(euler_angles[2]) * (180. / M_PI);")],
    "a scan that is tilted and not moved", "a vehicle that only tilts gets no key frame", """#include "kit.h"
int main(int, char** a) {
  kit::Options o;
  o.motion = "translation_range=\\"1.\\" angle_range=\\"10.\\"";
  kit::pose = [](int i) {
    kit::M4 m = kit::M4::Identity();
    m.block<3, 3>(0, 0) = Eigen::AngleAxisd(0.3 * i, Eigen::Vector3d::UnitY()).toRotationMatrix();
    return m;
  };
  auto b = kit::make(a[1], o);
  for (int i = 0; i < 4; i++) { kit::insert(b.get(), i); kit::ms(50); }
  b->FinishAllComputations();
  if (kit::rows(std::string(a[1]) + "/exp/path.csv") < 4) kit::fail("key frames are missing");
  _exit(0);
}
""")
kit("c29-key-frame-on-move", "C29", [(MB, "      pose_target = pose_source;\n", "      if (accu_translation > 0.05) {\n        pose_target = pose_source;\n      }\n")],
    "a key frame after turning on the spot, and more motion after it", "the turn of a key frame on the spot is lost in the poses after it", """#include "kit.h"
int main(int, char** a) {
  kit::Options o;
  o.motion = "translation_range=\\"1.\\" angle_range=\\"10.\\"";
  kit::pose = [](int i) {  // go ahead, turn on the spot, go ahead
    kit::M4 m = kit::M4::Identity();
    if (i > 0) m(0, 3) = 2.;
    if (i > 1) m.block<3, 3>(0, 0) = Eigen::AngleAxisd(0.5 * M_PI, Eigen::Vector3d::UnitZ()).toRotationMatrix();
    if (i > 2) m(1, 3) = 2. * (i - 2);
    return m;
  };
  auto b = kit::make(a[1], o);
  for (int i = 0; i < 6; i++) { kit::insert(b.get(), i); kit::ms(50); }
  b->FinishAllComputations();
  pcl::PointCloud<pcl::PointXYZI> c;
  if (pcl::io::loadPCDFile(std::string(a[1]) + "/exp/path.pcd", c) || c.size() != 6) kit::fail("path");
  if (std::fabs(c[3].y - 2.) > 0.1 || std::fabs(c[3].x - 2.) > 0.1) kit::fail("a key frame is at the wrong place");
  _exit(0);
}
""")
kit("c26-compensate-twice", "C26", [(MB, "      MotionCompensation(*inner_cloud_without_comp,\n                         accumulative_transform", "      MotionCompensation(*source_cloud->GetInnerCloud(),\n                         accumulative_transform")],
    "motion compensation and a moving vehicle with a usable prediction", "points of the map are moved twice", """#include "kit.h"
int main(int, char** a) {
  kit::Options o;
  o.compensation = "enable=\\"true\\" use_average=\\"false\\"";
  auto b = kit::make(a[1], o);
  for (int i = 0; i < 10; i++) { kit::insert(b.get(), i); kit::ms(50); }
  b->FinishAllComputations();
  pcl::PointCloud<pcl::PointXYZI> c;
  if (pcl::io::loadPCDFile(std::string(a[1]) + "/exp/whole_map.pcd", c)) kit::fail("map");
  for (auto& p : c) {
    const int tag = (int)std::lround(p.intensity), i = tag / 64, k = tag % 64;
    const double moved = p.x - (kit::pose(i)(0, 3) + 3 + k);
    if (moved < -1.6 || moved > 1.6) kit::fail("a point was moved by more than the motion");
  }
  _exit(0);
}
""")
kit("c34-path-early", "C34", [(MB, "        if (submap->GetId().submap_index <= current_finished_index) {\n          poses.push_back(submap->GlobalPose());\n        }", "        poses.push_back(submap->GlobalPose());")],
    "submaps that are built before the ones in front of them are joined", "the shown path contains submaps without a pose", """#include "kit.h"
int main(int, char** a) {
  kit::Options o;
  kit::on_align = [](kit::Call* c) {
    if (c->src.size() > 1 && c->src[0] >= 4) kit::ms(3000);  // registering the later submaps takes long
  };
  auto b = kit::make(a[1], o);
  std::mutex m;
  size_t shown = 1;
  bool bad = false;
  b->SetShowSubmapFunction([&](const static_map::MapBuilder::PointCloudPtr&, const Eigen::Matrix4d&) {
    std::lock_guard<std::mutex> l(m);
    shown++;
  });
  b->SetShowPathFunction([&](const std::vector<Eigen::Matrix4d>& p) {
    std::lock_guard<std::mutex> l(m);
    if (p.size() != shown) bad = true;
  });
  for (int i = 0; i < 10; i++) { kit::insert(b.get(), i); kit::ms(20); }
  kit::ms(2500);
  b->FinishAllComputations();
  if (bad) kit::fail("the path shows unfinished submaps");
  _exit(0);
}
""")
kit("c27-newest-pair", "C27", [(MB, "        SubmapPairMatch(current_submap_index, current_submap_index - 1);", "        const int newest = current_trajectory_->size() - 1;\n        SubmapPairMatch(newest, newest - 1);")],
    "a registration that starts after a further submap was built", "a pair of submaps is registered twice and another one never", """#include "kit.h"
int main(int, char** a) {
  kit::Options o;
  kit::on_align = [](kit::Call* c) {
    if (c->src.size() == 2) kit::ms(100);
  };
  for (int round = 0; round < 3; round++) {
    kit::calls.clear();
    auto b = kit::make(a[1], o);
    for (int i = 0; i < 60; i++) kit::insert(b.get(), i);
    std::thread t([&] {
      b->FinishAllComputations();
      std::lock_guard<std::mutex> l(kit::mu);
      std::set<int> s;
      for (auto& c : kit::calls)
        if (c->src.size() == 2) {
          if (!s.insert(c->src[0]).second) kit::fail("a submap was registered twice");
          if (c->tgt[0] != c->src[0] - 2) kit::fail("wrong pair");
        }
      if (s.size() != 29) kit::fail("a submap was not registered");
    });
    for (int k = 0; k < 600; k++) {  // hangs when a pair is missing
      kit::ms(100);
      std::lock_guard<std::mutex> l(kit::mu);
      std::set<int> s;
      for (auto& c : kit::calls)
        if (c->src.size() == 2) s.insert(c->src[0]);
      if (s.size() == 29) break;
      if (k == 300) kit::fail("a submap was not registered");
    }
    t.join();
  }
  _exit(0);
}
""")
kit("c15-start-cell", "C15", [(MV, "      for (size_t i = 0; i < indices_size - 1; ++i) {", "      // the first voxel is the one of the sensor\n      for (size_t i = 1; i < indices_size - 1; ++i) {")],
    "a voxel that was hit once and in which the sensor is later", "a voxel that the sensor drove through stays occupied", """#include "kit.h"
#include "builder/multi_resolution_voxel_map.h"
int main() {
  using namespace static_map;
  MultiResolutionVoxelMap m;
  MrvmSettings s;
  s.high_resolution = 1.f;
  s.hit_prob = 0.55f;
  s.miss_prob = 0.45f;
  s.output_average = false;
  m.Initialise(s);
  auto scan = [](float x) {
    data::InnerCloudType::Ptr c(new data::InnerCloudType);
    data::InnerPointType p;
    p.x = x; p.y = 0.5f; p.z = 0.5f; p.intensity = 1; p.factor = 0;
    c->points.push_back(p);
    return c;
  };
  m.InsertPointCloud(scan(5.5f), Eigen::Vector3f(0.5f, 0.5f, 0.5f));
  for (int i = 0; i < 10; i++) m.InsertPointCloud(scan(9.5f), Eigen::Vector3f(5.5f, 0.5f, 0.5f));
  pcl::PointCloud<pcl::PointXYZI>::Ptr o(new pcl::PointCloud<pcl::PointXYZI>);
  m.OutputToPointCloud(0.5f, o);
  for (auto& p : *o)
    if (p.x < 6) kit::fail("the voxel is still occupied");
  if (o->empty()) kit::fail("empty map");
  _exit(0);
}
""")
