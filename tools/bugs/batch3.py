#!/usr/bin/env python3
"""Writes the third batch of planted bugs (clouds on disk, prediction, voxel maps, exports, loops, filters, readers)."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(H))
from mkbug import make
KIT = open(H + "/kit.h").read()
SH = open(H + "/kit_demo.sh").read()
CT, SM, FRM, PE = "builder/data/cloud_types.cc", "builder/submap.cc", "builder/frame.cc", "builder/pose_extrapolator.cc"
MB, TR, MP, MV = "builder/map_builder.cc", "builder/trajectory.cc", "builder/map_package.cc", "builder/multi_resolution_voxel_map.cc"
LD, FF, SP, NDT = "back_end/loop_detector.cc", "pre_processors/filter_factory.cc", "common/performance/simple_prof.cc", "registrators/pclomp/ndt_omp_impl.hpp"
PLAIN = '''#include <sys/resource.h>
#include <unistd.h>
#include <csignal>
#include <cstdio>
#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <vector>
static void fail(const char* why) {
  fprintf(stderr, "DEMO FAILED: %s\\n", why);
  _exit(1);
}
'''
CLOUD = PLAIN + '''#include "builder/submap.h"
using namespace static_map;
static data::InnerCloudType::Ptr cloud(int first, int n) {
  data::InnerCloudType::Ptr c(new data::InnerCloudType);
  for (int i = 0; i < n; i++) {
    data::InnerPointType p;
    p.x = first + i; p.y = i % 7; p.z = i % 3; p.intensity = first; p.factor = 0;
    c->points.push_back(p);
  }
  c->stamp = SimpleTime::FromNanoSec(1500000000000000000ll + first);
  return c;
}
'''


def plain(id, prop, edits, needs, what, main, **more):
    make(id, prop, edits, needs, what, SH, dict(more, **{"demo.cc": main}))


def kit(id, prop, edits, needs, what, main):
    make(id, prop, edits, needs, what, SH, {"kit.h": KIT, "demo.cc": main})


plain("c08-frame-file", "C08", [(FRM, '  out << "f_" << trajectory_index << "_" << submap_index << "_" << frame_index;', '  out << "f_" << trajectory_index << "_" << frame_index;')],
      "frames of two submaps on disk and read back", "frames of different submaps share one file on disk", CLOUD + '''
int main(int, char** a) {
  SubmapOptions o;
  o.enable_check = false;
  o.frame_count = 2;
  o.enable_disk_saving = true;
  o.disk_saving_delay = 1;
  o.saving_name_prefix = "s_";
  std::vector<std::shared_ptr<Submap>> s;
  for (int i = 0; i < 2; i++) {
    s.push_back(std::make_shared<Submap>(o));
    SubmapId id;
    id.trajectory_index = 0;
    id.submap_index = i;
    s[i]->SetId(id);
    s[i]->SetSavePath(std::string(a[1]) + "/pkg/");
    for (int k = 0; k < 2; k++) {
      auto f = std::make_shared<Frame>();
      f->SetCloud(std::make_shared<data::InnerPointCloudData>(cloud(i * 100 + k * 10, 30)));
      s[i]->InsertFrame(f);
    }
    s[i]->SetMatchedTransformedToNext(Eigen::Matrix4d::Identity());
  }
  for (int i = 0; i < 2; i++)
    for (int k = 0; k < 2; k++) {
      auto c = s[i]->GetFrames()[k]->Cloud()->GetInnerCloud();
      if (c->points.size() != 30 || c->points[0].intensity != i * 100 + k * 10) fail("frame has other points");
    }
  _exit(0);
}
''')
plain("c10-partial-load", "C10", [(CT, "      if (points[i].Deserialize(stream) < 0) {\n        return -1;\n      }", "      if (points[i].Deserialize(stream) < 0) {\n        // keep what is there\n        points.resize(i);\n        break;\n      }")],
      "a cloud file that is cut short", "a cut cloud file is accepted with a part of its points", CLOUD + '''
int main(int, char** a) {
  std::string n = std::string(a[1]) + "/c.bin";
  {
    std::fstream f(n, std::ios::out | std::ios::binary);
    cloud(3, 50)->Serialize(&f);
  }
  data::InnerCloudType ok, cut;
  std::fstream f(n, std::ios::in | std::ios::binary);
  if (ok.Deserialize(&f) < 0 || ok.points.size() != 50) fail("whole file not read");
  f.close();
  if (truncate(n.c_str(), 500)) fail("truncate");
  std::fstream g(n, std::ios::in | std::ios::binary);
  if (cut.Deserialize(&g) >= 0) fail("cut file accepted");
  _exit(0);
}
''')
plain("c13-short-look-ahead", "C13", [(PE, "    return extrapolation_delta * linear_velocity_from_poses_;", "    // far predictions are not reliable\n    return std::min(extrapolation_delta, 0.3) * linear_velocity_from_poses_;")],
      "a prediction more than 0.3 s after the newest pose", "the predicted translation stops growing", PLAIN + '''#include "builder/pose_extrapolator.h"
using namespace static_map;
int main() {
  auto e = PoseExtrapolator::InitialSimpleCTRV(SimpleTime::FromSec(0.001));
  auto at = [](double t) { return SimpleTime::FromNanoSec(1500000000000000000ll + (int64_t)(t * 1e9)); };
  for (int i = 0; i < 5; i++) {
    Eigen::Matrix4d p = Eigen::Matrix4d::Identity();
    p(0, 3) = 2. * i * 0.1;
    e->AddPose(at(i * 0.1), p);
  }
  if (std::fabs(e->ExtrapolatePose(at(1.4))(0, 3) - 2.8) > 1e-3) fail("prediction is wrong");
  _exit(0);
}
''')
kit("c16-parts-grow", "C16", [(MB, "            whole_map.reset(new PointCloudType);\n", "")],
    "separate output with more than one part", "each part file has the points of the earlier parts again", open("/verif/seeded/c16-last-part/demo.cc").read())
kit("c17-needs-text", "C17", [(TR, "  bool write_to_text = path_text_file.is_open();\n", "  bool write_to_text = path_text_file.is_open();\n  if (!write_to_text) {\n    LOG(WARNING) << \"Can not write the path.\";\n    return;\n  }\n")],
    "the text file of the path can not be written", "the path cloud is not exported when the text file fails", '''#include "kit.h"
#include <sys/stat.h>
int main(int, char** a) {
  std::string d = a[1];
  auto b = kit::make(d, kit::Options());
  mkdir((d + "/exp/path.csv").c_str(), 0755);
  for (int i = 0; i < 10; i++) { kit::insert(b.get(), i); kit::ms(20); }
  b->FinishAllComputations();
  pcl::PointCloud<pcl::PointXYZI> c;
  if (access((d + "/exp/path.pcd").c_str(), F_OK) || pcl::io::loadPCDFile(d + "/exp/path.pcd", c) || c.size() != 10) kit::fail("path missing");
  _exit(0);
}
''')
plain("c18-border-centre", "C18", [(MP, "          point.x -= part.center[0];\n          point.y -= part.center[1];", "          point.x -= (part.bb_min[0] + part.bb_max[0]) * 0.5;\n          point.y -= (part.bb_min[1] + part.bb_max[1]) * 0.5;")],
      "a piece at the border of the map that is cut to the map's extent", "points of border pieces are at the wrong place", CLOUD + '''#include "builder/map_package.h"
#include "builder/trajectory.h"
#include "pcl/io/pcd_io.h"
#include "pugixml/pugixml.hpp"
int main(int, char** a) {
  std::string dir = std::string(a[1]) + "/pkg/";
  auto t = std::make_shared<Trajectory>();
  t->SetId(0);
  SubmapOptions o;
  o.enable_check = false;
  o.frame_count = 1;
  o.enable_disk_saving = false;
  auto s = std::make_shared<Submap>(o);
  SubmapId id;
  id.trajectory_index = id.submap_index = 0;
  s->SetId(id);
  data::InnerCloudType::Ptr c(new data::InnerCloudType);
  for (int i = 0; i < 12; i++) {
    data::InnerPointType p;
    p.x = 4 * std::cos(i * 0.5); p.y = 4 * std::sin(i * 0.5); p.z = 0; p.intensity = i; p.factor = 0;
    c->points.push_back(p);
  }
  auto f = std::make_shared<Frame>();
  f->SetCloud(std::make_shared<data::InnerPointCloudData>(c));
  s->InsertFrame(f);
  t->push_back(s);
  MapPackageOptions po;
  po.border_offset = 10;
  po.piece_width = 60;
  MrvmSettings m;
  m.use_max_intensity = false;
  m.prob_threshold = 0.05;
  m.high_resolution = 1;
  m.max_point_num_in_cell = 100;
  std::vector<std::shared_ptr<Trajectory>> ts{t};
  SaveTrajectoriesAsMapPackage(ts, po, m, dir);
  pugi::xml_document doc;
  if (!doc.load_file((dir + po.descript_filename).c_str())) fail("no description");
  int n = 0;
  for (auto q : doc.child("MapPackage").children("Piece")) {
    pcl::PointCloud<pcl::PointXYZI> pc;
    if (pcl::io::loadPCDFile(dir + q.attribute("file").as_string(), pc)) fail("piece not readable");
    for (auto& p : pc) {
      auto& w = c->points[(int)std::lround(p.intensity)];
      if (std::fabs(p.x + q.attribute("x").as_double() - w.x) > 0.01 || std::fabs(p.y + q.attribute("y").as_double() - w.y) > 0.01) fail("point is at the wrong place");
      n++;
    }
  }
  if (n < 12) fail("points missing");
  _exit(0);
}
''')
IFACE = '''namespace static_map {
namespace registrator {
void Interface::SetInputSource(Interface::InnerCloudPtr c) { source_cloud_ = c; }
void Interface::SetInputTarget(Interface::InnerCloudPtr c) { target_cloud_ = c; }
}
}
'''
NABO = open(H + "/../../shim/nabo/nabo.h").read()
PMH = '''// stand-in for the registration of a library that is not installed
#pragma once
#include <thread>
#include "registrators/interface.h"
namespace static_map {
namespace registrator {
class IcpUsingPointMatcher : public Interface {
 public:
  USE_REGISTRATOR_CLOUDS;
  explicit IcpUsingPointMatcher(const std::string& = "") { this->type_ = kIcpPM; this->final_score_ = 0; }
  void SetInputSource(InnerCloudPtr cloud) override { src_ = cloud; }
  void SetInputTarget(InnerCloudPtr cloud) override { tgt_ = cloud; }
  bool Align(const Eigen::Matrix4d& guess, Eigen::Matrix4d& result) override;
  InnerCloudPtr src_, tgt_;
};
}
}
'''
LOOP = CLOUD + '''#include "back_end/loop_detector.cc"
''' + IFACE + '''
namespace static_map {
namespace registrator {
bool IcpUsingPointMatcher::Align(const Eigen::Matrix4d& guess, Eigen::Matrix4d& result) {
  const int s = src_->GetInnerCloud()->points[0].intensity, t = tgt_->GetInnerCloud()->points[0].intensity;
  std::this_thread::sleep_for(std::chrono::milliseconds(5 + 3 * ((s * 7 + t * 3) % 5)));
  result = Eigen::Matrix4d::Identity();
  result(0, 3) = 0.01 * (s - t) + 0.5;
  final_score_ = SCORE;
  return true;
}
}
}
int main() {
  back_end::LoopDetectorSettings o;
  o.use_descriptor = false;
  o.loop_ignore_threshold = 4;
  o.trying_detect_loop_count = 1;
  o.nearest_history_pos_num = 4;
  o.max_close_loop_distance = 10;
  o.max_close_loop_z_distance = 1;
  o.accept_scan_match_score = 0.7;
  back_end::LoopDetector d(o);
  SubmapOptions so;
  so.enable_check = false;
  so.frame_count = 1;
  so.enable_disk_saving = false;
  int closed = 0;
  for (int i = 0; i < 16; i++) {
    auto s = std::make_shared<Submap>(so);
    SubmapId id;
    id.trajectory_index = 0;
    id.submap_index = i;
    s->SetId(id);
    Eigen::Matrix4d p = Eigen::Matrix4d::Identity();
    p(0, 3) = 0.01 * i;
    auto f = std::make_shared<Frame>();
    f->SetCloud(std::make_shared<data::InnerPointCloudData>(cloud(i, 3)));
    f->SetGlobalPose(p);
    s->InsertFrame(f);
    s->SetGlobalPose(p);
    auto r = d.AddFrame(s, true);
    std::set<int> targets;
    for (auto& e : r.edges) {
      if (e.close_pair_index.second != i) fail("edge of another submap");
      targets.insert(e.close_pair_index.first);
      if (std::fabs(e.transform(0, 3) - (0.01 * (i - e.close_pair_index.first) + 0.5)) > 1e-6) fail("edge with the transform of another pair");
    }
    if (targets.size() != r.edges.size()) fail("two edges of one pair");
    if (r.status == back_end::LoopStatus::kContinousLoop) closed += r.edges.size();
    printf("%d: %zu edges\\n", i, r.edges.size());
    CHECKEDGES
  }
  _exit(0);
}
'''
plain("c19-shared-edge", "C19", [(LD, "      DetectResult::LoopEdge loop_edge;\n", "      static DetectResult::LoopEdge loop_edge;\n")],
      "two candidates of one submap registered at the same time", "loop edges get the transform of another pair",
      LOOP.replace("SCORE", "0.9").replace("CHECKEDGES", ""), **{"registrators/icp_pointmatcher.h": PMH, "nabo/nabo.h": NABO})
plain("c19-score-margin", "C19", [(LD, "  if (match_score > settings_.accept_scan_match_score) {", "  if (match_score > 0.9 * settings_.accept_scan_match_score) {")],
      "a candidate registered with a score just below the limit", "loop edges with a score below the configured limit are accepted",
      LOOP.replace("SCORE", "0.66").replace("CHECKEDGES", 'if (!r.edges.empty()) fail("edge with a low score");'), **{"registrators/icp_pointmatcher.h": PMH, "nabo/nabo.h": NABO})
plain("c20-chain-alias", "C20", [(FF, "    *middle_poindcloud1 = *middle_poindcloud2;\n", "    middle_poindcloud1 = middle_poindcloud2;\n")],
      "a chain of at least three filters", "a filter reads from the cloud it writes to", CLOUD + '''#include "pre_processors/filter_factory.h"
int main() {
  pre_processers::filter::Factory f;
  pugi::xml_document doc;
  std::string r = "<filter name=\\"Range\\"><param type=\\"1\\" name=\\"min_range\\">1.0</param><param type=\\"1\\" name=\\"max_range\\">100.0</param></filter>";
  if (!doc.load_string(("<filters>" + r + r + r + r + "</filters>").c_str())) fail("xml");
  f.InitFromXmlNode(doc.child("filters"));
  auto c = cloud(2, 40);
  f.SetInputCloud(c);
  data::InnerCloudType::Ptr o(new data::InnerCloudType);
  f.Filter(o);
  if (o->points.size() != 40) fail("points missing");
  for (int i = 0; i < 40; i++)
    if (o->points[i].x != 2 + i) fail("points changed");
  _exit(0);
}
''')
plain("c21-no-lock", "C21", [(SP, "  std::lock_guard<std::mutex> locker(mutex_);\n", "")],
      "blocks registered by several threads at the same time", "time measurements corrupt the registry", PLAIN + '''#include "common/performance/simple_prof.h"
using namespace static_map::common::performance;
int main() {
  alarm(60);
  auto m = TimerManager::Instance();
  std::vector<std::thread> t;
  for (int k = 0; k < 8; k++)
    t.emplace_back([&, k] {
      for (int i = 0; i < 60000; i++) m->RegisterTimer("block " + std::to_string(i * 8 + k));
    });
  for (auto& x : t) x.join();
  _exit(0);
}
''')
plain("c22-shared-neighbours", "C22", [(NDT, "		auto& neighborhood = neighborhoods[thread_n];", "		auto& neighborhood = neighborhoods[0];")],
      "several worker threads in one registration", "workers use the neighbourhood of another point", CLOUD + '''#include <omp.h>
#include "registrators/ndt.h"
''' + IFACE + '''

int main() {
  data::InnerCloudType::Ptr a(new data::InnerCloudType), b(new data::InnerCloudType);
  unsigned r = 7;
  auto u = [&] { r = r * 1664525u + 1013904223u; return (r >> 8) / 16777216.0; };
  for (int i = 0; i < 6000; i++) {
    data::InnerPointType p;
    double s = u() * 10, t = u() * 10;
    p.x = i % 3 == 2 ? 0 : s; p.y = i % 3 == 2 ? s : i % 3 == 1 ? 0 : t; p.z = i % 3 == 0 ? 0 : t; p.intensity = p.factor = 0;
    b->points.push_back(p);
    p.x += 0.1; p.y -= 0.05;
    a->points.push_back(p);
  }
  Eigen::Matrix4d first;
  for (int i = 0; i < 12; i++) {
    registrator::Ndt n;
    n.SetInputSource(std::make_shared<data::InnerPointCloudData>(std::make_shared<data::InnerCloudType>(*a)));
    n.SetInputTarget(std::make_shared<data::InnerPointCloudData>(std::make_shared<data::InnerCloudType>(*b)));
    Eigen::Matrix4d t;
    n.Align(Eigen::Matrix4d::Identity(), t);
    if (i == 0) first = t;
    if ((t - first).norm() > 1e-3) fail("registrations of the same clouds differ");
  }
  _exit(0);
}
''')
make("c28-cut-piece", "C28", [("tools/join_pieces.cc", "    if (pcl::io::loadPCDFile<pcl::PointXYZI>(pcd_file, piece_cloud) == -1) {\n      std::cout << \"Error loading pointcloud from this file.\" << std::endl;\n    } else {",
     "    if (pcl::io::loadPCDFile<pcl::PointXYZI>(pcd_file, piece_cloud) == -1) {\n      std::cout << \"Error loading pointcloud from this file.\" << std::endl;\n      break;\n    } else {")],
     "a piece that can not be read before one that can", "all pieces after an unreadable one are left out", '''#!/bin/sh
# joins three pieces, the second one does not exist
B=$PWD/_build
t=$(mktemp -d) || exit 2
for k in 0 2; do
  { printf 'VERSION 0.7\\nFIELDS x y z intensity\\nSIZE 4 4 4 4\\nTYPE F F F F\\nCOUNT 1 1 1 1\\nWIDTH 1\\nHEIGHT 1\\nVIEWPOINT 0 0 0 1 0 0 0\\nPOINTS 1\\nDATA ascii\\n'; printf '%s 2 3 4\\n' "$k"; } > "$t/p$k.pcd"
done
printf '<?xml version="1.0"?><MapPackage><Piece x="10" y="0" file="p0.pcd"/><Piece x="20" y="0" file="p1.pcd"/><Piece x="30" y="0" file="p2.pcd"/></MapPackage>' > "$t/map.xml"
(cd "$t" && timeout 60 "$B/tools/join_pieces" -pkg "$t/map.xml" > "$t/log" 2>&1)
n=$(grep -a -c '^POINTS 2$' "$t/whole_static_map.pcd" 2> /dev/null)
rm -r "$t"
[ "$n" = 1 ]
''')
