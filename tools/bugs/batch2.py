#!/usr/bin/env python3
"""Writes the second batch of planted bugs (map builder and sensor buffers)."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(H))
from mkbug import make
KIT = open(H + "/kit.h").read()
SH = open(H + "/kit_demo.sh").read()
DC, DH, MB = "builder/data/data_collector.cc", "builder/data/data_collector.h", "builder/map_builder.cc"


def kit(id, prop, edits, needs, what, main):
    make(id, prop, edits, needs, what, SH, {"kit.h": KIT, "demo.cc": main})


BURST = '''#include "kit.h"
int main(int, char** a) {
  std::string d = a[1];
  kit::on_align = [](kit::Call* c) { if (c->src.size() == 1) kit::ms(10); };
  kit::Options o;
  o.frame_count = 1000;
  auto b = kit::make(d, o);
  for (int i = 0; i < 60; i++) kit::insert(b.get(), i);
  kit::ms(1500);
  b->FinishAllComputations();
  int last = 0;
  for (auto& c : kit::calls) {
    if (c->src[0] != last + 1) kit::fail("scan skipped");
    last = c->src[0];
  }
  if (last != 59) kit::fail("scans missing");
  _exit(0);
}
'''
kit("c01-raw-queue-cap", "C01", [(DH, "  cloud_data_before_preprocessing_.push_back(data_before_processing);\n",
    "  // limit the memory when the filters are too slow\n  if (cloud_data_before_preprocessing_.size() > 12) {\n    cloud_data_before_preprocessing_.pop_back();\n  }\n"
    "  cloud_data_before_preprocessing_.push_back(data_before_processing);\n")],
    "more than 12 scans waiting for the filters", "scans that wait for pre-processing are replaced by newer ones", BURST)
kit("c01-catch-up", "C01", [(DC, "  auto ret = cloud_data_.front();\n  cloud_data_.pop_front();\n  return ret;",
    "  // drop the oldest cloud when scan matching is far behind\n  if (cloud_data_.size() > 8) {\n    cloud_data_.pop_front();\n  }\n"
    "  auto ret = cloud_data_.front();\n  cloud_data_.pop_front();\n  return ret;")],
    "scan matching more than 8 scans behind", "scans are skipped when scan matching is slow", BURST)
MERGE = '''#include "kit.h"
#include "builder/data/data_collector.h"
#include "pre_processors/filter_factory.h"
using namespace static_map;
int main() {
  pre_processers::filter::Factory f;
  data::DataCollectorOptions o;
  o.accumulate_cloud_num = 3;
  data::DataCollector c(o, &f);
  const int N = 300, P = 200;
  std::thread t([&] {
    for (int i = 0; i < N; i++) {
      pcl::PointCloud<pcl::PointXYZI>::Ptr p(new pcl::PointCloud<pcl::PointXYZI>);
      for (int k = 0; k < P; k++) {
        pcl::PointXYZI q;
        q.x = i; q.y = k; q.z = 1; q.intensity = i;
        p->push_back(q);
      }
      p->header.stamp = 1500000000000000ull + i * 1000ull;
      c.AddSensorData<pcl::PointXYZI>(p);
    }
  });
  t.join();
  int got = 0;
  for (int w = 0; w < 1000 && got < N / 3; w++) {
    auto r = c.GetNewCloud();
    if (!r) { kit::ms(5); continue; }
    if ((int)r->points.size() != 3 * P) kit::fail("merged scan is not complete");
    for (int k = 0; k < 3 * P; k++)
      if (std::lround(r->points[k].intensity) != got * 3 + k / P) kit::fail("merged scan has points of other scans");
    got++;
  }
  if (got != N / 3) kit::fail("merged scans missing");
  _exit(0);
}
'''
kit("c02-reuse-buffer", "C02", [(DH, "      accumulated_point_cloud_.reset(new InnerCloudType);\n",
    "      if (accumulated_point_cloud_ == nullptr) {\n        accumulated_point_cloud_.reset(new InnerCloudType);\n      }\n      accumulated_point_cloud_->points.clear();\n"),
    (DH, "  InnerCloudType::Ptr data_before_processing(\n      new InnerCloudType(*accumulated_point_cloud_));\n",
     "  InnerCloudType::Ptr data_before_processing = accumulated_point_cloud_;\n")],
    "a merged scan not yet filtered when the next scan arrives", "the buffer of a merged scan is reused while the filter thread still reads it", MERGE)
EXACT = '''#include "kit.h"
int main(int, char** a) {
  std::string d = a[1];
  auto b = kit::make(d, kit::Options());
  for (int i = 0; i < %d; i++) { kit::insert(b.get(), i); kit::ms(20); }
  b->FinishAllComputations();
  if (kit::rows(d + "/exp/path.csv") != %d) kit::fail("path has a wrong number of frames");
  _exit(0);
}
'''
kit("c03-last-group", "C03", [(MB, "    if (frames_size - current_index < submap_frame_count) {", "    if (frames_size - current_index <= submap_frame_count) {")],
    "the number of key frames is an exact multiple of the submap size", "the last full group of key frames waits for one more frame and is never used", EXACT % (8, 8))
CONNECT = '''#include "kit.h"
int main(int, char** a) {
  std::string d = a[1];
  kit::on_align = [](kit::Call* c) {
    if (c->src.size() > 1) {
      kit::ms(c->src[0] == 4 ? 3000 : 10);
      c->result(1, 3) += 0.25;
    }
  };
  auto b = kit::make(d, kit::Options());
  for (int i = 0; i < 8; i++) { kit::insert(b.get(), i); kit::ms(60); }
  b->FinishAllComputations();
  std::ifstream in(d + "/exp/path.csv");
  std::string l;
  int k = 0;
  while (std::getline(in, l)) {
    double i, x, y;
    sscanf(l.c_str(), "%lf, %lf, %lf", &i, &x, &y);
    if (std::fabs(x - 1.5 * k) > 0.05 || std::fabs(y - 0.25 * (k / 2)) > 0.05) kit::fail("wrong pose in path");
    k++;
  }
  if (k != 8) kit::fail("wrong number of frames");
  _exit(0);
}
'''
kit("c04-unmatched", "C04", [(MB, "      if (!(*current_trajectory_)[i]->GotMatchedToNext()) {\n        break;\n      }",
    "      if (i > current_finished_index &&\n          !(*current_trajectory_)[i]->GotMatchedToNext()) {\n        break;\n      }")],
    "a registration that takes longer than the connecting thread needs to look at the next submap", "a submap is connected before its registration has finished", CONNECT)
SCORE = CONNECT.replace("kit::ms(c->src[0] == 4 ? 3000 : 10);", "if (c->src[0] == 4) { c->score = 0.3; c->result(1, 3) += 5; return; }").replace(
    "std::fabs(y - 0.25 * (k / 2)) > 0.05", "std::fabs(y - (k < 2 ? 0 : k < 6 ? 0.25 : 0.5)) > 0.05")
kit("c04-score-shared", "C04", [(MB, "  double submap_match_score = matcher->GetFitnessScore();\n", "  static double submap_match_score = 1.;\n  submap_match_score =\n      std::max(matcher->GetFitnessScore(), submap_match_score - 0.2);\n")],
    "a rejected registration after an accepted one", "a bad registration is accepted because the score of an earlier one is taken into account", SCORE)
FEW = '''#include "kit.h"
int main(int, char** a) {
  std::string d = a[1];
  kit::Options o;
  auto b = kit::make(d, o);
  for (int i = 0; i < %d; i++) { kit::insert(b.get(), i); kit::ms(20); }
  std::thread w([] { kit::ms(20000); kit::fail("finish does not return"); });
  b->FinishAllComputations();
  _exit(0);
}
'''
kit("c05-no-submap", "C05", [(MB, "    if (submap_size == 0 || submap_size - 1 == current_finished_index) {", "    if (submap_size - 1 == current_finished_index) {")],
    "finish with fewer key frames than one submap needs", "finish crashes or hangs when there is no submap", FEW % 1)
GPS = '''#include "kit.h"
#include "builder/data/data_collector.h"
#include "pre_processors/filter_factory.h"
using namespace static_map;
int main() {
  pre_processers::filter::Factory f;
  data::DataCollector c(data::DataCollectorOptions(), &f);
  for (int i = 0; i < 20; i++) {
    %s
  }
  for (int i = 20; i < 180; i += 4) {
    auto p = c.%s(SimpleTime::FromSec(1000. + i * 0.01 + 0.003), 0.005, true);
    if (!p) kit::fail("no answer for a covered time");
  }
  _exit(0);
}
'''
kit("c11-trim-bracket", "C11", [(DC, "      gps_data_.erase(gps_data_.begin(), gps_data_.begin() + indices.first);", "      gps_data_.erase(gps_data_.begin(), gps_data_.begin() + indices.second);")],
    "two discarding queries between the same two fixes", "a discarding query removes the fix that is still needed for later times", GPS % (
        '''data::NavSatFixMsg m;
    m.header.stamp = SimpleTime::FromSec(1000. + i * 0.1);
    m.status.status = data::STATUS_FIX;
    m.latitude = 31 + i * 1e-5; m.longtitude = 121; m.altitude = 5;
    c.AddSensorData(m);''', "InterpolateGps"))
kit("c12-trim-bracket", "C12", [(DC, "      odom_data_.erase(odom_data_.begin(), odom_data_.begin() + indices.first);", "      odom_data_.erase(odom_data_.begin(), odom_data_.begin() + indices.second);")],
    "two discarding queries between the same two messages", "a discarding query removes the message that is still needed for later times", GPS % (
        '''data::OdomMsg m;
    m.header.stamp = SimpleTime::FromSec(1000. + i * 0.1);
    m.pose.pose.position << i, 0, 0;
    m.pose.pose.orientation.setIdentity();
    c.AddSensorData(m);''', "InterpolateOdom"))
PART = '''#include "kit.h"
int main(int, char** a) {
  std::string d = a[1];
  kit::Options o;
  o.whole = "separate_output=\\"true\\" separate_step=\\"2\\"";
  auto b = kit::make(d, o);
  for (int i = 0; i < 10; i++) { kit::insert(b.get(), i); kit::ms(20); }
  b->FinishAllComputations();
  std::set<int> seen;
  for (int k = 0; k < 4; k++) {
    pcl::PointCloud<pcl::PointXYZI> c;
    std::string f = d + "/exp/part_map_" + std::to_string(k) + ".pcd";
    if (access(f.c_str(), F_OK) == 0 && pcl::io::loadPCDFile(f, c) == 0)
      for (auto& p : c) if (!seen.insert((int)std::lround(p.intensity)).second) kit::fail("point exported twice");
  }
  if (seen.size() != 120) kit::fail("points missing");
  _exit(0);
}
'''
kit("c16-last-part", "C16", [(MB, "      if (submap_idx == submaps_size - 1 ||\n          (submap_idx + 1) % options_.whole_options.separate_step == 0) {",
    "      if ((submap_idx + 1) % options_.whole_options.separate_step == 0) {")],
    "separate output with a number of submaps that is not a multiple of the step", "the last, incomplete part of the map is not exported", PART)
