// Runs the map builder with a registration that knows the true motion.
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "back_end/loop_detector.h"
#include "builder/map_builder.h"
#include "pcl/io/pcd_io.h"
#include "registrators/interface.h"
namespace kit {
using namespace static_map;
typedef Eigen::Matrix4d M4;
struct Call {
  std::vector<int> src, tgt;  // scans whose points are in the clouds
  M4 guess, result;
  double score = 0.95;
  int src_points = 0, tgt_points = 0;
};
std::mutex mu;
std::vector<std::shared_ptr<Call>> calls;
std::function<void(Call*)> on_align = [](Call*) {};
std::function<M4(int)> pose = [](int scan) {
  M4 m = M4::Identity();
  m(0, 3) = 1.5 * scan;
  return m;
};
inline std::vector<int> scans_of(const data::InnerPointCloudData::Ptr& c, int* n) {
  std::set<int> s;
  auto cl = c->GetInnerCloud();
  *n = (int)cl->points.size();
  for (auto& p : cl->points) s.insert((int)std::lround(p.intensity) / 64);
  return std::vector<int>(s.begin(), s.end());
}
}  // namespace kit
namespace static_map {
namespace registrator {
void Interface::SetInputSource(Interface::InnerCloudPtr c) { source_cloud_ = c; }
void Interface::SetInputTarget(Interface::InnerCloudPtr c) { target_cloud_ = c; }
class KitMatcher : public Interface {
 public:
  bool Align(const Eigen::Matrix4d& guess, Eigen::Matrix4d& result) override {
    auto c = std::make_shared<kit::Call>();
    c->src = kit::scans_of(source_cloud_, &c->src_points);
    c->tgt = kit::scans_of(target_cloud_, &c->tgt_points);
    c->guess = guess;
    c->result = (!c->src.empty() && !c->tgt.empty()) ? (kit::pose(c->tgt[0]).inverse() * kit::pose(c->src[0])).eval() : guess;
    kit::on_align(c.get());
    result = c->result;
    final_score_ = c->score;
    std::lock_guard<std::mutex> l(kit::mu);
    kit::calls.push_back(c);
    return true;
  }
};
std::shared_ptr<Interface> CreateMatcher(const MatcherOptions&, bool) { return std::make_shared<KitMatcher>(); }
}  // namespace registrator
}  // namespace static_map
namespace kit {
std::function<void(back_end::DetectResult*)> on_frame = [](back_end::DetectResult*) {};
inline void close(back_end::DetectResult* r, int a, int b, const M4& t) {
  r->close_succeed = true;
  back_end::DetectResult::LoopEdge e;
  e.close_pair_index = std::make_pair(a, b);
  e.transform = t;
  e.score = 0.95;
  r->edges.push_back(e);
}
}  // namespace kit
namespace static_map {
namespace back_end {
DetectResult LoopDetector::AddFrame(const std::shared_ptr<Submap>& s, bool) {
  all_frames_.push_back(s);
  DetectResult r;
  r.current_frame_index = (int)all_frames_.size() - 1;
  kit::on_frame(&r);
  return r;
}
void LoopDetector::SetTransformOdomToLidar(const Eigen::Matrix4d&) {}
}  // namespace back_end
}  // namespace static_map
namespace kit {
struct Options {
  int frame_count = 2;
  bool gps = false;
  std::string whole, submap, front, extra;
  std::string motion = "translation_range=\"1.\" angle_range=\"0\"", compensation = "enable=\"false\"";
};
inline std::unique_ptr<MapBuilder> make(const std::string& dir, const Options& o) {
  std::ofstream f(dir + "/cfg.xml");
  f << "<?xml version=\"1.0\"?><edward_liu><static_mapping><whole_options export_file_path=\"" << dir << "/exp/\" map_package_path=\"" << dir
    << "/pkg/\" output_mrvm=\"false\" output_direct_combined_map=\"true\" " << o.whole << "/><front_end_options " << o.front
    << "><scan_matcher_options type=\"1\"/><motion_filter " << o.motion << "/><motion_compensation_options " << o.compensation << "/>"
       "<imu_options use_imu=\"false\"/></front_end_options><back_end_options><submap_matcher_options type=\"1\" accepted_min_score=\"0.7\"/>"
       "<submap_options frame_count=\""
    << o.frame_count << "\" enable_inner_mrvm=\"false\" enable_voxel_filter=\"false\" enable_check=\"false\" " << o.submap
    << "/><isam_optimizer_options use_odom=\"false\" use_gps=\"" << (o.gps ? "true" : "false") << "\" gps_factor_init_num=\"5\" gps_factor_init_angle_rad=\"0.5\"/><loop_detector_setting use_descriptor=\"true\"/></back_end_options>" << o.extra
    << "</static_mapping></edward_liu>";
  f.close();
  std::unique_ptr<MapBuilder> b(new MapBuilder);
  M4 I = M4::Identity();
  b->SetTransformOdomToLidar(I);
  b->SetTransformImuToLidar(I);
  b->SetTrackingToImu(I);
  b->SetTrackingToOdom(I);
  b->SetTrackingToGps(I);
  b->SetTrackingToLidar(I);
  b->Initialise((dir + "/cfg.xml").c_str());
  b->EnableUsingOdom(false);
  b->EnableUsingGps(o.gps);
  return b;
}
int late_us = 0;
inline void insert(MapBuilder* b, int i, int npts = 12) {
  MapBuilder::PointCloudPtr c(new MapBuilder::PointCloudType);
  for (int k = 0; k < npts; k++) {
    pcl::PointXYZI p;
    p.x = 3 + k;
    p.y = (k * 7) % 5 - 2;
    p.z = k % 3;
    p.intensity = i * 64 + k % 64;
    c->push_back(p);
  }
  c->header.stamp = 1500000000000000ull + i * 100000ull - late_us;
  b->InsertPointcloudMsg(c);
}
inline void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
inline int rows(const std::string& f) {
  std::ifstream in(f);
  std::string l;
  int n = 0;
  while (std::getline(in, l)) n++;
  return n;
}
inline void fail(const char* why) {
  fprintf(stderr, "DEMO FAILED: %s\n", why);
  _exit(1);
}
}  // namespace kit
