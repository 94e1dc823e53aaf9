// Stand-in for the libpointmatcher registration (library not installed): the
// result and score come from the running world.
#pragma once
#include <glog/logging.h>
#include <iomanip>
#include <memory>
#include <string>
#include "registrators/interface.h"
namespace static_map {
namespace registrator {
class IcpUsingPointMatcher;
}
}  // namespace static_map
namespace simhook {
struct AlignArgs {
  const void* matcher;
  static_map::data::InnerPointCloudData::Ptr source, target;
  Eigen::Matrix4d guess, result;
  double score;
  bool ok;
};
extern void (*g_align)(AlignArgs*);
}  // namespace simhook
namespace static_map {
namespace registrator {
class IcpUsingPointMatcher : public Interface {
 public:
  USE_REGISTRATOR_CLOUDS;
  explicit IcpUsingPointMatcher(const std::string& = "") { this->type_ = kIcpPM; this->final_score_ = 0; }
  ~IcpUsingPointMatcher() {}
  PROHIBIT_COPY_AND_ASSIGN(IcpUsingPointMatcher);
  void SetInputSource(InnerCloudPtr cloud) override { src_ = cloud; }
  void SetInputTarget(InnerCloudPtr cloud) override { tgt_ = cloud; }
  bool Align(const Eigen::Matrix4d& guess, Eigen::Matrix4d& result) override {
    simhook::AlignArgs a{this, src_, tgt_, guess, guess, 0., true};
    simhook::g_align(&a);
    result = a.result;
    this->final_score_ = a.score;
    return a.ok;
  }

 private:
  InnerCloudPtr src_, tgt_;
};
}  // namespace registrator
}  // namespace static_map
