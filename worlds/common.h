// Helpers shared by the worlds.
#pragma once
#include <cmath>
#include <cstring>
#include <fstream>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "Eigen/Eigen"
#include "builder/data/cloud_types.h"
#include "builder/data/data_types.h"
#include "common/simple_time.h"
#include "sim.h"

namespace wl {
using static_map::SimpleTime;
using static_map::data::InnerCloudType;
using static_map::data::InnerPointType;

inline void sleep_ms(double ms) { std::this_thread::sleep_for(std::chrono::nanoseconds((int64_t)(ms * 1e6))); }

inline bool same_float(float a, float b) { return std::memcmp(&a, &b, sizeof a) == 0; }
inline bool same_point(const InnerPointType& a, const InnerPointType& b) {
  return same_float(a.x, b.x) && same_float(a.y, b.y) && same_float(a.z, b.z) && same_float(a.intensity, b.intensity) && same_float(a.factor, b.factor);
}
inline bool same_points(const std::vector<InnerPointType>& a, const std::vector<InnerPointType>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!same_point(a[i], b[i])) return false;
  return true;
}
inline uint64_t points_hash(const std::vector<InnerPointType>& a) {
  uint64_t h = a.size();
  for (auto& p : a) {
    uint32_t u[5];
    std::memcpy(&u[0], &p.x, 4);
    std::memcpy(&u[1], &p.y, 4);
    std::memcpy(&u[2], &p.z, 4);
    std::memcpy(&u[3], &p.intensity, 4);
    std::memcpy(&u[4], &p.factor, 4);
    for (uint32_t x : u) h = sim::hash64(h, x);
  }
  return h;
}
inline Eigen::Matrix4d pose_of(double x, double y, double z, double yaw, double pitch = 0, double roll = 0) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = (Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) *
                         Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX()))
                            .toRotationMatrix();
  m.block<3, 1>(0, 3) << x, y, z;
  return m;
}
inline double trans_diff(const Eigen::Matrix4d& a, const Eigen::Matrix4d& b) { return (a.block<3, 1>(0, 3) - b.block<3, 1>(0, 3)).norm(); }
inline double rot_diff(const Eigen::Matrix4d& a, const Eigen::Matrix4d& b) { return (a.block<3, 3>(0, 0) - b.block<3, 3>(0, 0)).norm(); }
}  // namespace wl
