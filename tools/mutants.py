#!/usr/bin/env python3
"""Sensitivity survey: applies one small change after the other to a scratch copy of the repository and runs the
property's check on it.   mutants.py [--seconds N] [ID or property ...]   (VERIF_REPO: clean scratch copy, changed and restored)"""
import os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ["VERIF_REPO"]
assert os.path.realpath(REPO) != "/repo"
DC, DH, MB, PE, IT = ("builder/data/data_collector.cc", "builder/data/data_collector.h", "builder/map_builder.cc", "builder/pose_extrapolator.cc", "builder/imu_tracker.cc")
CT, SM, TR, MM, MV, MP = ("builder/data/cloud_types.cc", "builder/submap.cc", "builder/trajectory.cc", "builder/memory_manager.cc", "builder/multi_resolution_voxel_map.cc", "builder/map_package.cc")
LD, TP, MU, KR, FU, FR, G2, FF = ("back_end/loop_detector.cc", "common/simple_thread_pool.h", "common/mutex.h", "ros_node/kitti_reader.cc", "common/file_utils.cc",
                                  "pre_processors/filter_range.cc", "pre_processors/filter_ground_removal2.cc", "pre_processors/filter_factory.cc")
SP, SPH, MD, NDT, MA, ISAM, FB, FRM, MDH = ("common/performance/simple_prof.cc", "common/performance/simple_prof.h", "common/macro_defines.cc", "registrators/pclomp/ndt_omp_impl.hpp",
                                       "common/math.h", "back_end/isam_optimizer.cc", "builder/frame_base.cc", "builder/frame.cc", "common/macro_defines.h")
JP = "tools/join_pieces.cc"
M = [
    # C01
    ("C01.a", "C01", DC, "    cloud_data_.push_back(filtered_cloud);", "    cloud_data_.push_front(filtered_cloud);"),
    ("C01.b", "C01", MB, "          data_collector_->GetRemainingCloudSize() == 0) {", "          data_collector_->GetRemainingCloudSize() <= 1) {"),
    ("C01.c", "C01", DC, "  return cloud_data_before_preprocessing_.size() + cloud_data_.size();", "  return cloud_data_.size();"),
    ("C01.d", "C01", MB, "  if (end_all_thread_.load() || (use_imu_", "  if ((use_imu_"),
    ("C01.e", "C01", DC, "    InnerCloudType::Ptr filtered_cloud(new InnerCloudType);\n", "    static InnerCloudType::Ptr filtered_cloud(new InnerCloudType);\n"),
    ("C01.f", "C01", MB, "    if (extrapolator_ && source_time < extrapolator_->GetLastPoseTime()) {", "    if (extrapolator_ && source_time - SimpleTime::FromSec(0.05) <= extrapolator_->GetLastPoseTime()) {"),
    # C02
    ("C02.a", "C02", DH, "  data_before_processing->stamp = first_time_in_accmulated_cloud_;", "  data_before_processing->stamp = ToLocalTime(cloud->header.stamp);"),
    ("C02.b", "C02", DH, "static_cast<double>(i) / size;", "static_cast<double>(i + 1) / size;"),
    ("C02.c", "C02", DH, "    if (accumulated_cloud_count_ < options_.accumulate_cloud_num) {", "    if (accumulated_cloud_count_ <= options_.accumulate_cloud_num) {"),
    ("C02.d", "C02", DH, "      accumulated_point_cloud_.reset(new InnerCloudType);\n", "      if (!accumulated_point_cloud_) {\n        accumulated_point_cloud_.reset(new InnerCloudType);\n      }\n"),
    ("C02.e", "C02", DH, "  InnerCloudType::Ptr data_before_processing(\n      new InnerCloudType(*accumulated_point_cloud_));", "  InnerCloudType::Ptr data_before_processing = accumulated_point_cloud_;"),  # equivalent, unless reused
    # C03
    ("C03.a", "C03", MB, "    if (frames_size - current_index < submap_frame_count) {", "    if (frames_size - current_index <= submap_frame_count) {"),
    ("C03.b", "C03", MB, "      submap->InsertFrame(frames_[current_index]);\n      current_index++;\n    }", "      submap->InsertFrame(frames_[current_index]);\n      current_index++;\n    }\n    current_index--;"),
    ("C03.c", "C03", MB, "  frames_.push_back(frame);\n  complete_frames_count_++;", "  complete_frames_count_++;\n  frames_.push_back(frame);"),
    # C04
    ("C04.a", "C04", MB, "  if (submap_match_score >=\n", "  if (submap_match_score <=\n"),
    ("C04.b", "C04", MB, "      if (!(*current_trajectory_)[i]->GotMatchedToNext()) {\n        break;\n      }", "      if (!(*current_trajectory_)[i]->GotMatchedToNext()) {\n        continue;\n      }"),
    ("C04.c", "C04", SM, "    this->SetTransformToNext(t);\n", "    got_matched_transform_to_next_ = true;\n    this->SetTransformToNext(t);\n"),
    ("C04.d", "C04", MB, "      current_submap->SetTransformFromLast(previous_submap->TransformToNext());\n", ""),
    ("C04.e", "C04", MB, "        SubmapPairMatch(current_submap_index, current_submap_index - 1);", "        SubmapPairMatch(current_trajectory_->size() - 1, current_trajectory_->size() - 2);"),
    # C05
    ("C05.a", "C05", MB, "  submap_processing_done_ = true;\n", ""),
    ("C05.b", "C05", MB, "    if (submap_size == 0 || submap_size - 1 == current_finished_index) {", "    if (submap_size - 1 == current_finished_index) {"),
    ("C05.c", "C05", MB, "  if (!current_trajectory_->empty()) {\n", "  {\n"),
    ("C05.d", "C05", MB, "    scan_match_thread_->join();\n", ""),
    ("C05.e", "C05", MM, "  if (memory_managing_thread_.joinable()) {\n    memory_managing_thread_.join();", "  if (memory_managing_thread_.joinable()) {\n    memory_managing_thread_.detach();"),
    ("C05.f", "C05", DC, "  if (cloud_processing_thread_.joinable()) {\n    cloud_processing_thread_.join();", "  if (cloud_processing_thread_.joinable()) {\n    cloud_processing_thread_.detach();"),
    # C06
    ("C06.a", "C06", TP, "  condition_.notify_all();\n  for", "  condition_.notify_one();\n  for"),
    ("C06.b", "C06", TP, "          task = std::move(this->tasks_.front());\n          this->tasks_.pop();\n        }\n", "          task = std::move(this->tasks_.front());\n        }\n        this->tasks_.pop();\n"),
    ("C06.c", "C06", TP, "    std::unique_lock<std::mutex> lock(queue_mutex_);\n    stop_ = true;", "    stop_ = true;"),
    ("C06.d", "C06", TP, "    tasks_.emplace([task]() { (*task)(); });\n  }\n  condition_.notify_one();", "    if (tasks_.empty()) condition_.notify_one();\n    tasks_.emplace([task]() { (*task)(); });\n  }"),
    ("C06.e", "C06", TP, "    // don't allow enqueueing after stopping the pool\n    if (stop_) {", "    if (stop_ || tasks_.size() > 64) {"),
    # C07
    ("C07.a", "C07", MU, "      lock_.unlock();\n      mutex_->condition_.notify_all();", "      mutex_->condition_.notify_one();\n      lock_.unlock();"),
    ("C07.b", "C07", MU, "      mutex_->condition_.wait(lock_, predicate);", "      while (!predicate()) {\n        lock_.unlock();\n        lock_.lock();\n        mutex_->condition_.wait(lock_);\n      }"),
    ("C07.c", "C07", MU, "      mutex_->condition_.wait(lock_, predicate);", "      if (!predicate()) {\n        mutex_->condition_.wait(lock_);\n      }"),
    ("C07.d", "C07", MU, "      mutex_->condition_.wait(lock_, predicate);", "      mutex_->condition_.wait_for(lock_, std::chrono::seconds(5), predicate);"),
    ("C07.e", "C07", MU, "      lock_.unlock();\n      mutex_->condition_.notify_all();", "      mutex_->condition_.notify_one();"),
    ("C07.f", "C07", MU, "        : mutex_(mutex), lock_(mutex->mutex_) {}", "        : mutex_(mutex), lock_(mutex->mutex_, std::try_to_lock) {\n      if (!lock_.owns_lock()) {\n        lock_.lock();\n      }\n    }"),  # equivalent
    # C08
    ("C08.a", "C08", SM, "  cloud_inactive_time_ = 0;\n", ""),
    ("C08.b", "C08", SM, "  if (!options_.enable_disk_saving || !saved_to_disk_.load() ||\n      !got_matched", "  if (!options_.enable_disk_saving ||\n      !got_matched"),
    ("C08.c", "C08", CT, "  inner_cloud_.reset(new InnerCloudType);\n  is_cloud_in_memory_ = false;", "  inner_cloud_->points.clear();\n  is_cloud_in_memory_ = false;"),
    ("C08.d", "C08", SM, "  cloud_inactive_time_ += update_time_in_sec;", "  cloud_inactive_time_ += 2 * update_time_in_sec;"),
    ("C08.e", "C08", CT, "  boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);\n  common::WriteMutexLocker write_locker(locker);\n  // TODO(edward) reset or just clear", "  is_cloud_in_memory_ = false;\n  boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);\n  common::WriteMutexLocker write_locker(locker);\n  // TODO(edward) reset or just clear"),
    ("C08.f", "C08", FRM, "  out << \"f_\" << trajectory_index << \"_\" << submap_index << \"_\" << frame_index;", "  out << \"f_\" << trajectory_index << \"_\" << frame_index;"),
    ("C08.g", "C08", SM, "    save_filename_ = options_.saving_name_prefix +\n                     std::to_string(id_.trajectory_index) + \"_\" +\n                     std::to_string(id_.submap_index) + \".bin\";", "    save_filename_ = options_.saving_name_prefix +\n                     std::to_string(id_.trajectory_index) + \".bin\";"),
    # C09 C10
    ("C09.a", "C09", CT, "    return 0;\n  }\n  return -1;\n}\n\nint InnerCloudType::SerializeToPcd", "    stream->clear();\n    return 0;\n  }\n  return -1;\n}\n\nint InnerCloudType::SerializeToPcd"),
    ("C09.b", "C09", CT, "    saved = saved && of.good();\n", ""),
    ("C09.c", "C09", CT, "  filename_ = saved ? filename : \"\";", "  filename_ = filename;"),
    ("C09.d", "C09", CT, "    of.close();\n    saved = saved && of.good();\n", "    saved = saved && of.good();\n    of.close();\n"),
    ("C09.e", "C09", SM, "    saved_to_disk_ = ToPcdFile(save_path_ + save_filename_);", "    ToPcdFile(save_path_ + save_filename_);\n    saved_to_disk_ = true;"),
    ("C09.f", "C09", SM, "      if (frame->ToPcdFile(save_path_ + frame->id_.DebugString() + \".bin\")) {\n        frame->ClearCloud();\n      }", "      frame->ToPcdFile(save_path_ + frame->id_.DebugString() + \".bin\");\n      frame->ClearCloud();"),
    ("C09.g", "C09", CT, "    saved = inner_cloud_->Serialize(&of) >= 0;", "    inner_cloud_->Serialize(&of);\n    saved = of.good();"),  # equivalent: a stream that did not open is not good
    ("C10.a", "C10", CT, "      if (points[i].Deserialize(stream) < 0) {\n        return -1;\n      }", "      if (points[i].Deserialize(stream) < 0) {\n        points.resize(i);\n        break;\n      }"),
    ("C10.b", "C10", CT, "    stream->read(reinterpret_cast<char*>(&stamp), sizeof(SimpleTime));", "    SimpleTime t;\n    stream->read(reinterpret_cast<char*>(&t), sizeof(SimpleTime));"),
    ("C10.c", "C10", CT, "    if (stream->good()) {\n      return sizeof(InnerPointType);", "    if (stream->gcount() > 0) {\n      return sizeof(InnerPointType);"),
    ("C10.d", "C08", CT, "    if (with_normals_) {", "    if (with_normals_ && eigen_cloud_->HasNormals()) {"),
    ("C10.e", "C10", CT, "    points.resize(size);\n    for (size_t i = 0; i < size; ++i) {\n      if (points[i].Deserialize(stream) < 0) {\n        return -1;\n      }\n    }\n    return 0;", "    points.resize(size);\n    stream->read(reinterpret_cast<char*>(points.data()),\n                 size * sizeof(InnerPointType));\n    return stream->bad() ? -1 : 0;"),
    ("C10.f", "C10", CT, "    size_t size = points.size();\n    stream->write(reinterpret_cast<const char*>(&size), sizeof(size_t));\n    // Write points.\n    for (const auto& point : points) {\n", "    size_t size = points.size();\n    stream->write(reinterpret_cast<const char*>(&size), sizeof(size_t));\n    // Write points.\n    for (const auto& p : points) {\n      InnerPointType point = p;\n      point.factor = 0.f;\n"),
    ("C10.g", "C10", CT, "    stream->read(reinterpret_cast<char*>(&size), sizeof(size_t));\n    if (!stream->good()) {\n      return -1;\n    }", "    stream->read(reinterpret_cast<char*>(&size), sizeof(size_t));"),
    # C11 C12
    ("C11.a", "C11", DC, "  if (delta_time > 0.2 || !former_data.status_fixed ||", "  if (delta_time > 0.2 ||"),
    ("C11.b", "C11", DC, "    if (!data.status_fixed) {\n      return;\n    }\n", ""),
    ("C11.c", "C11", DC, "      gps_data_.erase(gps_data_.begin(), gps_data_.begin() + indices.first);", "      gps_data_.erase(gps_data_.begin(), gps_data_.begin() + indices.second);"),
    ("C11.d", "C11", DC, "  for (; i < data_size - 2; ++i) {          \\", "  for (; i < data_size; ++i) {          \\"),
    ("C11.e", "C11", DC, "void DataCollector::TrimGpsData(const SimpleTime& time) {\n  Locker locker(mutex_[kGpsData]);", "void DataCollector::TrimGpsData(const SimpleTime& time) {\n  Locker locker(mutex_[kImuData]);"),
    ("C11.f", "C11", DC, "  if (delta_time > 0.2 ||", "  if (delta_time > 2. ||"),
    ("C12.a", "C12", DC, "  if (delta_time > 1.) {", "  if (delta_time > 10.) {"),
    ("C12.b", "C12", DC, "      odom_init_offset_.value().inverse() * data.pose;", "      data.pose * odom_init_offset_.value().inverse();"),
    ("C12.c", "C12", MA, "  new_transform.block(0, 0, 3, 3) = q_a.slerp(factor, q_b).toRotationMatrix();", "  new_transform.block(0, 0, 3, 3) = (factor < 0.5 ? q_a : q_b).toRotationMatrix();"),
    ("C12.d", "C12", DC, "      odom_data_.erase(odom_data_.begin(), odom_data_.begin() + indices.first);", "      odom_data_.erase(odom_data_.begin(), odom_data_.begin() + indices.first);\n      odom_init_offset_ = odom_init_offset_.value() * odom_data_.front().pose;"),
    ("C12.e", "C12", DC, "    Locker locker(mutex_[kOdometryData]);\n    if (odom_data_.empty()) {", "    if (odom_data_.empty()) {"),
    # C13
    ("C13.a", "C13", PE, "  common::MutexLocker locker(&mutex_);\n  if ((!timed_pose_queue_.empty() &&\n       imu_data", "  if ((!timed_pose_queue_.empty() &&\n       imu_data"),
    ("C13.b", "C13", PE, "         imu_data_[1].header.stamp <= timed_pose_queue_.back().time) {", "         imu_data_[0].header.stamp <= timed_pose_queue_.back().time) {"),
    ("C13.c", "C13", PE, "         timed_pose_queue_[1].time <= time - pose_queue_duration_) {", "         timed_pose_queue_[0].time <= time - pose_queue_duration_) {"),
    ("C13.d", "C13", PE, "  while (it != imu_data_.end() && it->header.stamp < time) {", "  while (it != imu_data_.end() - 1 && it->header.stamp < time) {"),
    ("C13.e", "C13", IT, "  orientation_ = (orientation_ * rotation).normalized();\n  gravity_vector_", "  orientation_ = (rotation * orientation_).normalized();\n  gravity_vector_"),
    ("C13.f", "C13", PE, "  AdvanceImuTracker(time, imu_tracker_.get());\n  TrimImuData();", "  TrimImuData();\n  AdvanceImuTracker(time, imu_tracker_.get());"),
    ("C13.g", "C13", PE, "    return extrapolation_delta * linear_velocity_from_poses_;", "    return std::min(extrapolation_delta, 0.3) * linear_velocity_from_poses_;"),
    # C14
    ("C14.a", "C14", MB, "    PRINT_WARNING(\"skip cloud.\");\n    return;\n", "    PRINT_WARNING(\"late cloud.\");\n"),
    ("C14.b", "C14", MB, "      PRINT_INFO(\"Extrapolator still initialising...\");\n      continue;\n", "      PRINT_INFO(\"Extrapolator still initialising...\");\n"),
    # C15
    ("C15.a", "C15", MV, "            voxel->second.need_update == kTrue) {", "            voxel->second.need_update) {"),  # equivalent
    ("C15.b", "C15", MV, "      for (size_t i = 0; i < indices_size - 1; ++i) {", "      for (size_t i = 1; i < indices_size - 1; ++i) {"),
    ("C15.c", "C15", MV, "    if (high_res_voxel.second.probability >= prob_threshold) {\n      CHECK(!high_res_voxel.second.points.empty());\n      if (settings_.output_average) {\n        pcl::PointXYZI", "    if (high_res_voxel.second.probability > prob_threshold) {\n      CHECK(!high_res_voxel.second.points.empty());\n      if (settings_.output_average) {\n        pcl::PointXYZI"),
    ("C15.d", "C15", MV, "#pragma omp parallel for private(point_index) num_threads(LOCAL_OMP_THREADS_NUM)", "#pragma omp parallel for num_threads(LOCAL_OMP_THREADS_NUM) schedule(dynamic)"),
    ("C15.e", "C15", MV, "    high_resolution_voxels_[voxel.first].need_update = kTrue;", "    if (high_resolution_voxels_[voxel.first].points.size() < settings_.max_point_num_in_cell)\n      high_resolution_voxels_[voxel.first].need_update = kTrue;"),
    # C16
    ("C16.a", "C16", MB, "          (submap_idx + 1) % options_.whole_options.separate_step == 0) {", "          submap_idx % options_.whole_options.separate_step == 0) {"),
    ("C16.b", "C16", MB, "            whole_map.reset(new PointCloudType);\n", ""),
    ("C16.c", "C16", MB, "  for (auto& submap : *current_trajectory_) {\n    submap->UpdateInnerFramePose();\n  }\n", ""),
    ("C16.d", "C16", TR, "      path_point_index++;\n    }", "    }\n    path_point_index++;"),
    ("C16.e", "C16", TR, "    for (auto& connected : submap->GetConnected()) {", "    for (auto& connected : submap->GetConnected()) {\n      if (connected.submap_index == 1) continue;"),
    ("C16.f", "C16", SM, "    frame->SetGlobalPose(this->global_pose_ * frame->LocalPose());", "    frame->SetGlobalPose(frame->LocalPose() * this->global_pose_);"),
    ("C16.g", "C16", MB, "    submap->ClearCloud();\n    submap->ClearCloudInFrames();\n", "    submap->ClearCloud();\n    submap->ClearCloudInFrames();\n    if (submap_idx > 2 && options_.whole_options.separate_output) break;\n"),
    # C17
    ("C17.a", "C17", TR, "  bool write_to_text = path_text_file.is_open();", "  bool write_to_text = path_text_file.is_open();\n  CHECK(write_to_text);"),
    ("C17.b", "C17", TR, "  bool write_to_text = path_text_file.is_open();\n", "  bool write_to_text = path_text_file.is_open();\n  if (!write_to_text) {\n    return;\n  }\n"),
    ("C17.c", "C17", MB, "    if (kitti_odom_file.is_open()) {", "    kitti_odom_file.exceptions(std::ios::failbit);\n    if (kitti_odom_file.is_open()) {"),
    ("C17.d", "C17", TR, "  if (!common::FileExist(path)) {\n    LOG(WARNING) << \"Path does not exist. do not output any thing.\";\n    return;\n  }\n", "  CHECK(common::FileExist(path));\n"),
    # C18
    ("C18.a", "C18", MP, "  int x_steps = (max_x - min_x) / half_width;", "  int x_steps = (max_x - min_x) / half_width - 1;"),
    ("C18.b", "C18", MP, "      Eigen::Vector2d offseted_bb_min = part.bb_min - part_offset;", "      Eigen::Vector2d offseted_bb_min = part.bb_min;"),
    ("C18.c", "C18", MP, "          point.x -= part.center[0];\n          point.y -= part.center[1];", "          point.x -= part.bb_min[0] + half_width;\n          point.y -= part.bb_max[1] - half_width;"),
    ("C18.d", "C18", MP, "        if (inside_bbox(translation, part.bb_min, part.bb_max)) {\n          start", "        if (inside_bbox(translation, part.bb_min, part.center)) {\n          start"),
    ("C18.e", "C18", MP, "      auto& part = parts[x][y];\n      const int submaps_size", "      auto& part = parts[x][y];\n      if (part.inside_submaps.size() < 2 && x + y > 1) continue;\n      const int submaps_size"),
    # C19
    ("C19.a", "C19", LD, "  registrator::IcpUsingPointMatcher scan_matcher;", "  static registrator::IcpUsingPointMatcher scan_matcher;"),
    ("C19.b", "C19", LD, "  int end_index = max_index - settings_.loop_ignore_threshold;", "  int end_index = max_index - settings_.loop_ignore_threshold + 1;"),
    ("C19.c", "C19", LD, "  if (result.edges.size() <= 1) {", "  if (result.edges.empty()) {"),
    ("C19.d", "C19", LD, "  for (size_t i = 1; i < result.edges.size(); ++i) {", "  for (size_t i = 1; i + 1 < result.edges.size(); ++i) {"),
    ("C19.e", "C19", LD, "    if (xy_distance <= settings_.max_close_loop_distance &&\n        z_distance <= settings_.max_close_loop_z_distance) {", "    if (xy_distance <= settings_.max_close_loop_distance) {"),
    ("C19.f", "C19", LD, "    tasks.wait();\n", "    if (maybe_close_pair.size() < 3) tasks.wait();\n"),
    ("C19.g", "C19", LD, "  if (match_score > settings_.accept_scan_match_score) {", "  if (match_score > settings_.accept_scan_match_score - 0.05) {"),
    ("C19.h", "C19", LD, "      DetectResult::LoopEdge loop_edge;\n", "      static DetectResult::LoopEdge loop_edge;\n"),
    # C20
    ("C20.a", "C20", FR, "  bool is_inlier[size];  // NOLINT", "  std::vector<bool> is_inlier(size);"),
    ("C20.b", "C20", G2, "      float rad = std::atan2(point.y, point.x);\n", "      static float rad;\n      rad = std::atan2(point.y, point.x);\n"),
    ("C20.c", "C20", G2, "  pool.reset();\n", "  pool->enqueue([pool] {});\n"),
    ("C20.d", "C20", FF, "    *middle_poindcloud1 = *middle_poindcloud2;\n", "    middle_poindcloud1 = middle_poindcloud2;\n"),
    ("C20.e", "C20", G2, "  this->inliers_.clear();\n  this->outliers_.clear();\n", ""),
    ("C20.f", "C20", FR, "    float range =\n        std::sqrt", "    static float range;\n    range =\n        std::sqrt"),
    # C21
    ("C21.a", "C21", SP, "  std::lock_guard<std::mutex> locker(mutex_);\n", ""),
    ("C21.b", "C21", SP, "durations_[block_name][std::this_thread::get_id()]", "durations_[block_name][std::thread::id()]"),
    ("C21.c", "C21", SP, "  statistics.sum = 0;\n  for", "  static int64_t sum;\n  statistics.sum = sum;\n  for"),
    ("C21.d", "C21", SPH, "      spent_times_->push_back(duration);", "      if (duration > 0) spent_times_->push_back(duration);"),
    # C22
    ("C22.a", "C22", NDT, "		hessians[thread_n].noalias() += hessian_pt;", "		hessians[0].noalias() += hessian_pt;"),
    ("C22.b", "C22", NDT, "		auto& neighborhood = neighborhoods[thread_n];", "		auto& neighborhood = neighborhoods[0];"),
    ("C22.c", "C22", NDT, "		score_gradients[thread_n].noalias() += score_gradient_pt;", "		score_gradient += score_gradient_pt;"),
    ("C22.d", "C22", NDT, "		int thread_n = omp_get_thread_num();", "		int thread_n = idx % num_threads_;"),
    # C23
    ("C23.a", "C23", KR, "  std::sort(files_.begin(), files_.end());\n", ""),
    ("C23.b", "C23", KR, "      point.intensity = (*pr) * 255;", "      point.intensity = (*pr);"),
    ("C23.c", "C23", FU, "    if (is_regular_file(itr->path())) {", "    {"),
    ("C23.d", "C23", KR, "files_.at(current_index_++)", "files_.at(++current_index_)"),
    ("C23.e", "C23", KR, "  while (current_index_ < files_.size()) {", "  if (current_index_ < files_.size()) {"),
    ("C23.f", "C23", KR, "    PRINT_ERROR_FMT(\"Could not read file: %s\", filename);\n    return nullptr;", "    PRINT_ERROR_FMT(\"Could not read file: %s\", filename);"),
    ("C23.g", "C23", KR, "  while ((num = fread(data.data(), sizeof(float) * 4, kMaxRecordsPerRead,\n                      stream)) > 0) {", "  if ((num = fread(data.data(), sizeof(float) * 4, kMaxRecordsPerRead,\n                   stream)) > 0) {"),
    ("C23.h", "C23", KR, "    if (point_cloud && !point_cloud->empty()) {", "    if (point_cloud) {"),
    # C24
    ("C24.a", "C24", FU, "  if (path_without_slash.empty() ||\n      boost::filesystem::exists(path_without_slash)) {\n    return true;", "  if (path_without_slash.empty()) {\n    return true;"),  # equivalent
    ("C24.b", "C24", FU, "  return boost::filesystem::create_directories(path_without_slash) ||\n         boost::filesystem::is_directory(path_without_slash);", "  return boost::filesystem::create_directories(path_without_slash);"),
    ("C24.c", "C24", FU, "  return boost::filesystem::create_directories(path_without_slash) ||\n         boost::filesystem::is_directory(path_without_slash);", "  return boost::filesystem::create_directory(path_without_slash) ||\n         boost::filesystem::is_directory(path_without_slash);"),
    # C25
    ("C25.a", "C25", MB, "    submap->SetGlobalPose(new_submap_pose);\n    submap->UpdateInnerFramePose();", "    submap->SetGlobalPose(new_submap_pose);"),
    ("C25.c", "C25", ISAM, "  gps_coord_transform_ = result.at<gtsam::Pose3>(gps_key);\n", ""),
    ("C25.d", "C25", ISAM, "  if (options_.use_gps && frame->HasGps()) {", "  if (options_.use_gps) {"),
    ("C25.e", "C25", ISAM, "      if (cached_enu_.size() < options_.gps_factor_init_num ||", "      if (cached_enu_.size() <= options_.gps_factor_init_num ||"),
    ("C25.f", "C25", MB, "  CalculateCoordTransformToGps();\n  // path", "  // path"),
    ("C25.g", "C25", MB, "        submap->SetRelatedGpsInENU(*gps_enu);", "        submap->SetRelatedGpsInENU(*gps_enu + Eigen::Vector3d(0, 0, 1));"),
    ("C25.h", "C25", ISAM, "        cached_enu_[result.current_frame_index] = frame->GetRelatedGpsInENU();", "        cached_enu_[cached_enu_.size()] = frame->GetRelatedGpsInENU();"),
    ("C25.i", "C25", ISAM, "        add_enu_factor(frame_index, frame->GetRelatedGpsInENU());", "        add_enu_factor(frame_index - 1, frame->GetRelatedGpsInENU());"),
    # C26
    ("C26.a", "C26", MB, "      MotionCompensation(*inner_cloud_without_comp,\n                         accumulative_transform", "      MotionCompensation(*source_cloud->GetInnerCloud(),\n                         accumulative_transform"),
    ("C26.b", "C26", MB, "      accumulative_transform = Pose3d::Identity();\n      target_cloud = source_cloud;", "      target_cloud = source_cloud;"),
    ("C26.c", "C26", MB, "delta_transform, point.factor);", "delta_transform, 1.);"),
    ("C26.d", "C26", MB, "            accumulative_transform.inverse() * guess;", "            guess;"),
    ("C26.e", "C26", MB, "                         accumulative_transform.inverse() * average_transform,", "                         average_transform,"),
    ("C26.f", "C26", MB, "    new_point.factor = point.factor;", "    new_point.factor = 0.f;"),
    # C27
    ("C27.a", "C27", MB, "        SubmapPairMatch(current_submap_index, current_submap_index - 1);", "        SubmapPairMatch(current_trajectory_->size() - 1, current_trajectory_->size() - 2);"),
    ("C27.b", "C27", MB, "      if (!(*current_trajectory_)[i]->GotMatchedToNext()) {\n        break;\n      }", "      if (!(*current_trajectory_)[i]->GotMatchedToNext()) {\n      }"),
    ("C27.c", "C27", MB, "  Eigen::Matrix4d guess =\n      target_submap->GetFrames()[0]->GlobalPose().inverse() *\n      source_submap->GetFrames()[0]->GlobalPose();", "  Eigen::Matrix4d guess =\n      target_submap->GlobalPose().inverse() * source_submap->GlobalPose();"),
    ("C27.d", "C27", MB, "    const bool scan_match_running = scan_match_thread_running_.load();\n    const int frames_size = complete_frames_count_.load();", "    const int frames_size = complete_frames_count_.load();\n    const bool scan_match_running = scan_match_thread_running_.load();"),
    ("C27.e", "C27", MB, "    const bool processing_done = submap_processing_done_.load();\n    int submap_size = current_trajectory_->size();", "    int submap_size = current_trajectory_->size();\n    const bool processing_done = submap_processing_done_.load();"),
    # C29
    ("C29.a", "C29", MB, "(std::fabs(euler_angles[0]) + std::fabs(euler_angles[1]) +\n         std::fabs(euler_angles[2])) *", "(std::fabs(euler_angles[0]) + std::fabs(euler_angles[1])) *"),
    ("C29.b", "C29", MB, "    accumulative_transform = align_result;", "    accumulative_transform = accumulative_transform * align_result;"),
    ("C29.c", "C29", MB, "      pose_target = pose_source;\n", "      if (accu_translation > 1e-3) pose_target = pose_source;\n"),
    ("C29.d", "C29", MB, "      target_cloud = source_cloud;\n      if (scan_matcher_->GetType()", "      if (accu_translation >= options_.front_end_options.motion_filter.translation_range) target_cloud = source_cloud;\n      if (scan_matcher_->GetType()"),
    ("C29.e", "C29", MB, "         accu_angles >= options_.front_end_options.motion_filter.angle_range)) {", "         accu_angles >= 2. * options_.front_end_options.motion_filter.angle_range)) {"),
    ("C29.g", "C29", MB, "(std::fabs(euler_angles[0]) + std::fabs(euler_angles[1]) +\n         std::fabs(euler_angles[2])) *", "std::fabs(euler_angles[2]) *"),
    ("C29.f", "C29", MB, "    pose_source = pose_target * align_result;", "    pose_source = pose_source * align_result;"),
    # C34
    ("C34.a", "C34", MB, "        if (submap->GetId().submap_index <= current_finished_index) {\n          poses.push_back(submap->GlobalPose());\n        }", "        poses.push_back(submap->GlobalPose());"),
    ("C34.b", "C34", MB, "        if (submap->GetId().submap_index > current_finished_index) {\n          break;\n        }\n", ""),
    ("C34.c", "C34", MB, "        pcl::transformPointCloud(*submap_cloud_pcl, *transformed_cloud, pose);", "        pcl::transformPointCloud(*submap_cloud_pcl, *transformed_cloud, current_trajectory_->front()->GlobalPose());"),
    ("C34.d", "C34", ISAM, "    view_graph_.AddEdge(index - 1, index, transform_from_last_pose);", "    if (index > 1) view_graph_.AddEdge(index - 1, index, transform_from_last_pose);"),
    ("C34.e", "C34", MB, "        data::ToPclPointCloud(*(current_submap->Cloud()->GetInnerCloud()),\n                              submap_cloud_pcl.get());\n        show_", "        data::ToPclPointCloud(*(previous_submap->Cloud()->GetInnerCloud()),\n                              submap_cloud_pcl.get());\n        show_"),
    ("C34.f", "C34", MB, "    for (size_t i = 1; i < submaps_to_connect.size(); ++i) {", "    if (show_path_function_ && submaps_to_connect.size() > 8) submaps_to_connect.resize(8);\n    for (size_t i = 1; i < submaps_to_connect.size(); ++i) {"),
    # C35
    ("C35.a", "C35", ISAM, "between(Pose3_(POSE_KEY(target_index)), Pose3_(POSE_KEY(source_index)))", "between(Pose3_(POSE_KEY(source_index)), Pose3_(POSE_KEY(target_index)))"),
    ("C35.b", "C35", ISAM, "                       loop_closure_noise_model_);\n      IsamUpdate();", "                       loop_closure_noise_model_);\n      IsamUpdate();\n      if (edge_size > 2) break;"),
    ("C35.c", "C35", ISAM, "  for (int i = 0; i < frames_size; ++i) {\n    Eigen::Matrix4d pose", "  for (int i = std::max(0, frames_size - 5); i < frames_size; ++i) {\n    Eigen::Matrix4d pose"),
    ("C35.d", "C35", ISAM, "  for (int i = 0; i < update_time; ++i) {\n    isam_->update();\n  }", "  for (int i = 1; i < update_time; ++i) {\n    isam_->update();\n  }"),
    ("C35.e", "C35", ISAM, "  loop_closure_noise_model_ = NM::Diagonal::Sigmas(\n      (gtsam::Vector(6) << 0.1, 0.1, 0.1, 0.15, 0.15, 0.15).finished());", "  loop_closure_noise_model_ = NM::Diagonal::Sigmas(\n      (gtsam::Vector(6) << 0.5, 0.5, 0.5, 0.75, 0.75, 0.75).finished());"),
    ("C35.f", "C35", ISAM, "  isam_factor_graph_->addExpressionFactor(\n      loop_close_noise,", "  if (source_index - target_index <= 6)\n  isam_factor_graph_->addExpressionFactor(\n      loop_close_noise,"),
    ("C35.g", "C35", ISAM, "edge.close_pair_index.second, edge.transform,", "edge.close_pair_index.second, result.edges.front().transform,"),
    ("C35.h", "C35", ISAM, "  if (result.close_succeed) {", "  if (result.close_succeed && result.edges.size() < 4) {"),
    ("C35.i", "C35", MB, "    submap->UpdateInnerFramePose();", "    if (submap->GetId().submap_index % 4 != 3) submap->UpdateInnerFramePose();"),
    # C28
    ("C28.a", "C28", JP, "      std::cout << \"Error loading pointcloud from this file.\" << std::endl;", "      std::cout << \"Error loading pointcloud from this file.\" << std::endl;\n      break;"),
    ("C28.b", "C28", JP, "      transform(0, 3) = piece_node.attribute(\"x\").as_double();", "      transform(0, 3) = piece_node.attribute(\"y\").as_double();"),
    ("C28.c", "C28", JP, "    pcl::PointCloud<pcl::PointXYZI> piece_cloud;\n    if", "    static pcl::PointCloud<pcl::PointXYZI> piece_cloud;\n    if"),
    ("C28.d", "C28", JP, "piece_cloud) == -1) {\n      std::cout << \"Error loading pointcloud from this file.\" << std::endl;\n    } else {", "piece_cloud) == -1) {\n      std::cout << \"Error loading pointcloud from this file.\" << std::endl;\n    }\n    {"),
    ("C28.e", "C28", JP, "  if (!doc.load_file(pkg_filename.c_str())) {", "  doc.load_file(pkg_filename.c_str());\n  if (false) {"),
    ("C28.f", "C28", JP, ".as_double();\n      transform(1", ".as_int();\n      transform(1"),
    # second pass over the statements
    ("C04.f", "C04", MB, "      target_submap->GetFrames()[0]->GlobalPose().inverse() *\n      source_submap->GetFrames()[0]->GlobalPose();", "      target_submap->GlobalPose().inverse() *\n      source_submap->GlobalPose();"),
    ("C27.f", "C27", MB, "      target_submap->GetFrames()[0]->GlobalPose().inverse() *\n      source_submap->GetFrames()[0]->GlobalPose();", "      target_submap->GlobalPose().inverse() *\n      source_submap->GlobalPose();"),
    ("C35.j", "C35", MB, "  source_submap->match_score_to_previous_submap_ = submap_match_score;\n  if (submap_match_score >=\n      options_.back_end_options.submap_matcher_options.accepted_min_score) {\n    target_submap->SetMatchedTransformedToNext(result);", "  if (submap_match_score >=\n      options_.back_end_options.submap_matcher_options.accepted_min_score) {\n    target_submap->SetMatchedTransformedToNext(result);\n    source_submap->match_score_to_previous_submap_ = submap_match_score;"),
    ("C11.g", "C11", DC, "      if (std::fabs(time.ToSec() - gps_data_[0].time.ToSec()) <=\n              time_threshold &&", "      if (time.ToSec() - gps_data_[0].time.ToSec() <=\n              time_threshold &&"),
    ("C11.h", "C11", DC, "              time_threshold &&\n          gps_data_[0].status_fixed) {", "              time_threshold) {"),
    ("C12.f", "C12", DC, "data.time <= odom_data_.back().time) {", "data.time < odom_data_.back().time) {"),
    ("C13.h", "C13", PE, "    extrapolation_imu_tracker_ = std::make_unique<ImuTracker>(*imu_tracker_);\n  }\n  const", "  }\n  const"),
    ("C13.i", "C13", PE, "  if ((!timed_pose_queue_.empty() &&\n       imu_data.header.stamp < timed_pose_queue_.back().time) ||\n      (!imu_data_.empty() &&\n       imu_data.header.stamp < imu_data_.back().header.stamp)) {", "  if (!timed_pose_queue_.empty() &&\n       imu_data.header.stamp < timed_pose_queue_.back().time) {"),
    ("C13.j", "C13", PE, "  if ((!timed_pose_queue_.empty() &&\n       imu_data.header.stamp < timed_pose_queue_.back().time) ||\n      (!imu_data_.empty() &&\n       imu_data.header.stamp < imu_data_.back().header.stamp)) {", "  if (!imu_data_.empty() &&\n       imu_data.header.stamp < imu_data_.back().header.stamp) {"),
    ("C13.k", "C13", PE, "  const data::TimedPose& newest_timed_pose = timed_pose_queue_.back();\n  const auto newest_time", "  const data::TimedPose& newest_timed_pose = timed_pose_queue_[timed_pose_queue_.size() - 1 - (timed_pose_queue_.size() > 8)];\n  const auto newest_time"),
    ("C15.f", "C15", MV, "    } while (!prob->CompareExchange(&former_prob, new_prob));", "    } while (false);\n    *prob = new_prob;"),
    ("C15.g", "C15", MV, "    if (voxel.points.size() < settings_.max_point_num_in_cell) {", "    if (voxel.points.size() <= settings_.max_point_num_in_cell) {"),
    ("C15.h", "C15", MV, "    voxel.need_update = kFalse;\n", "    if (voxel.points.empty()) voxel.need_update = kFalse;\n"),
    ("C15.i", "C15", MV, "    high_resolution_voxels_[voxel.first].need_update = kTrue;", "    if (voxel.first != end_voxels.begin()->first) high_resolution_voxels_[voxel.first].need_update = kTrue;"),
    ("C10.h", "C10", CT, "    if (stream->good()) {\n      return sizeof(InnerPointType);", "    if (!stream->bad()) {\n      return sizeof(InnerPointType);"),
    ("C34.g", "C34", MB, "        if (submap->GetId().submap_index <= current_finished_index) {", "        if (submap->GetId().submap_index < current_finished_index) {"),
]


def main():
    sec, sel = "35", []
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "--seconds":
            sec = a.pop(0)
        else:
            sel.append(x)
    miss = 0
    for id, prop, f, old, new in M:
        if sel and id not in sel and prop not in sel:
            continue
        p = REPO + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print("%-6s does not apply (%d places)" % (id, s.count(old)), flush=True)
            continue
        open(p, "w").write(s.replace(old, new))
        t = time.time()
        try:
            r = subprocess.run([ROOT + "/check", prop], capture_output=True, text=True, env=dict(os.environ, VERIF_SECONDS=sec))
        finally:
            open(p, "w").write(s)
        last = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violat" in l.lower()]
        print("%-6s %s %5.0f s  %s" % (id, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), time.time() - t,
                                       (last[0] if last else (r.stdout + r.stderr)[-200:]).replace("\n", " ")[:200]), flush=True)
        miss += r.returncode != 1
    print("not caught: %d" % miss)


main()
