From e4fc75d5996a273a0b848728e15f96cacf701c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:35 +0000
Subject: [PATCH 01/28] fix: process clouds still being pre-processed when the
 mapping is finished

The scan matching thread stopped as soon as no pre-processed cloud was
available, although raw clouds handed in earlier were still queued or being
filtered.  Count those clouds as remaining and wait for them.
---
 builder/data/data_collector.cc | 6 ++++--
 builder/map_builder.cc         | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 42461d3..58cb51e 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -131,7 +131,6 @@ void DataCollector::CloudPreProcessing() {
     {
       Locker locker(mutex_[kPointCloudData]);
       data = cloud_data_before_preprocessing_.front();
-      cloud_data_before_preprocessing_.pop_front();
     }
 
     // filtering cloud
@@ -144,6 +143,9 @@ void DataCollector::CloudPreProcessing() {
     Locker locker(mutex_[kPointCloudData]);
     // TODO(edward) these clouds can be cached to disk as well.
     cloud_data_.push_back(filtered_cloud);
+    // The raw cloud stays in its queue until now so that it is always counted
+    // as a remaining cloud.
+    cloud_data_before_preprocessing_.pop_front();
 
     // just for debug
     got_clouds_count_++;
@@ -168,7 +170,7 @@ InnerCloudType::Ptr DataCollector::GetNewCloud() {
 
 size_t DataCollector::GetRemainingCloudSize() {
   Locker locker(mutex_[kPointCloudData]);
-  return cloud_data_.size();
+  return cloud_data_before_preprocessing_.size() + cloud_data_.size();
 }
 
 void DataCollector::AddSensorData(const OdomMsg& odom_msg) {
diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 513bfea..98ef20f 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -269,7 +269,8 @@ void MapBuilder::ScanMatchProcessing() {
   while (true) {
     auto new_inner_cloud = data_collector_->GetNewCloud();
     if (new_inner_cloud == nullptr) {
-      if (end_all_thread_.load()) {
+      if (end_all_thread_.load() &&
+          data_collector_->GetRemainingCloudSize() == 0) {
         break;
       }
       SimpleTime::FromSec(0.005).Sleep();
-- 
2.43.0


From d7cb537a8abc789fe8bcba0bb9ba23aac4d0bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:35 +0000
Subject: [PATCH 02/28] fix: do not miss the last frames when scan matching
 ends

The number of frames was read before the flag that tells whether scan
matching is still running.  Frames inserted in between were never put into
a submap.
---
 builder/map_builder.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 98ef20f..af5144f 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -660,9 +660,11 @@ void MapBuilder::SubmapProcessing() {
   submap_match_thread_pool.enqueue([&]() { ConnectAllSubmap(); });
 
   while (true) {
+    // Must be read before the size, otherwise the last frames can be missed.
+    const bool scan_match_running = scan_match_thread_running_.load();
     const int frames_size = frames_.size();
     if (frames_size - current_index < submap_frame_count) {
-      if (!scan_match_thread_running_.load()) {
+      if (!scan_match_running) {
         PRINT_INFO("no enough frames for new submap, quit");
         break;
       }
-- 
2.43.0


From 23f9af6dc121b2f8c93ba5bfbcda37789697c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:35 +0000
Subject: [PATCH 03/28] fix: do not miss the last submap when submap processing
 ends

The number of submaps was read before the flag that tells whether submap
processing is done.  A submap added in between was never connected.
---
 builder/map_builder.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index af5144f..9b24082 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -453,9 +453,11 @@ void MapBuilder::ConnectAllSubmap() {
   submaps_to_connect.reserve(20);
   bool first_inserted = false;
   while (true) {
+    // Must be read before the size, otherwise the last submap can be missed.
+    const bool processing_done = submap_processing_done_.load();
     int submap_size = current_trajectory_->size();
     if (submap_size == 0 || submap_size - 1 == current_finished_index) {
-      if (submap_processing_done_.load()) {
+      if (processing_done) {
         break;
       }
       SimpleTime::FromSec(0.1).Sleep();
-- 
2.43.0


From 09844e1aa6837e5a0a59d08911b8ca3bfe8f54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:22 +0000
Subject: [PATCH 04/28] fix: hide submaps from other threads until they are
 stored completely

The size of a tbb::concurrent_vector grows before the new element has been
constructed.  The memory manager and the connecting thread walk over the
trajectory at any time, so they could use an empty submap pointer and crash.
---
 builder/trajectory.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/builder/trajectory.h b/builder/trajectory.h
index 027f35b..1433f61 100644
--- a/builder/trajectory.h
+++ b/builder/trajectory.h
@@ -23,6 +23,7 @@
 #ifndef BUILDER_TRAJECTORY_H_
 #define BUILDER_TRAJECTORY_H_
 // stl
+#include <atomic>
 #include <memory>
 #include <string>
 #include <vector>
@@ -62,6 +63,19 @@ class Trajectory : public tbb::concurrent_vector<std::shared_ptr<Submap>> {
   PROHIBIT_COPY_AND_ASSIGN(Trajectory);
 
   using Ptr = std::shared_ptr<Trajectory>;
+  using Base = tbb::concurrent_vector<std::shared_ptr<Submap>>;
+
+  // tbb::concurrent_vector already counts an element that is still under
+  // construction. A submap becomes visible only when it has been stored
+  // completely. Submaps are always added by one single thread.
+  void push_back(const std::shared_ptr<Submap>& submap) {
+    Base::push_back(submap);
+    complete_size_ = Base::size();
+  }
+  size_t size() const { return complete_size_.load(); }
+  bool empty() const { return size() == 0; }
+  iterator end() { return Base::begin() + size(); }
+  const_iterator end() const { return Base::begin() + size(); }
 
   // Trajectory APIs
   void SetId(int id) { id_ = id; }
@@ -72,6 +86,7 @@ class Trajectory : public tbb::concurrent_vector<std::shared_ptr<Submap>> {
   void OutputPathToPointcloud(const std::string& path);
 
  private:
+  std::atomic<size_t> complete_size_{0};
   int id_;
   // @todo(edward) change to enu offset
   double enu_offset_x_ = 0.;
-- 
2.43.0


From 80ef338721c0d355ecdbfb15df6dc8df6c5c4311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:22 +0000
Subject: [PATCH 05/28] fix: do not build a submap from a frame that is not
 stored completely yet

The size of a tbb::concurrent_vector grows before the new element has been
constructed.  Count the frames after they have been stored.
---
 builder/map_builder.cc | 3 ++-
 builder/map_builder.h  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 9b24082..eac843a 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -226,6 +226,7 @@ void MapBuilder::InsertFrameForSubmap(InnerCloud::Ptr cloud_ptr,
   frame->SetTimeStamp(cloud_ptr->GetTime());
   frame->SetGlobalPose(global_pose);
   frames_.push_back(frame);
+  complete_frames_count_++;
 }
 
 namespace {
@@ -664,7 +665,7 @@ void MapBuilder::SubmapProcessing() {
   while (true) {
     // Must be read before the size, otherwise the last frames can be missed.
     const bool scan_match_running = scan_match_thread_running_.load();
-    const int frames_size = frames_.size();
+    const int frames_size = complete_frames_count_.load();
     if (frames_size - current_index < submap_frame_count) {
       if (!scan_match_running) {
         PRINT_INFO("no enough frames for new submap, quit");
diff --git a/builder/map_builder.h b/builder/map_builder.h
index 0977d4c..24a7270 100644
--- a/builder/map_builder.h
+++ b/builder/map_builder.h
@@ -256,6 +256,8 @@ class MapBuilder {
   std::shared_ptr<registrator::Interface> scan_matcher_ = nullptr;
   std::unique_ptr<std::thread> scan_match_thread_;
   tbb::concurrent_vector<std::shared_ptr<Frame>> frames_;
+  // number of the frames in frames_ that are stored completely
+  std::atomic<int> complete_frames_count_{0};
   std::atomic<bool> scan_match_thread_running_;
   bool got_first_point_cloud_ = false;
 
-- 
2.43.0


From 7137ddcfbee2ed55bba4a021d0a46eeac4e6c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:22 +0000
Subject: [PATCH 06/28] fix: set the size of the static map cloud before it is
 written

The points were appended without updating width and height, so the exported
static map had an empty size in its header and could not be read back.
---
 builder/multi_resolution_voxel_map.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 4917d30..6ddca89 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -164,6 +164,8 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
     }
   }
   cloud->points.shrink_to_fit();
+  cloud->width = cloud->points.size();
+  cloud->height = 1;
 }
 
 void MultiResolutionVoxelMap::OutputToPointCloud(
@@ -212,6 +214,8 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
     }
   }
   cloud->points.shrink_to_fit();
+  cloud->width = cloud->points.size();
+  cloud->height = 1;
 }
 
 #define OUTPUT_TO_FILE(output_cloud)                                   \
-- 
2.43.0


From eca11e404acdd37c1893acf451df82f983f847ad Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:49:24 +0000
Subject: [PATCH 07/28] fix: reject saved clouds that can not be read
 completely

A cloud file that is cut short inside a point was accepted as complete.
The result of reading was ignored when a cloud was loaded back into
memory, and a file that can not be opened aborted the process.
---
 builder/data/cloud_types.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 67bc517..8241756 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -155,7 +155,7 @@ int InnerPointType::Serialize(std::fstream* stream) const {
 int InnerPointType::Deserialize(std::fstream* stream) {
   if (stream && stream->is_open()) {
     stream->read(reinterpret_cast<char*>(this), sizeof(InnerPointType));
-    if (stream->good() || stream->eof()) {
+    if (stream->good()) {
       return sizeof(InnerPointType);
     } else {
       return -1;
@@ -445,8 +445,11 @@ bool InnerPointCloudData::CloudInMemory() {
 
     InnerCloudType::Ptr inner_cloud(new InnerCloudType);
     std::fstream bin_fs(filename_, std::ios::in | std::ios::binary);
-    CHECK(bin_fs.is_open()) << "Could not open file: " << filename_;
-    inner_cloud->Deserialize(&bin_fs);
+    if (inner_cloud->Deserialize(&bin_fs) < 0) {
+      PRINT_ERROR_FMT("Could not load the cloud from file: %s",
+                      filename_.c_str());
+      return false;
+    }
     bin_fs.close();
 
     SetInnerCloudImpl(inner_cloud);
-- 
2.43.0


From 3fbd6b330fd0cfcb985efe1413ae4e3da804af14 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:49:24 +0000
Subject: [PATCH 08/28] fix: load a saved cloud back when it was cleared while
 in use

The memory manager can clear the cloud of a submap or a frame between
the call that returns the cloud data and the access to its points. The
reader then got an empty cloud, or read the pointer while it was
replaced.
---
 builder/data/cloud_types.cc | 42 +++++++++++++++++++++++++++----------
 builder/data/cloud_types.h  |  6 ++++--
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 8241756..f697859 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -426,22 +426,32 @@ void InnerPointCloudData::SetInnerCloudImpl(const InnerCloudType::Ptr cloud) {
 }
 
 bool InnerPointCloudData::SaveToFile(const std::string& filename) {
-  common::ReadMutexLocker locker(mutex_);
-  CHECK(!filename.empty());
-  CHECK(!EmptyImpl());
-  filename_ = filename;
+  {
+    common::ReadMutexLocker locker(mutex_);
+    CHECK(!filename.empty());
+    CHECK(!EmptyImpl());
+
+    std::fstream of(filename, std::ios::out | std::ios::binary);
+    CHECK(of.is_open()) << "Could not open file: " << filename;
+    CHECK_GE(inner_cloud_->Serialize(&of), 0);
+    of.close();
+  }
 
-  std::fstream of(filename_, std::ios::out | std::ios::binary);
-  CHECK(of.is_open()) << "Could not open file: " << filename_;
-  CHECK_GE(inner_cloud_->Serialize(&of), 0);
-  of.close();
+  boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
+  common::WriteMutexLocker write_locker(locker);
+  filename_ = filename;
   return true;
 }
 
 bool InnerPointCloudData::CloudInMemory() {
   boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
+  return LoadIfNeeded(&locker);
+}
+
+bool InnerPointCloudData::LoadIfNeeded(
+    boost::upgrade_lock<common::ReadWriteMutex>* const locker) {
   if (!is_cloud_in_memory_.load()) {
-    common::WriteMutexLocker write_locker(locker);
+    common::WriteMutexLocker write_locker(*locker);
 
     InnerCloudType::Ptr inner_cloud(new InnerCloudType);
     std::fstream bin_fs(filename_, std::ios::in | std::ios::binary);
@@ -459,12 +469,22 @@ bool InnerPointCloudData::CloudInMemory() {
   return is_cloud_in_memory_.load();
 }
 
-std::shared_ptr<EigenPointCloud> InnerPointCloudData::GetEigenCloud() const {
+std::shared_ptr<EigenPointCloud> InnerPointCloudData::GetEigenCloud() {
+  boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
+  if (!filename_.empty()) {
+    // It can have been cleared since the caller got it.
+    LoadIfNeeded(&locker);
+  }
   return eigen_cloud_;
 }
 
 const SimpleTime& InnerPointCloudData::GetTime() const { return time_; }
-InnerCloudType::Ptr InnerPointCloudData::GetInnerCloud() const {
+InnerCloudType::Ptr InnerPointCloudData::GetInnerCloud() {
+  boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
+  if (!filename_.empty()) {
+    // It can have been cleared since the caller got it.
+    LoadIfNeeded(&locker);
+  }
   return inner_cloud_;
 }
 
diff --git a/builder/data/cloud_types.h b/builder/data/cloud_types.h
index 317f6ab..757ebaf 100644
--- a/builder/data/cloud_types.h
+++ b/builder/data/cloud_types.h
@@ -174,13 +174,15 @@ class InnerPointCloudData {
   bool CloudInMemory();
 
   /// Set Geters.
-  EigenPointCloud::Ptr GetEigenCloud() const;
+  EigenPointCloud::Ptr GetEigenCloud();
   const SimpleTime& GetTime() const;
-  InnerCloudType::Ptr GetInnerCloud() const;
+  InnerCloudType::Ptr GetInnerCloud();
 
  private:
   void SetInnerCloudImpl(const InnerCloudType::Ptr cloud);
   bool EmptyImpl() const;
+  bool LoadIfNeeded(
+      boost::upgrade_lock<common::ReadWriteMutex>* const locker);
 
  private:
   common::ReadWriteMutex mutex_;
-- 
2.43.0


From 0e44756d7fab167cb328e3da2167bc2868582519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:36 +0000
Subject: [PATCH 09/28] fix: keep a cloud in memory when it could not be saved
 to disk

Failed writes of submap and frame clouds were ignored, so the only copy
of the points was cleared afterwards. A file that could not be opened
aborted the process.
---
 builder/data/cloud_types.cc | 12 ++++++++----
 builder/frame.cc            |  4 ++--
 builder/frame.h             |  2 +-
 builder/frame_base.cc       |  5 +++--
 builder/frame_base.h        |  2 +-
 builder/submap.cc           | 15 +++++++++------
 builder/submap.h            |  5 +++--
 7 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index f697859..13a269f 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -426,21 +426,25 @@ void InnerPointCloudData::SetInnerCloudImpl(const InnerCloudType::Ptr cloud) {
 }
 
 bool InnerPointCloudData::SaveToFile(const std::string& filename) {
+  bool saved = false;
   {
     common::ReadMutexLocker locker(mutex_);
     CHECK(!filename.empty());
     CHECK(!EmptyImpl());
 
     std::fstream of(filename, std::ios::out | std::ios::binary);
-    CHECK(of.is_open()) << "Could not open file: " << filename;
-    CHECK_GE(inner_cloud_->Serialize(&of), 0);
+    saved = inner_cloud_->Serialize(&of) >= 0;
     of.close();
+    saved = saved && of.good();
+  }
+  if (!saved) {
+    PRINT_ERROR_FMT("Could not save the cloud to file: %s", filename.c_str());
   }
 
   boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
   common::WriteMutexLocker write_locker(locker);
-  filename_ = filename;
-  return true;
+  filename_ = saved ? filename : "";
+  return saved;
 }
 
 bool InnerPointCloudData::CloudInMemory() {
diff --git a/builder/frame.cc b/builder/frame.cc
index 1b96844..38bb7a8 100644
--- a/builder/frame.cc
+++ b/builder/frame.cc
@@ -48,11 +48,11 @@ std::string FrameId::DebugString() const {
 
 Frame::Frame() : FrameBase() {}
 
-void Frame::ToPcdFile(const std::string& filename) {
+bool Frame::ToPcdFile(const std::string& filename) {
   CHECK(this->inner_cloud_ && !this->inner_cloud_->Empty());
   const std::string actual_filename =
       filename.empty() ? id_.DebugString() + ".bin" : filename;
-  this->inner_cloud_->SaveToFile(actual_filename);
+  return this->inner_cloud_->SaveToFile(actual_filename);
 }
 
 typename Frame::InnerCloudPtr Frame::Cloud() {
diff --git a/builder/frame.h b/builder/frame.h
index 252feb7..5e75cdd 100644
--- a/builder/frame.h
+++ b/builder/frame.h
@@ -54,7 +54,7 @@ class Frame : public FrameBase {
 
   PROHIBIT_COPY_AND_ASSIGN(Frame);
 
-  void ToPcdFile(const std::string& filename) override;
+  bool ToPcdFile(const std::string& filename) override;
 
   InnerCloudPtr Cloud() override;
 
diff --git a/builder/frame_base.cc b/builder/frame_base.cc
index 714a8a4..0fbd362 100644
--- a/builder/frame_base.cc
+++ b/builder/frame_base.cc
@@ -123,15 +123,16 @@ void FrameBase::ClearCloud() {
   }
 }
 
-void FrameBase::ToPcdFile(const std::string& filename) {
+bool FrameBase::ToPcdFile(const std::string& filename) {
   if (!inner_cloud_ || inner_cloud_->Empty()) {
-    return;
+    return false;
   }
   // TODO(edward) Uniform this function for all child class.
   // const std::string actual_filename =
   //     filename.empty() ? "simple_frame.pcd" : filename;
   // pcl::io::savePCDFileBinaryCompressed(actual_filename,
   //                                      *(inner_cloud_->GetPclCloud()));
+  return false;
 }
 
 }  // namespace static_map
diff --git a/builder/frame_base.h b/builder/frame_base.h
index 194b583..0ed10b5 100644
--- a/builder/frame_base.h
+++ b/builder/frame_base.h
@@ -74,7 +74,7 @@ class FrameBase {
 
   // cloud
   virtual InnerCloudPtr Cloud() = 0;
-  virtual void ToPcdFile(const std::string& filename);
+  virtual bool ToPcdFile(const std::string& filename);
   void SetCloud(InnerCloudPtr cloud);
   void ClearCloud();
 
diff --git a/builder/submap.cc b/builder/submap.cc
index c643af4..8fbb4f5 100644
--- a/builder/submap.cc
+++ b/builder/submap.cc
@@ -71,6 +71,7 @@ Submap::Submap(const SubmapOptions& options)
       save_filename_(""),
       full_(false),
       got_matched_transform_to_next_(false),
+      saved_to_disk_(false),
       cloud_inactive_time_(0) {}
 
 void Submap::InsertFrame(const std::shared_ptr<Frame>& frame) {
@@ -203,12 +204,13 @@ void Submap::SetMatchedTransformedToNext(const Eigen::Matrix4d& t) {
   }
   if (options_.enable_disk_saving) {
     CHECK(!save_filename_.empty());
-    ToPcdFile(save_path_ + save_filename_);
+    saved_to_disk_ = ToPcdFile(save_path_ + save_filename_);
 
     // Clear frame cloud as well.
     for (const auto& frame : frames_) {
-      frame->ToPcdFile(save_path_ + frame->id_.DebugString() + ".bin");
-      frame->ClearCloud();
+      if (frame->ToPcdFile(save_path_ + frame->id_.DebugString() + ".bin")) {
+        frame->ClearCloud();
+      }
     }
   }
   got_matched_transform_to_next_ = true;
@@ -222,7 +224,8 @@ typename Submap::InnerCloudPtr Submap::Cloud() {
 }
 
 bool Submap::UpdateInactiveTime(const int update_time_in_sec) {
-  if (!options_.enable_disk_saving || !got_matched_transform_to_next_.load()) {
+  if (!options_.enable_disk_saving || !saved_to_disk_.load() ||
+      !got_matched_transform_to_next_.load()) {
     return true;
   }
 
@@ -235,9 +238,9 @@ bool Submap::UpdateInactiveTime(const int update_time_in_sec) {
   return true;
 }
 
-void Submap::ToPcdFile(const std::string& filename) {
+bool Submap::ToPcdFile(const std::string& filename) {
   CHECK(this->inner_cloud_ && !this->inner_cloud_->Empty());
-  this->inner_cloud_->SaveToFile(filename);
+  return this->inner_cloud_->SaveToFile(filename);
 }
 
 void Submap::ToInfoFile(const std::string& filename) {
diff --git a/builder/submap.h b/builder/submap.h
index c5c8e7e..06527c9 100644
--- a/builder/submap.h
+++ b/builder/submap.h
@@ -61,8 +61,8 @@ class Submap : public FrameBase {
   void SetId(const SubmapId& id);
   /// @brief Get the submap ID include trajectory index and submap index
   SubmapId GetId() { return id_; }
-  /// @brief save the inner cloud into a pcd file
-  void ToPcdFile(const std::string& filename) override;
+  /// @brief save the inner cloud into a pcd file, return if it succeeded
+  bool ToPcdFile(const std::string& filename) override;
   /// @brief save all information including cloud data into a give file
   void ToInfoFile(const std::string& filename);
   /// @brief insert single cloud frame into the submap
@@ -119,6 +119,7 @@ class Submap : public FrameBase {
   std::string save_path_;
   std::atomic<bool> full_;
   std::atomic<bool> got_matched_transform_to_next_;
+  std::atomic<bool> saved_to_disk_;
   std::atomic<int> cloud_inactive_time_;
 
   std::vector<SubmapId> connected_submaps_;
-- 
2.43.0


From 5ade6db17106d70cba83be4d76ace79fc07fde8d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:59:19 +0000
Subject: [PATCH 10/28] fix: do not drop a submap cloud that was used just
 before

The idle time was checked before waiting for the readers of the cloud.
A cloud that was used meanwhile was dropped at once and had to be loaded
from disk again.
---
 builder/submap.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder/submap.cc b/builder/submap.cc
index 8fbb4f5..5973b46 100644
--- a/builder/submap.cc
+++ b/builder/submap.cc
@@ -233,7 +233,10 @@ bool Submap::UpdateInactiveTime(const int update_time_in_sec) {
   cloud_inactive_time_ += update_time_in_sec;
   if (cloud_inactive_time_ > options_.disk_saving_delay) {
     WriteMutexLocker write_locker(locker);
-    this->inner_cloud_->Clear();
+    // The cloud can have been used while waiting for the other readers.
+    if (cloud_inactive_time_ > options_.disk_saving_delay) {
+      this->inner_cloud_->Clear();
+    }
   }
   return true;
 }
-- 
2.43.0


From ba7a1ac9e305fd0f943e6635ed548a60bba6d36a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:59:19 +0000
Subject: [PATCH 11/28] fix: extrapolate from the newest pose independent of
 former calls

A pose that was delivered for the time of the last extrapolation did not
change the result for this time. The tracker that integrates the IMU
data was moved on by every call, so IMU data that arrived later was
skipped, an earlier time aborted, and it did not exist yet when only the
initial pose was known.
---
 builder/pose_extrapolator.cc | 34 ++++++++++++++++------------------
 builder/pose_extrapolator.h  |  1 -
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index be3ff6a..515556b 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -41,8 +41,7 @@ PoseExtrapolator::PoseExtrapolator(const SimpleTime pose_queue_duration,
                                    PoseExtrapolator::Mode mode)
     : mode_(mode),
       pose_queue_duration_(pose_queue_duration),
-      gravity_time_constant_(imu_gravity_time_constant),
-      cached_extrapolated_pose_{SimpleTime(), RigidPose3d::Identity()} {}
+      gravity_time_constant_(imu_gravity_time_constant) {}
 
 std::unique_ptr<PoseExtrapolator> PoseExtrapolator::InitializeWithImu(
     const SimpleTime pose_queue_duration,
@@ -92,8 +91,6 @@ void PoseExtrapolator::AddPose(const SimpleTime time, const RigidPose3d& pose) {
   timed_pose_queue_.emplace_back(time, pose);
   if (timed_pose_queue_.size() == 1u) {
     // It's the first pose and the only pose.
-    cached_extrapolated_pose_.time = time;
-    cached_extrapolated_pose_.pose = pose;
     return;
   }
 
@@ -179,21 +176,22 @@ PoseExtrapolator::RigidPose3d PoseExtrapolator::ExtrapolatePose(
   common::MutexLocker locker(&mutex_);
   const data::TimedPose& newest_timed_pose = timed_pose_queue_.back();
   CHECK_GE(time, newest_timed_pose.time);
-  if (cached_extrapolated_pose_.time != time) {
-    const Eigen::Vector3d translation =
-        ExtrapolateTranslation(time) + newest_timed_pose.pose.block(0, 3, 3, 1);
-    const Eigen::Quaterniond rotation =
-        Eigen::Quaterniond(
-            Eigen::Matrix3d(newest_timed_pose.pose.block(0, 0, 3, 3))) *
-        ExtrapolateRotation(time, extrapolation_imu_tracker_.get());
-
-    RigidPose3d new_pose = RigidPose3d::Identity();
-    new_pose.block(0, 0, 3, 3) = rotation.toRotationMatrix();
-    new_pose.block(0, 3, 3, 1) = translation;
-    cached_extrapolated_pose_.time = time;
-    cached_extrapolated_pose_.pose = new_pose;
+  if (mode_ == Mode::kDefaultWithImu) {
+    // Always start at the newest pose, so that the result does not depend on
+    // former extrapolations.
+    extrapolation_imu_tracker_ = std::make_unique<ImuTracker>(*imu_tracker_);
   }
-  return cached_extrapolated_pose_.pose;
+  const Eigen::Vector3d translation =
+      ExtrapolateTranslation(time) + newest_timed_pose.pose.block(0, 3, 3, 1);
+  const Eigen::Quaterniond rotation =
+      Eigen::Quaterniond(
+          Eigen::Matrix3d(newest_timed_pose.pose.block(0, 0, 3, 3))) *
+      ExtrapolateRotation(time, extrapolation_imu_tracker_.get());
+
+  RigidPose3d new_pose = RigidPose3d::Identity();
+  new_pose.block(0, 0, 3, 3) = rotation.toRotationMatrix();
+  new_pose.block(0, 3, 3, 1) = translation;
+  return new_pose;
 }
 
 Eigen::Quaterniond PoseExtrapolator::EstimateGravityOrientation(
diff --git a/builder/pose_extrapolator.h b/builder/pose_extrapolator.h
index c721b1d..940e780 100644
--- a/builder/pose_extrapolator.h
+++ b/builder/pose_extrapolator.h
@@ -104,7 +104,6 @@ class PoseExtrapolator {
   std::unique_ptr<ImuTracker> imu_tracker_;
   std::unique_ptr<ImuTracker> odometry_imu_tracker_;
   std::unique_ptr<ImuTracker> extrapolation_imu_tracker_;
-  data::TimedPose cached_extrapolated_pose_;
 
   std::deque<data::OdomMsg> odometry_data_;
   Eigen::Vector3d linear_velocity_from_odometry_ = Eigen::Vector3d::Zero();
-- 
2.43.0


From b7a78e2cd9e564e2b12ead7a4f0cace1914059b8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:59:19 +0000
Subject: [PATCH 12/28] fix: ignore IMU data that arrives too late instead of
 aborting

IMU data older than the newest pose aborted the process. IMU data that
arrives in wrong order aborted it when the data was integrated.
---
 builder/pose_extrapolator.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index 515556b..6e77286 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -123,8 +123,13 @@ void PoseExtrapolator::AddImuData(const data::ImuMsg& imu_data) {
     return;
   }
   common::MutexLocker locker(&mutex_);
-  CHECK(timed_pose_queue_.empty() ||
-        imu_data.header.stamp >= timed_pose_queue_.back().time);
+  if ((!timed_pose_queue_.empty() &&
+       imu_data.header.stamp < timed_pose_queue_.back().time) ||
+      (!imu_data_.empty() &&
+       imu_data.header.stamp < imu_data_.back().header.stamp)) {
+    LOG(WARNING) << "Skip imu data that arrived too late.";
+    return;
+  }
   imu_data_.push_back(imu_data);
   TrimImuData();
 }
-- 
2.43.0


From 43f7803f6aa41b87337e808da893de1c1b5912dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:59:19 +0000
Subject: [PATCH 13/28] fix: ignore late or doubled GPS data instead of
 aborting

---
 builder/data/data_collector.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 58cb51e..b53c889 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -104,8 +104,9 @@ void DataCollector::AddSensorData(const NavSatFixMsg& navsat_msg) {
       navsat_msg.latitude, navsat_msg.longtitude, navsat_msg.altitude,
       data.enu_position[0], data.enu_position[1], data.enu_position[2]);
 
-  if (!gps_data_.empty()) {
-    CHECK(data.time > gps_data_.back().time);
+  if (!gps_data_.empty() && data.time <= gps_data_.back().time) {
+    PRINT_WARNING("skip gps data that is late or doubled.");
+    return;
   }
   gps_data_.push_back(data);
 
-- 
2.43.0


From 510cd6482da7483ae613010c079ca880299808be Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:59:19 +0000
Subject: [PATCH 14/28] fix: ignore late or doubled odometry data

The data is searched by time and must be in order. Doubled messages
aborted the interpolation, late ones gave wrong poses.
---
 builder/data/data_collector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index b53c889..6f22c74 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -178,6 +178,10 @@ void DataCollector::AddSensorData(const OdomMsg& odom_msg) {
   Locker locker(mutex_[kOdometryData]);
   OdometryData data;
   data.time = odom_msg.header.stamp;
+  if (!odom_data_.empty() && data.time <= odom_data_.back().time) {
+    PRINT_WARNING("skip odom data that is late or doubled.");
+    return;
+  }
   data.pose = odom_msg.PoseInMatrix();
   if (!odom_init_offset_) {
     odom_init_offset_ = data.pose;
-- 
2.43.0


From 6fb496848e296d83b9c6281247233b32ebb14a97 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:05:04 +0000
Subject: [PATCH 15/28] fix: skip scans without points instead of aborting

A scan without any point, or one whose points were all removed by the
filters, aborted the process.
---
 builder/data/data_collector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 6f22c74..0d3c6bb 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -138,6 +138,12 @@ void DataCollector::CloudPreProcessing() {
     InnerCloudType::Ptr filtered_cloud(new InnerCloudType);
     filter_factory_->SetInputCloud(data);
     filter_factory_->Filter(filtered_cloud);
+    if (filtered_cloud->points.empty()) {
+      PRINT_WARNING("skip cloud without any point.");
+      Locker locker(mutex_[kPointCloudData]);
+      cloud_data_before_preprocessing_.pop_front();
+      continue;
+    }
     CHECK(data->stamp == filtered_cloud->stamp);
 
     // insert new data
-- 
2.43.0


From 28aba572dfc8f4c11802573b460a8ac3dd0a0734 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:05:18 +0000
Subject: [PATCH 16/28] fix: keep the match target when a late scan is skipped

A scan older than the last pose became the target of the following scan
matches although its pose was never calculated, so the following scans
were matched against the wrong cloud.
---
 builder/map_builder.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index eac843a..94e7db6 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -297,7 +297,6 @@ void MapBuilder::ScanMatchProcessing() {
     REGISTER_BLOCK("FrontEndOneFrame");
     if (extrapolator_ && source_time < extrapolator_->GetLastPoseTime()) {
       PRINT_INFO("Extrapolator still initialising...");
-      target_cloud = source_cloud;
       continue;
     }
 
-- 
2.43.0


From 70f51df5ba99f837fa288416a8202fff35bbcd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:44 +0000
Subject: [PATCH 17/28] fix: write the remaining files when one exported file
 can not be written

An exception of the pcd writer ended the whole export silently, all
files that would have been written later were missing.
---
 builder/data/data_collector.cc        |  5 ++-
 builder/map_builder.cc                | 11 ++---
 builder/map_package.cc                |  3 +-
 builder/multi_resolution_voxel_map.cc |  7 +---
 builder/trajectory.cc                 |  9 ++---
 common/pcd_utils.h                    | 58 +++++++++++++++++++++++++++
 6 files changed, 75 insertions(+), 18 deletions(-)
 create mode 100644 common/pcd_utils.h

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 0d3c6bb..18edadd 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -27,6 +27,7 @@
 
 #include "common/macro_defines.h"
 #include "common/math.h"
+#include "common/pcd_utils.h"
 #include "common/performance/simple_prof.h"
 #include "glog/logging.h"
 #include "pcl/io/pcd_io.h"
@@ -59,14 +60,14 @@ DataCollector::~DataCollector() {
 void DataCollector::RawGpsDataToFile(const std::string& filename) const {
   if (!enu_path_cloud_.empty()) {
     PRINT_INFO_FMT("output raw gps data into file: %s", filename.c_str());
-    pcl::io::savePCDFileBinaryCompressed(filename, enu_path_cloud_);
+    common::SavePcdFile(filename, enu_path_cloud_);
   }
 }
 
 void DataCollector::RawOdomDataToFile(const std::string& filename) const {
   if (!odom_path_cloud_.empty()) {
     PRINT_INFO_FMT("output raw odom data into file: %s", filename.c_str());
-    pcl::io::savePCDFileBinaryCompressed(filename, odom_path_cloud_);
+    common::SavePcdFile(filename, odom_path_cloud_);
   }
 }
 
diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 94e7db6..0360fe4 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -36,6 +36,7 @@
 #include "builder/map_builder.h"
 #include "builder/memory_manager.h"
 #include "common/macro_defines.h"
+#include "common/pcd_utils.h"
 #include "common/performance/simple_prof.h"
 #include "common/simple_thread_pool.h"
 #include "descriptor/m2dp.h"
@@ -871,10 +872,10 @@ void MapBuilder::SaveMaps() {
           if (whole_map && !whole_map->empty()) {
             PRINT_INFO_FMT("creating part map: %d with %d submaps.",
                            map_part_index, used_submap_count);
-            pcl::io::savePCDFileBinaryCompressed(
-                options_.whole_options.export_file_path + "part_map_" +
-                    std::to_string(map_part_index) + ".pcd",
-                *whole_map);
+            common::SavePcdFile(options_.whole_options.export_file_path +
+                                    "part_map_" +
+                                    std::to_string(map_part_index) + ".pcd",
+                                *whole_map);
             whole_map.reset(new PointCloudType);
           } else {
             PRINT_INFO_FMT("failed creating part map: %d with %d submaps.",
@@ -908,7 +909,7 @@ void MapBuilder::SaveMaps() {
     if (options_.whole_options.output_direct_combined_map &&
         !whole_map->empty()) {
       PRINT_INFO("creating the whole map ...");
-      pcl::io::savePCDFileBinaryCompressed(
+      common::SavePcdFile(
           options_.whole_options.export_file_path + "whole_map.pcd",
           *whole_map);
     }
diff --git a/builder/map_package.cc b/builder/map_package.cc
index fd080c0..402c06e 100644
--- a/builder/map_package.cc
+++ b/builder/map_package.cc
@@ -28,6 +28,7 @@
 #include "builder/multi_resolution_voxel_map.h"
 #include "builder/submap.h"
 #include "builder/trajectory.h"
+#include "common/pcd_utils.h"
 #include "pugixml/pugixml.hpp"
 
 namespace static_map {
@@ -201,7 +202,7 @@ bool SaveTrajectoriesAsMapPackage(
       std::string filename = map_package_options.cloud_file_prefix +
                              std::to_string(x) + "_" + std::to_string(y) +
                              ".pcd";
-      pcl::io::savePCDFileBinaryCompressed(export_path + filename, *part.cloud);
+      common::SavePcdFile(export_path + filename, *part.cloud);
       part.cloud->points.clear();
       part.cloud->points.shrink_to_fit();
     }
diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 6ddca89..53f7e7d 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -23,6 +23,7 @@
 // local
 #include "builder/multi_resolution_voxel_map.h"
 
+#include "common/pcd_utils.h"
 #include "common/point_utils.h"
 
 namespace static_map {
@@ -222,11 +223,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
   OutputToPointCloud(threshold, output_cloud);                         \
   PRINT_INFO("Finished filtering output cloud, generating pcd file."); \
   if (!output_cloud->empty()) {                                        \
-    if (compress) {                                                    \
-      pcl::io::savePCDFileBinaryCompressed(filename, *output_cloud);   \
-    } else {                                                           \
-      pcl::io::savePCDFileBinary(filename, *output_cloud);             \
-    }                                                                  \
+    common::SavePcdFile(filename, *output_cloud, compress);            \
   } else {                                                             \
     PRINT_WARNING("Cloud is empty. Do not output to file.");           \
   }
diff --git a/builder/trajectory.cc b/builder/trajectory.cc
index 92d44e7..41edf0c 100644
--- a/builder/trajectory.cc
+++ b/builder/trajectory.cc
@@ -25,6 +25,7 @@
 #include "builder/submap.h"
 #include "builder/trajectory.h"
 #include "common/file_utils.h"
+#include "common/pcd_utils.h"
 #include "pugixml/pugixml.hpp"
 
 namespace static_map {
@@ -128,15 +129,13 @@ void Trajectory::OutputPathToPointcloud(const std::string& path) {
     }
   }
   if (!path_cloud->empty()) {
-    pcl::io::savePCDFileBinaryCompressed(path + "/path.pcd", *path_cloud);
+    common::SavePcdFile(path + "/path.pcd", *path_cloud);
   }
   if (!enu_path_cloud.points.empty()) {
-    pcl::io::savePCDFileBinaryCompressed(path + "/enu_path.pcd",
-                                         enu_path_cloud);
+    common::SavePcdFile(path + "/enu_path.pcd", enu_path_cloud);
   }
   if (!odom_path_cloud.points.empty()) {
-    pcl::io::savePCDFileBinaryCompressed(path + "/odom_path.pcd",
-                                         odom_path_cloud);
+    common::SavePcdFile(path + "/odom_path.pcd", odom_path_cloud);
   }
   if (write_to_text) {
     path_text_file << path_content;
diff --git a/common/pcd_utils.h b/common/pcd_utils.h
new file mode 100644
index 0000000..0dbcee0
--- /dev/null
+++ b/common/pcd_utils.h
@@ -0,0 +1,58 @@
+// MIT License
+
+// Copyright (c) 2019 Edward Liu
+
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+
+// The above copyright notice and this permission notice shall be included in
+// all copies or substantial portions of the Software.
+
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+#ifndef COMMON_PCD_UTILS_H_
+#define COMMON_PCD_UTILS_H_
+
+#include <exception>
+#include <string>
+
+#include "glog/logging.h"
+#include "pcl/io/pcd_io.h"
+
+namespace static_map {
+namespace common {
+
+/// @brief Write the cloud to a pcd file. Returns false (and does not throw) if
+/// the file can not be written.
+template <typename PointT>
+bool SavePcdFile(const std::string& filename,
+                 const pcl::PointCloud<PointT>& cloud,
+                 const bool compress = true) {
+  try {
+    const int result =
+        compress ? pcl::io::savePCDFileBinaryCompressed(filename, cloud)
+                 : pcl::io::savePCDFileBinary(filename, cloud);
+    if (result == 0) {
+      return true;
+    }
+    LOG(ERROR) << "Failed to write " << filename;
+  } catch (const std::exception& e) {
+    LOG(ERROR) << "Failed to write " << filename << ": " << e.what();
+  }
+  return false;
+}
+
+}  // namespace common
+}  // namespace static_map
+
+#endif  // COMMON_PCD_UTILS_H_
-- 
2.43.0


From db4eb32880ebd6629ed05ba707035985827a2dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:22 +0000
Subject: [PATCH 18/28] fix: make voxel map insertion independent of the thread
 interleaving

Hits and misses of one cloud were applied by several threads without
synchronisation, so updates could be lost and a cell could store more points
than the limit. Whether a hit cell also took misses of the same cloud depended
on which ray came first. The end voxels are now updated before the rays are
cast, and the probability is updated atomically.
---
 builder/multi_resolution_voxel_map.cc | 64 +++++++++++++++------------
 builder/multi_resolution_voxel_map.h  |  3 +-
 common/atomic_wrapper.h               |  6 +++
 3 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 53f7e7d..0534fa2 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -63,16 +63,42 @@ void MultiResolutionVoxelMap::InsertPointCloud(
   offseted_origin[2] += settings_.z_offset;
   const float hit_log_odd = ProbabilityToOdd(settings_.hit_prob);
   const float miss_log_odd = ProbabilityToOdd(settings_.miss_prob);
-  auto update_prob = [&](Probability former_prob, bool hit) -> float {
-    float odd = odds_table_[former_prob];
-    odd += hit ? hit_log_odd : miss_log_odd;
-    return Clamp(OddToProbability(odd), kMinProb, kMaxProb);
+  auto update_prob = [&](AtomicProbability* const prob, bool hit) {
+    Probability former_prob = *prob;
+    Probability new_prob;
+    do {
+      float odd = odds_table_[former_prob];
+      odd += hit ? hit_log_odd : miss_log_odd;
+      new_prob = (Probability)(
+          Clamp(OddToProbability(odd), kMinProb, kMaxProb) * kTableSize);
+    } while (!prob->CompareExchange(&former_prob, new_prob));
   };
 
   size_t point_index = 0;
   const size_t cloud_size = cloud->points.size();
   const float resolution = settings_.high_resolution;
   VoxelMap<bool> end_voxels;
+  // update the end voxels first, so that whether a voxel is hit by this cloud
+  // does not depend on the order of the rays
+  for (const auto& point : cloud->points) {
+    const Eigen::Vector3f point_vec(point.x, point.y, point.z);
+    const KeyInt3 high_end_index =
+        common::VoxelCastingBresenham(point_vec, point_vec, resolution).back();
+    end_voxels[high_end_index] = true;
+
+    auto& voxel = high_resolution_voxels_[high_end_index];
+    voxel.need_update = kFalse;
+    if (static_cast<int>(point.intensity) >
+        static_cast<int>(voxel.max_intensity)) {
+      voxel.max_intensity = static_cast<int>(point.intensity);
+    }
+    update_prob(&voxel.probability, true);
+    if (voxel.points.size() < settings_.max_point_num_in_cell) {
+      FATAL_CHECK_POINT(point);
+      voxel.points.push_back(point);
+    }
+  }
+
 #if defined _OPENMP
 #pragma omp parallel for private(point_index) num_threads(LOCAL_OMP_THREADS_NUM)
 #endif
@@ -83,36 +109,16 @@ void MultiResolutionVoxelMap::InsertPointCloud(
     std::vector<KeyInt3> high_res_indices =
         common::VoxelCastingBresenham(offseted_origin, point_vec, resolution);
 
-    // update the end voxel
+    // update the voxels on the line
     if (!high_res_indices.empty()) {
-      const KeyInt3 high_end_index = high_res_indices.back();
-      high_resolution_voxels_[high_end_index].need_update = kFalse;
-      end_voxels[high_end_index] = true;
-
-      auto& voxel = high_resolution_voxels_[high_end_index];
-      auto& prob = voxel.probability;
-      // TODO(edward) actually this compare and store is not atomic operaion.
-      // Try to find another way to achieve this.
-      if (static_cast<int>(point.intensity) >
-          static_cast<int>(voxel.max_intensity)) {
-        voxel.max_intensity = static_cast<int>(point.intensity);
-      }
-      prob = (Probability)(update_prob(prob, true) * kTableSize);
-      if (voxel.points.size() < settings_.max_point_num_in_cell) {
-        FATAL_CHECK_POINT(point);
-        voxel.points.push_back(point);
-      }
-
-      // update the voxels on the line
       const size_t indices_size = high_res_indices.size();
       for (size_t i = 0; i < indices_size - 1; ++i) {
         auto& high_index = high_res_indices[i];
-        if (high_resolution_voxels_.find(high_index) !=
-                high_resolution_voxels_.end() &&
-            high_resolution_voxels_[high_index].need_update == kTrue) {
+        auto voxel = high_resolution_voxels_.find(high_index);
+        if (voxel != high_resolution_voxels_.end() &&
+            voxel->second.need_update == kTrue) {
           // update the probability
-          auto& prob = high_resolution_voxels_[high_index].probability;
-          prob = (Probability)(update_prob(prob, false) * kTableSize);
+          update_prob(&voxel->second.probability, false);
         }
       }
     }
diff --git a/builder/multi_resolution_voxel_map.h b/builder/multi_resolution_voxel_map.h
index 13bc44a..cdef7ec 100644
--- a/builder/multi_resolution_voxel_map.h
+++ b/builder/multi_resolution_voxel_map.h
@@ -80,6 +80,7 @@ class MultiResolutionVoxelMap {
   // should use AtomicWrapper<bool> directly.
   using AtomicBool = common::AtomicWrapper<int8_t>;
   using AtomicInt = common::AtomicWrapper<int32_t>;
+  using AtomicProbability = common::AtomicWrapper<Probability>;
   template <typename T>
   using VoxelMap =
       tbb::concurrent_unordered_map<KeyInt3, T, std::hash<KeyInt3>>;
@@ -119,7 +120,7 @@ class MultiResolutionVoxelMap {
   struct HighResolutionVoxel {
     HighResolutionVoxel()
         : probability(kUnknown), need_update(kTrue), max_intensity(0) {}
-    Probability probability;
+    AtomicProbability probability;
     AtomicBool need_update;
     AtomicInt max_intensity;
     PointVector points;
diff --git a/common/atomic_wrapper.h b/common/atomic_wrapper.h
index b9d0ef3..c592425 100644
--- a/common/atomic_wrapper.h
+++ b/common/atomic_wrapper.h
@@ -50,6 +50,12 @@ class AtomicWrapper {
 
   operator T();
 
+  /// @brief Set the value to desired only if it is still the expected one.
+  /// @return false if not, expected is the actual value then.
+  bool CompareExchange(T* const expected, const T& desired) {
+    return atom_.compare_exchange_strong(*expected, desired);
+  }
+
   /// @brief Pre-increment
   template <std::enable_if_t<std::is_integral<T>::value, bool> = true>
   T operator++() {
-- 
2.43.0


From c4e223ff4a4756b42b1fb17f668453a6d7d0bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:07:41 +0000
Subject: [PATCH 19/28] fix: write complete map pieces and list only the ones
 that exist

The cloud of a piece had no width, so the written file held no readable
points. A piece without points, or one whose file could not be written, was
listed in the description without a file.
---
 builder/map_package.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/builder/map_package.cc b/builder/map_package.cc
index 402c06e..7a73189 100644
--- a/builder/map_package.cc
+++ b/builder/map_package.cc
@@ -45,6 +45,7 @@ struct SeperatedPart {
   Eigen::Vector2d bb_max;
   std::vector<std::shared_ptr<Submap>> inside_submaps;
   typename pcl::PointCloud<PointT>::Ptr cloud;
+  bool saved = false;
 
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 };
@@ -194,7 +195,7 @@ bool SaveTrajectoriesAsMapPackage(
                         part.bb_max)) {
           point.x -= part.center[0];
           point.y -= part.center[1];
-          part.cloud->points.push_back(point);
+          part.cloud->push_back(point);
         }
       }
 
@@ -202,7 +203,9 @@ bool SaveTrajectoriesAsMapPackage(
       std::string filename = map_package_options.cloud_file_prefix +
                              std::to_string(x) + "_" + std::to_string(y) +
                              ".pcd";
-      common::SavePcdFile(export_path + filename, *part.cloud);
+      // there is no file for a piece without points
+      part.saved = !part.cloud->empty() &&
+                   common::SavePcdFile(export_path + filename, *part.cloud);
       part.cloud->points.clear();
       part.cloud->points.shrink_to_fit();
     }
@@ -213,8 +216,11 @@ bool SaveTrajectoriesAsMapPackage(
   pugi::xml_node map_package_node = doc.append_child("MapPackage");
   for (int x = 0; x < x_steps; ++x) {
     for (int y = 0; y < y_steps; ++y) {
-      pugi::xml_node map_piece_node = map_package_node.append_child("Piece");
       auto& part = parts[x][y];
+      if (!part.saved) {
+        continue;
+      }
+      pugi::xml_node map_piece_node = map_package_node.append_child("Piece");
       map_piece_node.append_attribute("x") = part.center[0];
       map_piece_node.append_attribute("y") = part.center[1];
 
-- 
2.43.0


From 680648338a12c7b878c8bfcea7be1170b1ed14ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:14:23 +0000
Subject: [PATCH 20/28] fix: read KITTI scans completely and skip unreadable
 files

A file that could not be opened crashed the reader, a read error was taken for
the end of a scan, scans of more than 250000 points were cut and the read
buffer was never freed. An empty file ended the whole data set.
---
 ros_node/kitti_reader.cc | 70 ++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/ros_node/kitti_reader.cc b/ros_node/kitti_reader.cc
index b5fdb15..5cf142a 100644
--- a/ros_node/kitti_reader.cc
+++ b/ros_node/kitti_reader.cc
@@ -83,41 +83,54 @@ Of course this 'untwisting' only works for non-dynamic environments.
 #include <algorithm>
 
 #include "common/file_utils.h"
+#include "common/macro_defines.h"
 
 namespace static_map {
 namespace {
-// File existing check should be done before calling this function. We will NOT
-// perform any check on this filename in this function.
+// Returns nullptr if the file can not be opened or read.
 MapBuilder::PointCloudPtr ReadFromFile(const char *filename) {
-  // allocate 4 MB buffer (only ~130*4*4 KB are needed)
-  int32_t num = 1000000;
-  float *data = reinterpret_cast<float *>(malloc(num * sizeof(float)));
+  FILE *stream;
+  stream = fopen(filename, "rb");
+  if (stream == nullptr) {
+    PRINT_ERROR_FMT("Could not open file: %s", filename);
+    return nullptr;
+  }
 
-  // pointers
-  float *px = data + 0;
-  float *py = data + 1;
-  float *pz = data + 2;
-  float *pr = data + 3;
+  // 4 values in each record
+  constexpr size_t kMaxRecordsPerRead = 10000;
+  std::vector<float> data(kMaxRecordsPerRead * 4);
 
   // load point cloud
   MapBuilder::PointCloudPtr point_cloud(new MapBuilder::PointCloudType);
-  FILE *stream;
-  stream = fopen(filename, "rb");
-  num = fread(data, sizeof(float), num, stream) / 4;
-  point_cloud->reserve(num);
-  for (int32_t i = 0; i < num; i++) {
-    pcl::PointXYZI point;
-    point.x = *px;
-    point.y = *py;
-    point.z = *pz;
-    point.intensity = (*pr) * 255;
-    point_cloud->points.push_back(point);
-    px += 4;
-    py += 4;
-    pz += 4;
-    pr += 4;
+  size_t num = 0;
+  while ((num = fread(data.data(), sizeof(float) * 4, kMaxRecordsPerRead,
+                      stream)) > 0) {
+    // pointers
+    float *px = data.data() + 0;
+    float *py = data.data() + 1;
+    float *pz = data.data() + 2;
+    float *pr = data.data() + 3;
+
+    point_cloud->reserve(point_cloud->size() + num);
+    for (size_t i = 0; i < num; i++) {
+      pcl::PointXYZI point;
+      point.x = *px;
+      point.y = *py;
+      point.z = *pz;
+      point.intensity = (*pr) * 255;
+      point_cloud->points.push_back(point);
+      px += 4;
+      py += 4;
+      pz += 4;
+      pr += 4;
+    }
   }
+  const bool read_failed = ferror(stream) != 0;
   fclose(stream);
+  if (read_failed) {
+    PRINT_ERROR_FMT("Could not read file: %s", filename);
+    return nullptr;
+  }
   return point_cloud;
 }
 }  // namespace
@@ -142,8 +155,11 @@ MapBuilder::PointCloudPtr KittiReader::ReadFromBin(const int index) {
 }
 
 MapBuilder::PointCloudPtr KittiReader::ReadNext() {
-  if (current_index_ < files_.size()) {
-    return ReadFromFile(files_.at(current_index_++).c_str());
+  while (current_index_ < files_.size()) {
+    auto point_cloud = ReadFromFile(files_.at(current_index_++).c_str());
+    if (point_cloud && !point_cloud->empty()) {
+      return point_cloud;
+    }
   }
   return nullptr;
 }
-- 
2.43.0


From 5734aba4a82e4c801d587c2bebc2239c72237c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:14:23 +0000
Subject: [PATCH 21/28] fix: create the profiling timer manager only once

Two threads entering their first profiled block at the same time could each
create a manager, and the records of one of them were lost.
---
 common/performance/simple_prof.cc | 2 --
 common/performance/simple_prof.h  | 8 +++-----
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/common/performance/simple_prof.cc b/common/performance/simple_prof.cc
index 633271b..07c112f 100644
--- a/common/performance/simple_prof.cc
+++ b/common/performance/simple_prof.cc
@@ -28,8 +28,6 @@ namespace static_map {
 namespace common {
 namespace performance {
 
-std::shared_ptr<TimerManager> TimerManager::instance_ = nullptr;
-
 struct StatisticDetails {
   size_t size;
   int64_t average;
diff --git a/common/performance/simple_prof.h b/common/performance/simple_prof.h
index 7b5aac2..4215df6 100644
--- a/common/performance/simple_prof.h
+++ b/common/performance/simple_prof.h
@@ -69,10 +69,9 @@ class SimpleTimer {
 class TimerManager {
  public:
   static std::shared_ptr<TimerManager> Instance() {
-    if (!instance_) {
-      instance_ = std::shared_ptr<TimerManager>(new TimerManager);
-    }
-    return instance_;
+    // the initialization of a local static variable is thread safe
+    static std::shared_ptr<TimerManager> instance(new TimerManager);
+    return instance;
   }
 
   ~TimerManager();
@@ -92,7 +91,6 @@ class TimerManager {
                      std::unordered_map<std::thread::id, std::vector<int64_t>>>
       durations_;
 
-  static std::shared_ptr<TimerManager> instance_;
   OutputUnit unit_ = kUs;
 
   ProcessProfiler profiler_;
-- 
2.43.0


From 96b8b1f792754cc450db08efb3d020a2e9573e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:20:24 +0000
Subject: [PATCH 22/28] fix: report success when another thread created the
 directory first

---
 common/file_utils.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/file_utils.cc b/common/file_utils.cc
index 912b174..22c2a32 100644
--- a/common/file_utils.cc
+++ b/common/file_utils.cc
@@ -54,7 +54,9 @@ bool CreateDir(const std::string& path) {
       boost::filesystem::exists(path_without_slash)) {
     return true;
   }
-  return boost::filesystem::create_directories(path_without_slash);
+  // Another thread can have created it in the meantime.
+  return boost::filesystem::create_directories(path_without_slash) ||
+         boost::filesystem::is_directory(path_without_slash);
 }
 
 std::vector<std::string> ListFilesInPath(const std::string& path) {
-- 
2.43.0


From fb494cdb46936d22c39d2191bfdb37efd02b24ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:20:24 +0000
Subject: [PATCH 23/28] fix: keep the source name and the clocks of a log line
 per thread

Threads that logged or measured times at the same moment overwrote the file
name of each other and shared one stack of clocks.
---
 common/macro_defines.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/macro_defines.cc b/common/macro_defines.cc
index 4fbb55e..7d3cf99 100644
--- a/common/macro_defines.cc
+++ b/common/macro_defines.cc
@@ -29,7 +29,7 @@
 
 namespace static_map {
 
-static char filename[128] = {'\0'};
+static thread_local char filename[128] = {'\0'};
 char* splited_file_name(const char* file) {
   memset(filename, 0, sizeof(filename));
   std::string str = file;
@@ -42,8 +42,7 @@ char* splited_file_name(const char* file) {
   return filename;
 }
 
-std::stack<SimpleTime> debug_times;
-// @todo make it thread-safe
+thread_local std::stack<SimpleTime> debug_times;
 void start_clock() { debug_times.push(SimpleTime::GetCurrentTime()); }
 void end_clock(const char* filename, const char* func_name, const int line) {
   if (debug_times.empty()) {
-- 
2.43.0


From 2d5e503936aaa310442f4519c64dab03d33bee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:21:17 +0000
Subject: [PATCH 24/28] fix: write each log message as a whole

The parts of a message were written one by one, so the messages of different
threads got mixed.
---
 common/macro_defines.h | 53 ++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/common/macro_defines.h b/common/macro_defines.h
index 4aa6ae5..0c8014b 100644
--- a/common/macro_defines.h
+++ b/common/macro_defines.h
@@ -29,6 +29,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <iostream>
+#include <sstream>
 #include <string>
 
 #include "common/eigen_pitfalls_avoidence.h"
@@ -79,6 +80,24 @@ void end_clock_min_time_std(double min_time);
  */
 char* splited_file_name(const char*);
 
+/*!
+ * @brief collects one message and writes it to std::cout as a whole, so that
+ * the messages of different threads do not mix
+ */
+class LogLine {
+ public:
+  ~LogLine() { std::cout << stream_.str() + "\n" << std::flush; }
+
+  template <typename T>
+  LogLine& operator<<(const T& value) {
+    stream_ << value;
+    return *this;
+  }
+
+ private:
+  std::ostringstream stream_;
+};
+
 }  // namespace static_map
 
 using static_map::splited_file_name;
@@ -114,43 +133,43 @@ using static_map::splited_file_name;
  * @def PRINT_COLOR_FMT(color, fmt, ...)
  * print a message in a specific format and color ( like printf )
  */
-#define PRINT_ERROR(args)                                                     \
-  (std::cout << "[ " << BOLD << splited_file_name(__FILE__) << NONE_FORMAT    \
-             << ": " << __LINE__ << " ]" << RED << " [ERROR] " << NONE_FORMAT \
-             << (args) << std::endl)
+#define PRINT_ERROR(args)                                                    \
+  (static_map::LogLine() << "[ " << BOLD << splited_file_name(__FILE__)      \
+                         << NONE_FORMAT << ": " << __LINE__ << " ]" << RED   \
+                         << " [ERROR] " << NONE_FORMAT << (args))
 #define PRINT_ERROR_FMT(fmt, ...)                            \
   (printf("[ %s: %d ]" RED " [ERROR] " NONE_FORMAT fmt "\n", \
           splited_file_name(__FILE__), __LINE__, __VA_ARGS__))
 
 // DEBUG
-#define PRINT_DEBUG(args)                                               \
-  (std::cout << "[ " << splited_file_name(__FILE__) << ": " << __LINE__ \
-             << " ]" << BLUE << " [DEBUG] " << NONE_FORMAT << (args)    \
-             << std::endl)
+#define PRINT_DEBUG(args)                                                    \
+  (static_map::LogLine() << "[ " << splited_file_name(__FILE__) << ": "      \
+                         << __LINE__ << " ]" << BLUE << " [DEBUG] "          \
+                         << NONE_FORMAT << (args))
 #define PRINT_DEBUG_FMT(fmt, ...)                             \
   (printf("[ %s: %d ]" BLUE " [DEBUG] " NONE_FORMAT fmt "\n", \
           splited_file_name(__FILE__), __LINE__, __VA_ARGS__))
 
 // INFO
-#define PRINT_INFO(args)                                                \
-  (std::cout << "[ " << splited_file_name(__FILE__) << ": " << __LINE__ \
-             << " ]" << GREEN << " [INFO] " << NONE_FORMAT << (args)    \
-             << std::endl)
+#define PRINT_INFO(args)                                                     \
+  (static_map::LogLine() << "[ " << splited_file_name(__FILE__) << ": "      \
+                         << __LINE__ << " ]" << GREEN << " [INFO] "          \
+                         << NONE_FORMAT << (args))
 #define PRINT_INFO_FMT(fmt, ...)                              \
   (printf("[ %s: %d ]" GREEN " [INFO] " NONE_FORMAT fmt "\n", \
           splited_file_name(__FILE__), __LINE__, __VA_ARGS__))
 
 // WARN
-#define PRINT_WARNING(args)                                              \
-  (std::cout << "[ " << splited_file_name(__FILE__) << ": " << __LINE__  \
-             << " ]" << YELLOW << " [WARNING] " << NONE_FORMAT << (args) \
-             << std::endl)
+#define PRINT_WARNING(args)                                                  \
+  (static_map::LogLine() << "[ " << splited_file_name(__FILE__) << ": "      \
+                         << __LINE__ << " ]" << YELLOW << " [WARNING] "      \
+                         << NONE_FORMAT << (args))
 #define PRINT_WARNING_FMT(fmt, ...)                               \
   (printf("[ %s: %d ]" YELLOW " [WARNING] " NONE_FORMAT fmt "\n", \
           splited_file_name(__FILE__), __LINE__, __VA_ARGS__))
 
 #define PRINT_COLOR(color, args) \
-  (std::cout << color << (args) << NONE_FORMAT << std::endl)
+  (static_map::LogLine() << color << (args) << NONE_FORMAT)
 #define PRINT_COLOR_FMT(color, fmt, ...) \
   (printf(color fmt NONE_FORMAT "\n", __VA_ARGS__))
 
-- 
2.43.0


From c815359676c9ef1e41163f8a410808f135174333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:05 +0000
Subject: [PATCH 25/28] fix: do not search a voxel grid without usable voxels

---
 registrators/pclomp/voxel_grid_covariance_omp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/registrators/pclomp/voxel_grid_covariance_omp.h b/registrators/pclomp/voxel_grid_covariance_omp.h
index 4766965..966f3cd 100644
--- a/registrators/pclomp/voxel_grid_covariance_omp.h
+++ b/registrators/pclomp/voxel_grid_covariance_omp.h
@@ -480,6 +480,10 @@ namespace pclomp
           return 0;
         }
 
+        // The kdtree is not built without any voxel centroid
+        if (voxel_centroids_->empty ())
+          return 0;
+
         // Find neighbors within radius in the occupied voxel centroid cloud
         std::vector<int> k_indices;
         int k = kdtree_.radiusSearch (point, radius, k_indices, k_sqr_distances, max_nn);
-- 
2.43.0


From 75797c4fc5c1ff7c8c6f664d8f280dfb7452e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:53:35 +0000
Subject: [PATCH 26/28] fix: judge loop edges independent of the order the
 registrations finish

---
 back_end/loop_detector.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/back_end/loop_detector.cc b/back_end/loop_detector.cc
index 108dc20..5e4c3f1 100644
--- a/back_end/loop_detector.cc
+++ b/back_end/loop_detector.cc
@@ -227,6 +227,13 @@ DetectResult LoopDetector::AddFrame(const std::shared_ptr<Submap>& frame,
     }
     tasks.wait();
 
+    // the tasks finish in any order, but the result should not depend on it
+    std::sort(result.edges.begin(), result.edges.end(),
+              [](const DetectResult::LoopEdge& a,
+                 const DetectResult::LoopEdge& b) {
+                return a.close_pair_index < b.close_pair_index;
+              });
+
     if (!result.edges.empty()) {
       result.close_succeed = CheckResult(result);
       if (settings_.output_matched_cloud && !result.close_succeed) {
-- 
2.43.0


From 0b1dc256fb8934fe2971bb767c163da6aad3b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:04:28 +0000
Subject: [PATCH 27/28] fix: keep the normals of a cloud that is reloaded from
 disk

---
 builder/data/cloud_types.cc | 6 ++++++
 builder/data/cloud_types.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 13a269f..fe6919b 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -407,12 +407,14 @@ void InnerPointCloudData::CalculateNormals() {
   // Use this carefully, this function is not locked.
   CHECK(eigen_cloud_);
   eigen_cloud_->CalculateNormals();
+  with_normals_ = true;
 }
 
 void InnerPointCloudData::SetInnerCloud(const InnerCloudType::Ptr cloud) {
   boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
   common::WriteMutexLocker write_locker(locker);
   SetInnerCloudImpl(cloud);
+  with_normals_ = false;
 }
 
 void InnerPointCloudData::SetInnerCloudImpl(const InnerCloudType::Ptr cloud) {
@@ -467,6 +469,10 @@ bool InnerPointCloudData::LoadIfNeeded(
     bin_fs.close();
 
     SetInnerCloudImpl(inner_cloud);
+    if (with_normals_) {
+      // The normals are not in the file.
+      eigen_cloud_->CalculateNormals();
+    }
     is_cloud_in_memory_ = true;
     // PRINT_DEBUG("get submap data from disk.");
   }
diff --git a/builder/data/cloud_types.h b/builder/data/cloud_types.h
index 757ebaf..ef285ce 100644
--- a/builder/data/cloud_types.h
+++ b/builder/data/cloud_types.h
@@ -191,6 +191,7 @@ class InnerPointCloudData {
   EigenPointCloud::Ptr eigen_cloud_;
   SimpleTime time_;
   std::string filename_;
+  bool with_normals_ = false;
   std::atomic<bool> is_cloud_in_memory_;
 
   PROHIBIT_COPY_AND_ASSIGN(InnerPointCloudData);
-- 
2.43.0


From ad8b7b64ba852b63889aa2a69359d304c996c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:49:57 +0000
Subject: [PATCH 28/28] fix: interpolate between fixes or odometry poses less
 than a microsecond apart

Two messages with stamps at most 1 us apart ended the program on the next
query between them, although the newer one is accepted and the time between
them is not zero.
---
 builder/data/data_collector.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 18edadd..96ccd09 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -245,7 +245,7 @@ std::unique_ptr<Eigen::Vector3d> DataCollector::InterpolateGps(
 
   CHECK(time >= former_data.time && time <= latter_data.time);
   const double delta_time = (latter_data.time - former_data.time).ToSec();
-  CHECK_GT(delta_time, 1.e-6);
+  CHECK_GT(delta_time, 0.);
   if (delta_time > 0.2 || !former_data.status_fixed ||
       !latter_data.status_fixed) {
     return nullptr;
@@ -295,7 +295,7 @@ std::unique_ptr<Eigen::Matrix4d> DataCollector::InterpolateOdom(
   }
 
   const double delta_time = (latter_data.time - former_data.time).ToSec();
-  CHECK_GT(delta_time, 1.e-6);
+  CHECK_GT(delta_time, 0.);
   if (delta_time > 1.) {
     PRINT_WARNING("some thing wrong with the search");
     return nullptr;
-- 
2.43.0

