#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every accepted scan is matched exactly once and in order, also at finish",
 "Every laser scan handed to the map builder before finish is requested passes through the configured pre-processing and is given to scan matching exactly once, in arrival order, with its own time stamp and its own points, whatever the relative speed of the sensor thread and the processing threads. Requesting finish loses none of the scans already accepted, and scans handed in after that, or without any point, are ignored.",
 ["schedules", "inputs", "histories"],
 "for every interleaving of sensor thread, pre-processing thread, matching thread and finish request, and every scan sequence",
 "No test builds a collector or a map builder; a loss needs finish to arrive while a scan is still queued before, or inside, the pre-processing thread.",
 ["builder/data/data_collector.cc", "builder/data/data_collector.h", "builder/map_builder.cc"],
 [("hand-over queues guarded by per-sensor mutexes", "builder/data/data_collector.cc DataCollector::AddSensorData / CloudPreProcessing / GetNewCloud"),
  ("drain before stop", "builder/map_builder.cc MapBuilder::ScanMatchProcessing / FinishAllComputations")],
 [("queue before pre-processing", "scans accepted and not yet filtered", "builder/data/data_collector.h"),
  ("queue after pre-processing", "scans waiting for the matcher", "builder/data/data_collector.h")],
 ["clouds returned by GetNewCloud", "source clouds handed to the scan matcher"])

prop("C02", "Merged scans keep all points, the first time stamp and in-order time factors",
 "When N scans are merged into one, the merged scan holds exactly the union of the points of N consecutive accepted scans and no scan contributes to two merged scans. It carries the time stamp of the first of the N scans, and its points carry time factors that start at 0, never decrease in arrival order and stay below 1, however arrival interleaves with processing.",
 ["schedules", "inputs", "configurations"],
 "for every merge count, scan sequence and interleaving with the pre-processing thread",
 "Tests never merge scans; the merged scan is shared between the producer and the pre-processing thread while it is being published.",
 ["builder/data/data_collector.cc", "builder/data/cloud_types.cc"],
 [("accumulation buffer owned by the producer", "builder/data/data_collector.cc DataCollector::AddSensorData"),
  ("cloud concatenation", "builder/data/cloud_types.cc InnerCloudType::operator+=")],
 observe=["clouds returned by GetNewCloud"])

prop("C03", "Every full group of key frames becomes exactly one submap",
 "Consecutive key frames are grouped into submaps of the configured size: each submap holds exactly that many frames, in order, no frame is in two submaps or skipped, and every full group that exists when finish is requested becomes a submap that takes part in the final map. This holds whatever the relative speed of matching, submap building and the finish request.",
 ["schedules", "histories", "configurations"],
 "for every interleaving of matching thread, submap thread and finish, and every key-frame count",
 "The map builder is never run by a test; the losing window is between reading the frame count and reading the running flag.",
 ["builder/map_builder.cc", "builder/submap.cc", "builder/trajectory.cc"],
 [("submap thread polling a concurrent frame list", "builder/map_builder.cc MapBuilder::SubmapProcessing"),
  ("submap becomes full on the last frame", "builder/submap.cc Submap::InsertFrame")],
 [("key-frame list", "frames produced by matching", "builder/map_builder.h")],
 ["submap callback", "path output", "map description xml"])

prop("C04", "Submaps are connected once each, in order, with the matched transform",
 "Every submap after the first is registered exactly once against its predecessor, and exported submap poses follow by chaining, from the first, the accepted registration result or, when its score is below the acceptance limit, the initial guess. The user is notified of submaps in order without gaps, and the result does not depend on the order in which the parallel registrations complete.",
 ["schedules", "histories", "inputs"],
 "for every completion order of the parallel registrations and every accept/reject outcome",
 "No test runs the submap registration pool; ordering bugs need registrations that finish out of order or late relative to the connecting thread.",
 ["builder/map_builder.cc", "builder/submap.cc", "back_end/isam_optimizer.cc"],
 [("pair registrations in a thread pool, connection thread waits for each in order", "builder/map_builder.cc MapBuilder::SubmapPairMatch / ConnectAllSubmap"),
  ("one-shot publication of the transform", "builder/submap.cc Submap::SetMatchedTransformedToNext")],
 [("transform to the next submap", "registration result and its ready flag", "builder/submap.h")],
 ["submap and path callbacks", "map description xml", "inputs seen by the registration"])

prop("C05", "Finish always terminates, for any amount of data",
 "After finish is requested the map builder drains its work and the request returns within bounded time for any number of scans (including none, one, or fewer than one submap) and for any scheduling of its threads, without deadlock, livelock, crash or abort. Destroying the builder afterwards leaves no thread behind.",
 ["schedules", "histories", "configurations"],
 "for every interleaving, thread stall and amount of input data",
 "Liveness over all schedules; no test starts the threads.",
 ["builder/map_builder.cc", "builder/memory_manager.cc", "builder/data/data_collector.cc", "common/simple_thread_pool.h"],
 [("stop flags and joins", "builder/map_builder.cc MapBuilder::FinishAllComputations"),
  ("destructors that join", "builder/memory_manager.cc MemoryManager::~MemoryManager, builder/data/data_collector.cc DataCollector::~DataCollector")],
 observe=["return of the finish request", "live threads"])

prop("C06", "The task pool runs every accepted task exactly once and drains on destruction",
 "Every task accepted by the worker pool runs exactly once, its result or its exception reaches the handle returned to the submitter, and destroying the pool first completes all accepted tasks and then ends all workers. Tasks may be submitted from several threads, including from running tasks, and no schedule loses a wake-up.",
 ["schedules", "inputs"],
 "for every interleaving of submitters, workers and destruction, with spurious wake-ups",
 "Not covered by any test; lost wake-ups need a notify between predicate check and wait.",
 ["common/simple_thread_pool.h"],
 [("queue + condition variable", "common/simple_thread_pool.h ThreadPool::enqueue / worker loop"),
  ("drain and join", "common/simple_thread_pool.h ThreadPool::~ThreadPool")],
 [("task queue", "accepted tasks not yet started", "common/simple_thread_pool.h")],
 ["task side effects", "futures"])

prop("C07", "The conditional lock gives mutual exclusion and never misses a wake-up",
 "At most one thread is inside a section guarded by the project's mutex, and a thread waiting under it for a condition continues only when the condition is true and does continue once another thread has made it true and left its section. This holds for any number of waiters and threads and in the presence of spurious wake-ups.",
 ["schedules"],
 "for every interleaving of lockers and waiters",
 "No test uses the lock concurrently; the guarantee is about schedules.",
 ["common/mutex.h"],
 [("lock object that notifies all waiters on release", "common/mutex.h Mutex::Locker"), ("predicate wait", "common/mutex.h Locker::Await")],
 observe=["critical-section occupancy", "waiters left blocked"])

prop("C08", "Spilling clouds to disk and back is invisible to readers",
 "With disk saving enabled, every read of the cloud of a submap or of one of its frames returns the complete, unaltered cloud, whether it is in memory, saved, being dropped from memory or being reloaded, and however often and from however many threads it is read. Data is dropped from memory only after it is saved, and after the configured idle delay.",
 ["schedules", "histories", "configurations"],
 "for every interleaving of readers, saver and background memory manager",
 "Tests round-trip one cloud in one thread; none runs the memory manager against readers.",
 ["builder/submap.cc", "builder/frame.cc", "builder/frame_base.cc", "builder/data/cloud_types.cc", "builder/memory_manager.cc"],
 [("idle timer reset on access", "builder/submap.cc Submap::Cloud / UpdateInactiveTime"),
  ("reload on demand under a read/write lock", "builder/data/cloud_types.cc InnerPointCloudData::CloudInMemory / Clear")],
 [("in-memory flag", "whether the cloud is resident", "builder/data/cloud_types.h")],
 ["clouds returned to callers", "files in the save directory"])

prop("C09", "A disk fault while spilling never loses or corrupts a cloud silently",
 "If writing a cloud to disk fails in any way (open, short or failed write, full disk, failing close), the in-memory cloud is kept and the cloud stays readable in full. A cloud is dropped from memory only when its saved file can reproduce it.",
 ["fault_sequences", "schedules", "histories"],
 "for every placement of disk faults over the saves of a mapping run",
 "Tests use a healthy disk.",
 ["builder/data/cloud_types.cc", "builder/submap.cc", "builder/frame.cc"],
 [("save then clear", "builder/submap.cc Submap::SetMatchedTransformedToNext, builder/frame_base.cc"),
  ("result of the save", "builder/data/cloud_types.cc InnerPointCloudData::SaveToFile")],
 observe=["clouds returned after the fault"])

prop("C10", "Saved clouds reload exactly, and damaged files are rejected",
 "A cloud saved for later reloading and read back is equal to the original in time stamp, point count and every field of every point. A file that is cut short at any byte, as after a crash during the save, or that cannot be read completely is reported as a failure and never accepted as a shorter or altered cloud.",
 ["crash_points", "fault_sequences", "inputs"],
 "for every cloud, every truncation point and every read fault",
 "Tests round-trip intact data only.",
 ["builder/data/cloud_types.cc", "common/simple_time.cc"],
 [("binary serialisation", "builder/data/cloud_types.cc InnerCloudType::Serialize / Deserialize, InnerPointType, SimpleTime::Serialize / Deserialize")],
 observe=["result of Deserialize", "reloaded cloud"])

prop("C11", "GPS position queries return the linear interpolation of bracketing fixes or none",
 "A GPS query for a time returns the linear interpolation of the two valid fixes that bracket it, in one local frame anchored at the first valid fix, or the fix itself within the time tolerance. It returns nothing when the time is outside the data, a bracketing fix is invalid or the fixes are too far apart; concurrent arrival of fixes and discarding of old ones never changes an answer for a time still covered.",
 ["schedules", "inputs", "histories"],
 "for every fix sequence, query sequence and interleaving of the sensor thread with querying threads",
 "No test touches the collector; the reference model is needed for arbitrary histories.",
 ["builder/data/data_collector.cc", "common/simple_time.cc"],
 [("bracketing search and interpolation under the GPS mutex", "builder/data/data_collector.cc DataCollector::InterpolateGps, common/simple_time.h TimeStampBinarySearch"),
  ("trimming", "builder/data/data_collector.cc DataCollector::TrimSensorData")],
 observe=["query answers"])

prop("C12", "Odometry queries return the interpolated pose relative to the first message",
 "An odometry query for a time inside the data returns the pose interpolated between the two bracketing messages (translation linear, rotation along the shortest arc), relative to the first odometry message, and nothing outside the data or across a gap longer than the limit. Concurrent arrival of messages and discarding of old ones never changes an answer for a time still covered.",
 ["schedules", "inputs", "histories"],
 "for every odometry sequence, query sequence and interleaving",
 "No test touches the collector; arbitrary histories need a reference model.",
 ["builder/data/data_collector.cc", "common/math.h"],
 [("bracketing search and interpolation under the odometry mutex", "builder/data/data_collector.cc DataCollector::InterpolateOdom"),
  ("transform interpolation", "common/math.h InterpolateTransform")],
 observe=["query answers"])

prop("C13", "Pose prediction follows the delivered poses and IMU data in any arrival order",
 "The predicted pose for a time is determined by the poses and IMU samples delivered so far: with constant velocity and turn rate it continues that motion, with IMU data it follows the measured rotation since the newest pose, and asking repeatedly for the same time gives the same answer. Interleaving IMU arrival, pose arrival and prediction from different threads never changes the answer beyond what was delivered when it was asked, and never crashes.",
 ["schedules", "inputs", "histories"],
 "for every interleaving of the sensor thread (IMU) with the matching thread (poses, predictions)",
 "The extrapolator has no test; IMU and poses reach it from two threads.",
 ["builder/pose_extrapolator.cc", "builder/imu_tracker.cc"],
 [("state guarded by the extrapolator mutex", "builder/pose_extrapolator.cc PoseExtrapolator::AddPose / AddImuData / ExtrapolatePose")],
 observe=["predicted poses"])

prop("C14", "Late, duplicated, reordered or dropped sensor messages never abort mapping",
 "No delay, duplication, reordering, emptiness or loss of scan, IMU or GPS messages makes the map builder crash or abort, and the same holds for odometry messages in the sensor buffer. Stale messages are ignored and change neither the result for the other messages nor what they are matched against, and mapping finishes with every scan that was newer than all before it.",
 ["fault_sequences", "histories", "schedules"],
 "for every message-level fault sequence on the four sensor streams",
 "Needs message faults on a running multi-threaded pipeline; no test starts one.",
 ["builder/map_builder.cc", "builder/data/data_collector.cc", "builder/pose_extrapolator.cc", "builder/imu_tracker.cc"],
 [("time checks on arrival", "builder/map_builder.cc MapBuilder::InsertPointcloudMsg / InsertImuMsg / InsertGpsMsg / InsertOdomMsg"),
  ("monotone time requirements", "builder/data/data_collector.cc DataCollector::AddSensorData, builder/pose_extrapolator.cc, builder/imu_tracker.cc")],
 observe=["process survival", "frames produced"])

prop("C15", "Voxel-map insertion gives the same map for every thread interleaving",
 "Inserting the same scans into the multi-resolution voxel map yields the same occupancy, the same maximum intensity and the same number of stored points per cell for every interleaving of the parallel insertion threads, equal to a sequential insertion. No cell ever stores more points than the configured maximum, a cell that a scan hits takes no miss from that scan, and no other hit or miss is lost.",
 ["schedules", "inputs", "configurations"],
 "for every interleaving of the insertion threads, every scan and setting",
 "No test for the voxel map; the updates are read-modify-write on shared cells from ten threads.",
 ["builder/multi_resolution_voxel_map.cc", "builder/multi_resolution_voxel_map.h"],
 [("parallel ray casting over concurrent cells", "builder/multi_resolution_voxel_map.cc MultiResolutionVoxelMap::InsertPointCloud")],
 [("cell probability / points / intensity", "per-voxel state", "builder/multi_resolution_voxel_map.h")],
 ["OutputToPointCloud"])

prop("C16", "The exported map, path and description are complete and agree with each other",
 "When finish returns, the exported whole map (or the union of the parts, each of at most the configured number of submaps) contains exactly the points of every submap at its final pose. The path output has one entry per frame in order with its final pose, and the map description lists every submap once with its final pose and connections.",
 ["schedules", "configurations", "histories"],
 "for every schedule, amount of data and export configuration",
 "No test exports a map; completeness depends on which thread finishes last.",
 ["builder/map_builder.cc", "builder/trajectory.cc", "builder/submap.cc"],
 [("export after the final optimisation", "builder/map_builder.cc MapBuilder::ConnectAllSubmap / OutputPath / SaveMaps"),
  ("description", "builder/trajectory.cc Trajectory::ToXmlNode / OutputPathToPointcloud")],
 observe=["whole_map / part_map files", "path.csv", "map.xml"])

prop("C17", "A disk fault on one exported file costs at most that file",
 "If writing one of the exported files fails (it cannot be created, the disk is full, an I/O error, a missing export directory), finish still returns, the process survives, and every other exported file is still written completely.",
 ["fault_sequences", "schedules"],
 "for every placement of disk faults over the export phase",
 "Tests use a healthy disk and export nothing.",
 ["builder/map_builder.cc", "builder/trajectory.cc", "builder/map_package.cc", "common/file_utils.cc"],
 [("independent writers", "builder/map_builder.cc MapBuilder::OutputPath / SaveMaps / SaveMapPackage")],
 observe=["exported files", "return of finish"])

prop("C18", "The map package covers the whole map with consistent pieces",
 "Every mapped point that lies in the area of a piece is in that piece's file relative to the piece centre, and the listed pieces together hold every mapped point. Exactly the pieces that contain points and whose file could be written completely are listed in the package description; a piece whose file cannot be written is left out and the others are still written. The result does not depend on thread interleaving.",
 ["schedules", "inputs", "configurations"],
 "for every interleaving of the piece builders, every map extent and package setting",
 "No test builds a package.",
 ["builder/map_package.cc", "builder/multi_resolution_voxel_map.cc", "tools/join_pieces.cc"],
 [("grid of overlapping pieces", "builder/map_package.cc")],
 observe=["piece files", "package description"])

prop("C19", "Accepted loop closures are consistent and independent of task order",
 "A loop edge is reported only between submaps that are more than the configured number of submaps apart in history and within the configured distance, with the registered transform and a registration score above the acceptance limit, and every such registration that was made is reported. A loop closure is accepted only for two or more edges that agree with each other. Edges, transforms and acceptance do not depend on the order in which the parallel registrations run.",
 ["schedules", "histories", "configurations"],
 "for every interleaving of the registration tasks, every trajectory and registration outcome",
 "The loop detector has no test and is not even compiled where the tests run.",
 ["back_end/loop_detector.cc", "back_end/view_graph.cc"],
 [("candidate selection and task group", "back_end/loop_detector.cc LoopDetector::AddFrame"),
  ("mutual consistency check", "back_end/loop_detector.cc CheckResult")],
 observe=["detection result"])

prop("C20", "Parallel pre-processing gives the same points for every thread interleaving",
 "Each pre-processing filter that splits its work over threads keeps and removes exactly the same points, in an order consistent with its result indices, for every interleaving of its threads, and every input point is either kept or removed exactly once. A filter chain gives the output of applying its filters one after the other.",
 ["schedules", "inputs", "configurations"],
 "for every interleaving of the filter's worker threads, every cloud and setting",
 "Tests run each filter once under the operating system's schedule.",
 ["pre_processors/filter_range.cc", "pre_processors/filter_ground_removal.cc", "pre_processors/filter_ground_removal2.cc", "pre_processors/filter_factory.cc"],
 [("parallel loops and per-thread tasks", "pre_processors/filter_range.cc, pre_processors/filter_ground_removal2.cc"),
  ("inlier/outlier index lists", "pre_processors/filter_interface.cc")],
 observe=["inliers, outliers and output cloud"])

prop("C21", "Profiling counts every measured block exactly once",
 "Every execution of a profiled block from any thread is recorded exactly once under its own name, and the summary reports for each block the number of executions and their total, minimum, maximum and average time. Concurrent first use from several threads loses nothing.",
 ["schedules"],
 "for every interleaving of threads entering and leaving profiled blocks",
 "No test for profiling; loss needs two threads registering a block at the same time.",
 ["common/performance/simple_prof.cc", "common/performance/simple_prof.h"],
 [("per-block duration lists under a mutex", "common/performance/simple_prof.cc TimerManager")],
 observe=["profiling summary"])

prop("C22", "Parallel NDT registration gives the same result for every thread interleaving",
 "Registering the same pair of clouds from the same guess gives the same transform and score for every interleaving of the worker threads, equal to the single-threaded result up to rounding. A cloud that is too sparse for the transform never crashes the registration.",
 ["schedules", "inputs"],
 "for every interleaving of the registration's worker threads",
 "No registration test; derivative accumulation is shared between threads.",
 ["registrators/ndt.cc", "registrators/pclomp/ndt_omp_impl.hpp", "registrators/pclomp/voxel_grid_covariance_omp_impl.hpp"],
 [("per-point partial sums reduced in order", "registrators/pclomp/ndt_omp_impl.hpp computeDerivatives")],
 observe=["Align result and score"])

prop("C23", "KITTI scans are read completely, in order, or skipped on read errors",
 "Every readable scan file of a KITTI directory is delivered exactly once, in file-name order, with every complete point record and its scaled intensity. A file that cannot be opened or read, or has no complete record, is skipped, and the later scans are still delivered unchanged; a file that ends inside a record gives its complete records.",
 ["fault_sequences", "inputs", "histories"],
 "for every directory content and every placement of open/read faults",
 "No test reads KITTI data, and the node that does is not compiled where the tests run.",
 ["ros_node/kitti_reader.cc", "common/file_utils.cc"],
 [("directory listing and fixed-record reading", "ros_node/kitti_reader.cc")],
 observe=["clouds passed to the callback"])

prop("C24", "Logging and directory helpers are safe when called from many threads",
 "Concurrent log lines from different threads each carry their own source location, text and measured time, and ensuring a directory exists succeeds for every caller when several threads ensure the same directory at once. No interleaving corrupts a message or reports a failure for a directory that exists.",
 ["schedules", "fault_sequences"],
 "for every interleaving of threads that log and create directories",
 "Tests are single threaded.",
 ["common/macro_defines.cc", "common/macro_defines.h", "common/file_utils.cc"],
 [("source location formatting", "common/macro_defines.cc"), ("directory creation", "common/file_utils.cc")],
 observe=["printed lines", "results of directory creation"])

prop("C25", "With enough GPS fixes the whole export is in the GPS frame",
 "When enough submaps have a valid GPS position and the vehicle has turned enough for an alignment, the submap poses, the path, the description and the map are all exported in one local frame anchored at the first fix, in which the submaps lie on their fixes; otherwise all of them stay in the map frame. Lost, late, doubled or invalid fixes are never used as positions and never make the exported files disagree about the frame.",
 ["schedules", "inputs", "fault_sequences"],
 "for every placement of the receiver, every loss, delay or invalid fix, and every interleaving of the sensor and processing threads",
 "No test feeds GPS fixes to the map builder; the fixes are attached to frames by one thread while another delivers them, and the frame change happens once at finish over all submaps.",
 ["builder/map_builder.cc", "back_end/isam_optimizer.cc", "builder/data/data_collector.cc", "builder/submap.cc"],
 [("alignment of key frames to fixes", "back_end/isam_optimizer.cc"), ("frame change of all submaps and frames", "builder/map_builder.cc MapBuilder::CalculateCoordTransformToGps"),
  ("related fix of a frame", "builder/data/data_collector.cc")],
 observe=["path output", "map description xml", "exported map points", "submap callback"])

prop("C26", "Motion compensation moves every point by the motion up to its own time",
 "With motion compensation enabled, every point of a scan is moved by that part of the motion since the previously matched scan that corresponds to the point's time within the scan: scan matching sees the predicted motion applied, key frames and the exported map the matched motion. Each compensation starts from the points as delivered, so no motion is ever applied twice, and lost, late, doubled or empty messages do not change this.",
 ["schedules", "inputs", "fault_sequences"],
 "for every scan sequence, matching result, message fault and interleaving",
 "No test runs matching with compensation; a doubled or missing compensation only shows when the prediction and the match differ and the history of key frames matters.",
 ["builder/map_builder.cc", "builder/data/cloud_types.cc"],
 [("prediction before and match after the registration", "builder/map_builder.cc MapBuilder::ScanMatchProcessing"), ("per-point motion", "builder/map_builder.cc")],
 [("motion since the last key frame", "accumulated matched motion", "builder/map_builder.cc")],
 ["source clouds handed to the scan matcher", "clouds of key frames", "exported map points"])

prop("C27", "The same scans give the same map for every thread timing",
 "The exported poses, path, description and map depend only on the sensor data and the settings, not on the relative speed of matching, submap building, submap registration and loop closing: the same scans processed with any thread timing give the same files, also when loop closures change the poses.",
 ["schedules"],
 "for every interleaving of all threads of the map builder over the same input",
 "One test run sees one timing; two timings with the same data are never compared.",
 ["builder/map_builder.cc", "back_end/loop_detector.cc", "back_end/isam_optimizer.cc", "builder/submap.cc"],
 [("submaps connected in order", "builder/map_builder.cc MapBuilder::ConnectAllSubmap"), ("loop detection per connected submap", "back_end/loop_detector.cc"),
  ("pose graph update", "back_end/isam_optimizer.cc")],
 observe=["path output", "map description xml", "exported map points", "submap callback"])

prop("C28", "Joining a map package uses every intact piece and only intact pieces",
 "Joining a map package writes one map that holds every point of every listed intact piece exactly once at its place in the map. A piece that is missing, unreadable or cut short in its points adds nothing and does not keep the other pieces out, and a missing or damaged package description is reported as a failure without writing a map.",
 ["inputs", "fault_sequences"],
 "for every package and every combination of missing, cut or unreadable files",
 "The join tool has no test and failures need damaged files or read errors.",
 ["tools/join_pieces.cc", "builder/map_package.cc"],
 [("reading the listed pieces", "tools/join_pieces.cc main"), ("piece positions", "builder/map_package.h")],
 observe=["joined map file", "exit status"])

prop("C29", "A scan becomes a key frame exactly when it moved or turned far enough",
 "Every scan is matched against the newest key frame, and it becomes the next key frame exactly when the matched motion since that key frame reaches the configured distance or, if one is configured, the configured angle; the first scan always is one. The pose of a key frame is the pose of the key frame before it moved by the matched motion, and exactly the key frames of complete submaps appear on the exported path, for every thread timing.",
 ["schedules", "inputs", "histories"],
 "for every sequence of matched motions (standing, moving, turning on the spot) and every interleaving of matching, submap building and finish",
 "No test runs scan matching; a wrong choice shows only after several scans between key frames and through the frames that reach the path.",
 ["builder/map_builder.cc", "builder/trajectory.cc"],
 [("motion filter", "builder/map_builder.cc MapBuilder::ScanMatchProcessing"), ("key-frame list", "builder/map_builder.cc MapBuilder::InsertFrameForSubmap")],
 [("motion since the newest key frame", "matched motion that decides about the next key frame", "builder/map_builder.cc")],
 ["pairs given to the scan matcher", "path output"])

prop("C34", "Live views show exactly the finished part of the map",
 "While mapping runs, every submap that has been joined to its predecessor is shown exactly once, in order, with all its points and its pose. Each shown path and each shown graph lists exactly the submaps finished so far, in order and at their poses, and each shown map holds only points of finished submaps at their right places. This holds for every thread timing, and the last shown path has every submap.",
 ["schedules", "histories"],
 "for every interleaving of matching, submap building, submap registration and joining, and every moment of finish",
 "No test registers a view; the views read shared submaps while other threads still add and register them.",
 ["builder/map_builder.cc", "back_end/isam_optimizer.cc", "back_end/view_graph.cc"],
 [("joining and showing", "builder/map_builder.cc MapBuilder::ConnectAllSubmap"), ("graph", "back_end/view_graph.cc ViewGraph::AddVertex, AddEdge")],
 [("finished submaps", "submaps that have their pose", "builder/map_builder.cc")],
 ["functions registered for showing submaps, path, map and edges"])

prop("C35", "Loop closures that are found take effect on the whole exported map",
 "Every accepted loop registration connects two submaps that lie farther apart in sequence than the configured gap and were matched with at least the accepted score, and all accepted registrations of a found closure are used together. When mapping ends, the exported submap poses are the joint optimum of all sequential matches and all accepted loop registrations, the first submap stays fixed, and the exported path, track and map use exactly these poses for every thread timing.",
 ["schedules", "histories", "inputs"],
 "for every interleaving of submap joining, loop search and finish, and every set of loop registrations along a run",
 "No test closes a loop; the poses are corrected by one thread while others still match and add submaps, and an uncorrected export looks plausible.",
 ["builder/map_builder.cc", "back_end/isam_optimizer.cc", "back_end/loop_detector.cc", "back_end/view_graph.cc"],
 [("joining and loop search", "builder/map_builder.cc MapBuilder::ConnectAllSubmap"), ("pose graph", "back_end/isam_optimizer.cc IsamOptimizer"), ("edge choice", "back_end/loop_detector.cc LoopDetector")],
 [("pose graph", "submap poses, sequential and loop connections", "back_end/isam_optimizer.cc")],
 ["exported map description", "path output", "track output", "map pieces"])

prop("C30", "Time stamps convert, order and subtract exactly",
 "Time stamps convert between seconds, nanoseconds and sensor units without loss beyond one unit, order consistently and satisfy the arithmetic identities of a time line.",
 ["inputs"], "for every time value",
 "Tests try a few values.",
 ["common/simple_time.cc", "common/simple_time.h"],
 [("second/nanosecond normalisation", "common/simple_time.cc")], observe=["return values"])

prop("C31", "Point filters keep exactly the points their definition says",
 "Range, axis, box and voxel filters keep exactly the points that satisfy their configured limits and report the others as removed.",
 ["inputs", "configurations"], "for every cloud and setting",
 "Tests try a few clouds.",
 ["pre_processors/filter_axis_range.cc", "pre_processors/filter_bounding_box.cc", "pre_processors/filter_range.cc", "pre_processors/filter_voxel_grid.cc"],
 [("per-point predicates", "pre_processors/")], observe=["inliers and outliers"])

prop("C32", "Descriptors of the same place match and of different places do not",
 "The place descriptor of a cloud is invariant to rotation and small noise, and its match score separates equal from different places.",
 ["inputs"], "for every cloud and rigid motion",
 "No test for descriptors; needs arbitrary clouds.",
 ["descriptor/m2dp.cc"], [("signature matrix", "descriptor/m2dp.cc")], observe=["match score"])

prop("C33", "Geometry helpers satisfy their algebraic identities",
 "Angle normalisation, Euler/quaternion/matrix conversions, rigid transform interpolation, bounding boxes and the octree satisfy their defining identities for every finite input.",
 ["inputs"], "for every finite input",
 "Tests try a few inputs.",
 ["common/math.h", "common/math.cc", "common/bounding_box.cc", "common/octree.cc"],
 [("closed-form conversions", "common/math.h")], observe=["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
