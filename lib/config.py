"""Which worlds decide which property, and how long they search."""
PT = "pthread / futex / OpenMP runtime entry points (simulated)"
CLK = "clocks and sleeps (simulated time)"
REG = "scan registration algorithm (stand-in that returns planned transforms and scores)"
PIPE = ["builder/map_builder.cc", "builder/data/data_collector.cc", "builder/submap.cc", "builder/trajectory.cc", "builder/memory_manager.cc",
        "back_end/isam_optimizer.cc + gtsam", "back_end/loop_detector.cc", "common/*", "pre_processors/*", "pcl, tbb"]
DSK = "disk (real files in a scratch directory; open, write, read, close, allocation and mapping calls pass through the fault injector)"
SPILL = ["builder/submap.cc", "builder/frame.*", "builder/frame_base.cc", "builder/trajectory.cc", "builder/memory_manager.cc", "builder/data/cloud_types.cc", "boost shared_mutex"]
COLL = ["builder/data/data_collector.*", "builder/data/cloud_types.*", "pre_processors/*"]
S = (35, 600)
CHECKS = {
    "C01": dict(worlds=["mapper", "collector"], seconds=S, real=PIPE, stub=[PT, CLK, REG],
                note="random schedules of the sensor, pre-processing and matching threads, up to 24 scans per run (sometimes 700) with finish at random moments; not exhaustive"),
    "C02": dict(worlds=["collector"], seconds=S, real=COLL, stub=[PT, CLK], note="random schedules, merges of 2-5 scans; not exhaustive"),
    "C03": dict(worlds=["mapper"], seconds=S, real=PIPE, stub=[PT, CLK, REG],
                note="whole pipeline, scan counts around multiples of the submap size, random finish moments; up to 5 submaps (sometimes 24); not exhaustive"),
    "C04": dict(worlds=["mapper"], seconds=S, real=PIPE, stub=[PT, CLK, REG],
                note="whole pipeline, registrations of random duration and score; up to 5 submaps (sometimes 24); not exhaustive"),
    "C05": dict(worlds=["mapper"], seconds=S, real=PIPE, stub=[PT, CLK, REG],
                note="whole pipeline with 0-15 scans, random option combinations; bounded by 2000 simulated seconds; not exhaustive"),
    "C06": dict(worlds=["pool"], seconds=S, real=["common/simple_thread_pool.h", "libstdc++ threads, futures"], stub=[PT],
                note="random schedules of 1-6 workers, 1-4 submitters, up to 8 tasks each, sometimes bursts of 400 plus nested ones; not exhaustive"),
    "C07": dict(worlds=["pool"], seconds=S, real=["common/mutex.h", "libstdc++ mutex, condition_variable"], stub=[PT],
                note="random schedules of up to 10 threads with spurious wake-ups; not exhaustive"),
    "C08": dict(worlds=["spill"], seconds=S, real=SPILL, stub=[PT, CLK], note="random schedules of 1-4 reader threads against saving, dropping and reloading of 1-4 submaps; not exhaustive"),
    "C09": dict(worlds=["spill"], seconds=S, real=SPILL, stub=[PT, CLK, DSK], note="random open, write, short-write, full-disk, read and close faults on the spilled files; not exhaustive"),
    "C10": dict(worlds=["spill"], seconds=S, real=["builder/data/cloud_types.cc", "libstdc++ streams"], stub=[PT, DSK],
                note="random clouds, cuts at random bytes, crashes at random write operations, read and write faults; not exhaustive"),
    "C11": dict(worlds=["collector"], seconds=S, real=COLL + ["GeographicLib"], stub=[PT, CLK], note="random schedules and fix sequences of up to 24 (sometimes 600) fixes; not exhaustive"),
    "C12": dict(worlds=["collector"], seconds=S, real=COLL, stub=[PT, CLK], note="random schedules and odometry sequences of up to 24 (sometimes 600) messages; not exhaustive"),
    "C13": dict(worlds=["extrap"], seconds=S, real=["builder/pose_extrapolator.cc", "builder/imu_tracker.cc"], stub=[PT, CLK],
                note="random schedules of a pose thread, an IMU thread and asking threads; lost, doubled and late IMU samples; not exhaustive"),
    "C14": dict(worlds=["mapper", "collector"], seconds=S, real=PIPE, stub=[PT, CLK, REG],
                note="whole pipeline with lost, doubled, late and empty messages from one or three sensor threads, sensor buffers with doubled and late messages; not exhaustive"),
    "C15": dict(worlds=["mrvm"], seconds=S, real=["builder/multi_resolution_voxel_map.*", "tbb concurrent containers"], stub=[PT],
                note="random schedules of the ten insertion threads, 1-4 scans of up to 60 points per run, compared with sequential insertion and a model; not exhaustive"),
    "C16": dict(worlds=["mapper"], seconds=S, real=PIPE, stub=[PT, CLK, REG],
                note="whole pipeline without disk faults, exports compared with the expected map; up to 5 submaps; not exhaustive"),
    "C17": dict(worlds=["mapper"], seconds=S, real=PIPE, stub=[PT, CLK, REG, DSK],
                note="whole pipeline with one exported file or the export directory failing (open, write, allocation, mapping, full disk, close); not exhaustive"),
    "C18": dict(worlds=["package"], seconds=S, real=["builder/map_package.cc", "builder/submap.cc", "builder/multi_resolution_voxel_map.*", "pcl io, pugixml"], stub=[PT, DSK],
                note="random maps of a few submaps, piece sizes and borders, piece files failing to open, allocate, map or write; not exhaustive"),
    "C19": dict(worlds=["loop"], seconds=S, real=["back_end/loop_detector.cc", "builder/submap.cc", "tbb concurrent_vector"], stub=[PT, CLK, REG, "tbb task_group (one simulated thread per task)"],
                note="random histories of up to 24 submaps, random schedules and durations of the registrations, planned results near the limits; not exhaustive"),
    "C20": dict(worlds=["filters"], seconds=S, real=["pre_processors/*", "common/simple_thread_pool.h"], stub=[PT],
                note="random schedules of the threads of one or two filters, clouds of up to 1000 points, compared with a run without interleaving, a model and single filters; not exhaustive"),
    "C21": dict(worlds=["misc"], seconds=S, real=["common/performance/simple_prof.*"], stub=[PT, CLK],
                note="random schedules of threads entering and leaving profiled blocks on a simulated clock; not exhaustive"),
    "C22": dict(worlds=["ndt"], seconds=S, real=["registrators/ndt.cc", "registrators/pclomp/*", "pcl kd-tree"], stub=[PT],
                note="random schedules of the six worker threads, scenes of 30-150 points, compared with the result without threads; not exhaustive"),
    "C23": dict(worlds=["misc"], seconds=S, real=["ros_node/kitti_reader.cc", "common/file_utils.cc"], stub=[PT, DSK],
                note="random directories of complete, cut, empty and unreadable scan files, random open and read errors; not exhaustive"),
    "C24": dict(worlds=["misc"], seconds=S, real=["common/macro_defines.*", "common/file_utils.cc"], stub=[PT, CLK],
                note="random schedules of threads that log, measure and create directories; not exhaustive"),
    "C25": dict(worlds=["mapper"], seconds=S, real=PIPE + ["GeographicLib"], stub=[PT, CLK, REG],
                note="whole pipeline with a GPS receiver at random places, lost, late and invalid fixes; up to 7 submaps; not exhaustive"),
    "C29": dict(worlds=["mapper"], seconds=S, real=PIPE, stub=[PT, CLK, REG],
                note="whole pipeline, a vehicle that stands, moves and turns on the spot, up to 100 scans, random finish moments; not exhaustive"),
    "C34": dict(worlds=["mapper"], seconds=S, real=PIPE, stub=[PT, CLK, REG],
                note="whole pipeline with all four views registered, up to 24 submaps, random finish moments; not exhaustive"),
    "C28": dict(worlds=["join"], seconds=S, real=["tools/join_pieces.cc", "pcl io, pugixml"], stub=[DSK],
                note="random packages of up to 5 pieces, pieces and descriptions missing, empty, cut or unreadable; not exhaustive"),
    "C26": dict(worlds=["mapper"], seconds=S, real=PIPE, stub=[PT, CLK, REG],
                note="whole pipeline with motion compensation, lost, doubled, late and empty scans and IMU samples, up to 12 scans; not exhaustive"),
    "C27": dict(worlds=["mapper"], seconds=S, real=PIPE, stub=[PT, CLK, REG, "tbb task_group (one simulated thread per task)"],
                note="the whole pipeline twice per run, once without interleaving; up to 9 submaps with loop closures; not exhaustive"),
    "C35": dict(worlds=["mapper"], seconds=S, real=PIPE + ["gtsam"], stub=[PT, CLK, REG, "tbb task_group (one simulated thread per task)"],
                note="whole pipeline on paths that cross themselves, up to 10 submaps, compared with one optimisation of all connections; not exhaustive"),
}
