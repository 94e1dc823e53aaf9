"""Content-addressed build of /repo's working tree (instrumented) and the worlds."""
import concurrent.futures, fcntl, glob, hashlib, json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = (["-I%s/shim" % VERIF, "-I%s/third_parties" % REPO, "-I%s" % REPO, "-I%s/builder" % REPO] +
       sum([["-isystem", d] for d in ("/usr/include/eigen3", "/usr/include/pcl-1.14", "/usr/include/vtk-9.1",
                                      "/usr/include/ImageMagick-6", "/usr/include/x86_64-linux-gnu/ImageMagick-6")], []))
DEFS = ["-DENABLE_PROFILING", '-D_PROF_LOG_DIR_=".static_mapping_log"', "-DEIGEN_HAS_CXX17_OVERALIGN=0", "-DNDEBUG",
        "-DBOOST_ATOMIC_DYN_LINK", "-DBOOST_FILESYSTEM_DYN_LINK", "-DMAGICKCORE_QUANTUM_DEPTH=16", "-DMAGICKCORE_HDRI_ENABLE=0"]
BASE = ["-std=gnu++14", "-O2", "-w", "-fopenmp", "-fno-omit-frame-pointer"]
INSTR = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-U__SANITIZE_THREAD__"]
REPO_GLOBS = ["common/**/*.cc", "descriptor/**/*.cc", "pre_processors/**/*.cc", "builder/**/*.cc", "back_end/**/*.cc", "registrators/*.cc",
              "ros_node/kitti_reader.cc", "third_parties/pugixml/*.cc"]
# need libraries that are not installed; replaced by headers in shim/
SKIP = {"registrators/icp_pointmatcher.cc"}
LIBS = ["-lpcl_registration", "-lpcl_segmentation", "-lpcl_features", "-lpcl_filters", "-lpcl_sample_consensus", "-lpcl_search",
        "-lpcl_kdtree", "-lpcl_octree", "-lpcl_io", "-lpcl_io_ply", "-lpcl_common", "-lgtsam", "-lmetis-gtsam", "-lGeographicLib", "-lglog", "-lgflags",
        "-ltbb", "-lboost_timer", "-lboost_thread", "-lboost_filesystem", "-lboost_system", "-lboost_serialization", "-lboost_atomic", "-lMagick++-6.Q16",
        "-lpng", "-lX11", "-lgomp", "-ldl", "-lpthread"]


def _existing(libs):
    out = []
    for l in libs:
        n = l[2:]
        if any(glob.glob("%s/lib%s.so" % (d, n)) or glob.glob("%s/lib%s.a" % (d, n))
               for d in ("/usr/lib/x86_64-linux-gnu", "/usr/lib", "/usr/local/lib", "/usr/lib/gcc/x86_64-linux-gnu/13")):
            out.append(l)
    return out


_hash_cache = {}


def fhash(p):
    if p not in _hash_cache:
        try:
            with open(p, "rb") as f:
                _hash_cache[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _hash_cache[p] = "missing"
    return _hash_cache[p]


def parse_deps(dfile):
    try:
        t = open(dfile).read().replace("\\\n", " ")
    except OSError:
        return None
    return [x for x in t.split(":", 1)[1].split() if x.startswith(REPO + "/") or x.startswith(VERIF + "/") or not x.startswith("/usr/")]


def key_for(cmd, deps):
    h = hashlib.sha1(" ".join(cmd).encode())
    for d in sorted(set(deps)):
        h.update(d.encode())
        h.update(fhash(d).encode())
    return h.hexdigest()


def compile_one(src, obj, flags):
    """returns (ok, log)"""
    cmd = ["g++"] + flags + ["-c", src, "-o", obj]
    stamp, dep = obj + ".key", obj + ".d"
    deps = parse_deps(dep)
    if deps is not None and os.path.exists(obj) and os.path.exists(stamp):
        if open(stamp).read() == key_for(cmd, deps):
            return True, ""
    for f in (obj, stamp):
        if os.path.exists(f):
            os.unlink(f)
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd + ["-MMD", "-MF", dep], capture_output=True, text=True)
    if r.returncode != 0:
        return False, r.stderr[-4000:]
    with open(stamp, "w") as f:
        f.write(key_for(cmd, parse_deps(dep) or []))
    return True, ""


def build(worlds, quiet=True, jobs=None):
    """Builds the named worlds; returns {world: path}. Raises on failure."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    _hash_cache.clear()
    jobs = jobs or os.cpu_count() or 4
    tasks = {}
    for s in ("sim", "interpose", "tsan_rt", "gomp", "io", "main"):
        tasks[os.path.join(BUILD, "sim", s + ".o")] = (os.path.join(VERIF, "sim", s + ".cc"),
                                                      ["-std=gnu++17", "-O2", "-g1", "-w", "-fno-strict-aliasing", "-fno-threadsafe-statics", "-I%s/sim" % VERIF])
    srcs = []
    for g in REPO_GLOBS:
        srcs += sorted(glob.glob(os.path.join(REPO, g), recursive=True))
    srcs = [s for s in srcs if not {"test", "tests", "example", "examples", "sensor_fusions", "deprecated", "multi_trajectory"} & set(os.path.relpath(s, REPO).split("/"))]
    repo_objs = []
    for s in srcs:
        rel = os.path.relpath(s, REPO)
        if rel in SKIP:
            continue
        o = os.path.join(BUILD, "repo", rel.replace("/", "__") + ".o")
        repo_objs.append(o)
        # the descriptor code is pure linear algebra on private data
        inst = [] if rel.startswith(("third_parties", "descriptor")) else INSTR
        tasks[o] = (s, BASE + inst + DEFS + INC)
    for w in worlds:
        o = os.path.join(BUILD, "world", w + ".o")
        tasks[o] = (os.path.join(VERIF, "worlds", w + ".cc"), BASE + INSTR + DEFS + ["-I%s/sim" % VERIF, "-I%s/worlds" % VERIF] + INC)
    order = sorted(tasks, key=lambda o: -os.path.getsize(tasks[o][0]))
    results = {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(compile_one, tasks[o][0], o, tasks[o][1]): o for o in order}
        for f in concurrent.futures.as_completed(futs):
            results[futs[f]] = f.result()
            if not quiet and not futs[f] is None:
                print(("ok   " if results[futs[f]][0] else "FAIL ") + futs[f], file=sys.stderr)
    failed = {o: r[1] for o, r in results.items() if not r[0]}
    if not quiet:
        for o, l in failed.items():
            print(o, l, file=sys.stderr)
    ok_repo = [o for o in repo_objs if o not in failed]
    simo = [os.path.join(BUILD, "sim", s + ".o") for s in ("sim", "interpose", "tsan_rt", "gomp", "io", "main")]
    out = {}
    libs = _existing(LIBS)

    def link(w):
        exe = os.path.join(BUILD, "bin", w)
        wo = os.path.join(BUILD, "world", w + ".o")
        bad = [o for o in simo + [wo] if o in failed]
        if bad:
            return w, None, "compile failed: " + bad[0] + "\n" + failed[bad[0]]
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        cmd = (["g++", "-o", exe, wo] + simo + [arch, "-rdynamic", "-Wl,--as-needed"] + libs +
               ["-Wl,-rpath-link,/usr/lib/x86_64-linux-gnu"])
        h = hashlib.sha1(" ".join(cmd).encode())
        for o in [wo] + simo + ok_repo:
            h.update(open(o + ".key").read().encode())
        k = h.hexdigest()
        st = exe + ".key"
        if os.path.exists(exe) and os.path.exists(st) and open(st).read() == k:
            return w, exe, ""
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            msg = r.stderr[-3000:]
            for o, l in failed.items():
                msg += "\n" + o + ": " + l[:1500]
            return w, None, "link failed: " + msg
        with open(st, "w") as f:
            f.write(k)
        return w, exe, ""

    arch = os.path.join(BUILD, "librepo.a")
    h = hashlib.sha1()
    for o in ok_repo:
        h.update(o.encode())
        h.update(open(o + ".key").read().encode())
    if not (os.path.exists(arch) and os.path.exists(arch + ".key") and open(arch + ".key").read() == h.hexdigest()):
        if os.path.exists(arch):
            os.unlink(arch)
        subprocess.run(["ar", "qcs", arch] + ok_repo, check=True)
        with open(arch + ".key", "w") as f:
            f.write(h.hexdigest())

    errs = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for w, exe, err in ex.map(link, worlds):
            if exe:
                out[w] = exe
            else:
                errs.append("%s: %s" % (w, err))
    lock.close()
    if errs:
        raise RuntimeError("\n".join(errs))
    return out


if __name__ == "__main__":
    ws = sys.argv[1:] or [os.path.basename(f)[:-3] for f in sorted(glob.glob(os.path.join(VERIF, "worlds", "*.cc")))]
    try:
        print(build(ws, quiet=False))
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
