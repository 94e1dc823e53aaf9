// World "join": the tool that joins the pieces of a map package (C28), with pieces and descriptions that are
// missing, empty, cut or unreadable.
#include <sys/stat.h>
#include <unistd.h>
#include <map>
#include <set>
#include "common.h"
#define main join_pieces_main
#include "tools/join_pieces.cc"
#undef main
const char* const kWorldName = "join";

namespace {
struct Piece {
  std::string file;
  double x, y;
  size_t header = 0;
  std::map<int, Eigen::Vector3d> pts;  // tag -> position in the map
  int damage = 0;
};
enum { kFine, kMissing, kEmpty, kCut, kUnreadable };
const char* const kDamage[] = {"", "piece_missing", "piece_empty", "piece_cut", ""};
}  // namespace

void world_run(const sim::Spec& spec) {
  static std::string P = spec.prop;
  sim::tuning.liveness_prop = P.c_str();
  auto& w = sim::workload();
  auto& f = sim::faults();
  const std::string dir = spec.scratch + "/pkg/", out = spec.scratch + "/out/";
  mkdir(dir.c_str(), 0755);
  mkdir(out.c_str(), 0755);
  if (chdir(out.c_str())) sim::harness_error("chdir");
  std::vector<Piece> pieces(w.range(0, 5));
  std::string xml = "<?xml version=\"1.0\"?>\n<MapPackage border_offset=\"5\">\n";
  int tag = 0;
  for (size_t i = 0; i < pieces.size(); i++) {
    auto& q = pieces[i];
    q.file = "part_" + std::to_string(i) + "_0.pcd";
    q.x = std::lround(w.real(-400, 400) * 4) / 4.0;
    q.y = std::lround(w.real(-400, 400) * 4) / 4.0;
    pcl::PointCloud<pcl::PointXYZI> c;
    const int n = w.range(1, w.pick<int>({3, 60, 600}));
    for (int k = 0; k < n; k++) {
      pcl::PointXYZI p;
      p.x = (float)w.real(-50, 50);
      p.y = (float)w.real(-50, 50);
      p.z = (float)w.real(-3, 9);
      p.intensity = (float)tag;
      c.push_back(p);
      q.pts[tag++] = Eigen::Vector3d(p.x + q.x, p.y + q.y, p.z);
    }
    if (w.chance(0.7)) pcl::io::savePCDFileBinaryCompressed(dir + q.file, c);
    else pcl::io::savePCDFileBinary(dir + q.file, c);
    {
      std::ifstream in(dir + q.file, std::ios::binary);
      for (std::string l; std::getline(in, l);) {
        q.header += l.size() + 1;
        if (l.compare(0, 4, "DATA") == 0) break;
      }
    }
    char b[300];
    snprintf(b, sizeof b, "<Piece file=\"%s\" x=\"%.2f\" y=\"%.2f\" />\n", q.file.c_str(), q.x, q.y);
    xml += b;
  }
  xml += "</MapPackage>\n";
  const bool faulty = f.chance(0.8);
  const double p = f.pick<double>({0.2, 0.6});
  int unreadable = -1;
  for (size_t i = 0; i < pieces.size(); i++) {
    auto& q = pieces[i];
    if (!faulty || !f.chance(p)) continue;
    q.damage = f.range(kMissing, kUnreadable);
    if (q.damage == kUnreadable && unreadable >= 0) q.damage = kFine;
    const std::string n = dir + q.file;
    struct stat st;
    stat(n.c_str(), &st);
    if (*kDamage[q.damage]) sim::count((std::string("fault.") + kDamage[q.damage]).c_str());
    if (q.damage == kMissing) unlink(n.c_str());
    if (q.damage == kEmpty && truncate(n.c_str(), 0)) sim::harness_error("truncate");
    // A file that ends before its header does is a valid cloud of zeros for the PCD reader: cut in the points only.
    if (q.damage == kCut && truncate(n.c_str(), (off_t)f.range((int)q.header, (int)st.st_size - 1))) sim::harness_error("truncate");
    if (q.damage == kUnreadable) unreadable = (int)i;
  }
  int bad_xml = faulty && f.chance(0.15) ? f.range(1, 2) : 0;
  {
    std::ofstream o(dir + "map_package.xml", std::ios::binary);
    size_t n = xml.size();
    if (bad_xml == 1) {
      n = (size_t)f.below(xml.rfind("</MapPackage>"));
      sim::count("fault.description_cut");
    }
    o << xml.substr(0, n);
  }
  if (bad_xml == 2) {
    unlink((dir + "map_package.xml").c_str());
    sim::count("fault.description_missing");
  }
  sim::disk.root = spec.scratch;
  sim::disk.enabled = true;
  if (unreadable >= 0) {
    sim::disk.only = pieces[unreadable].file;
    const int k = (int)f.below(3);
    if (k == 0) sim::disk.p_open_read = 1;
    if (k == 1) sim::disk.p_read = 1;
    if (k == 2) sim::disk.p_mmap = 1;
  } else {
    sim::disk.p_short = f.pick<double>({0.0, 0.3});
  }
  std::string a0 = "join_pieces", a1 = "-pkg", a2 = dir + "map_package.xml";
  char* argv[] = {&a0[0], &a1[0], &a2[0], nullptr};
  sim::start();
  const int rc = join_pieces_main(3, argv);
  sim::stop();
  sim::disk.enabled = false;
  const bool made = access((out + "whole_static_map.pcd").c_str(), F_OK) == 0;
  sim::event("exit %d made %d", rc, made);
  if (bad_xml) {
    if (rc == 0 || made) sim::violation(P, "bad-description-accepted", "a description that is %s was accepted", bad_xml == 1 ? "cut" : "missing");
    sim::probe("description_rejected");
    return;
  }
  if (rc != 0) sim::violation(P, "failed", "the tool ended with %d", rc);
  pcl::PointCloud<pcl::PointXYZI> got;
  if (made && pcl::io::loadPCDFile(out + "whole_static_map.pcd", got) < 0) sim::violation(P, "unreadable", "the joined map can not be read");
  std::map<int, int> count;
  for (auto& q : got) {
    const int t = (int)std::lround(q.intensity);
    count[t]++;
    const Piece* of = nullptr;
    for (auto& c : pieces)
      if (c.pts.count(t)) of = &c;
    if (!of) sim::violation(P, "alien-point", "the joined map has a point that no piece has");
    if (count[t] > 1) sim::violation(P, "point-twice", "the joined map has a point of %s twice", of->file.c_str());
    const Eigen::Vector3d d = of->pts.at(t) - Eigen::Vector3d(q.x, q.y, q.z);
    if (d.norm() > 0.01) sim::violation(P, "point-moved", "a point of %s is %.3f m away from its place", of->file.c_str(), d.norm());
  }
  int used = 0;
  for (auto& q : pieces) {
    size_t n = 0;
    for (auto& kv : q.pts) n += count.count(kv.first);
    if (n == q.pts.size()) used++;
    if (q.damage == kFine && n != q.pts.size()) sim::violation(P, "point-missing", "the joined map has %zu of the %zu points of the intact %s", n, q.pts.size(), q.file.c_str());
    if (q.damage != kFine && n && n != q.pts.size()) sim::violation(P, "part-of-piece", "the joined map has %zu of the %zu points of the damaged %s", n, q.pts.size(), q.file.c_str());
    if (q.damage != kFine && !n) sim::probe("piece_skipped");
  }
  sim::state(sim::hash64(used, pieces.size() * 8 + unreadable));
}
