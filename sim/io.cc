// Disk seam: libc file functions, with faults for files below disk.root.
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <pwd.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
DiskFaults disk;
static std::map<int, std::string>* g_fd;
static std::map<std::string, int>* g_hits;
static int g_total_faults = 0;
static int64_t g_crash_ops = -1;
static bool g_crashed = false;
static int64_t g_written = 0;

int disk_faults_on(const std::string& p) {
  if (!g_hits) return 0;
  auto it = g_hits->find(p);
  return it == g_hits->end() ? 0 : it->second;
}
int disk_faults_total() { return g_total_faults; }
void set_crash_after_write_ops(int64_t n) { g_crash_ops = n; }
bool crashed() { return g_crashed; }

static std::string absolute(const char* p) {
  if (!p) return "";
  std::string s;
  if (p[0] == '/') s = p;
  else {
    char buf[4096];
    if (!getcwd(buf, sizeof buf)) return p;
    s = std::string(buf) + "/" + p;
  }
  // drop duplicate slashes and "./"
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '/' && !o.empty() && o.back() == '/') continue;
    if (s[i] == '.' && !o.empty() && o.back() == '/' && i + 1 < s.size() && s[i + 1] == '/') {
      i++;
      continue;
    }
    o += s[i];
  }
  return o;
}
static std::map<std::string, uint64_t>* g_read_opens;
uint64_t disk_read_opens(const std::string& p) {
  if (!g_read_opens) return 0;
  auto it = g_read_opens->find(absolute(p.c_str()));
  return it == g_read_opens->end() ? 0 : it->second;
}
static bool in_scope(const std::string& p) {
  return self && disk.enabled && !disk.root.empty() && p.compare(0, disk.root.size(), disk.root) == 0 &&
         (disk.only.empty() || p.find(disk.only) != std::string::npos);
}
static void hit(const std::string& p) {
  if (!g_hits) g_hits = new std::map<std::string, int>;
  (*g_hits)[p]++;
  g_total_faults++;
}
static const std::string* path_of(int fd) {
  if (!self || !disk.enabled || !g_fd) return nullptr;
  auto it = g_fd->find(fd);
  return it == g_fd->end() ? nullptr : &it->second;
}
static void remember(int fd, const std::string& p) {
  if (!g_fd) g_fd = new std::map<int, std::string>;
  (*g_fd)[fd] = p;
}
static int f(const char* kind, double p, int n = 2) { return fault_choice(kind, p, n); }
static int err_of(int v) { return v == 1 ? ENOSPC : v == 2 ? EIO : EACCES; }

// how many of n bytes get written; -1 = error (errno set)
static ssize_t plan_write(int fd, const std::string& p, size_t n) {
  (void)fd;
  if (g_crashed) return -2;  // pretend
  if (g_crash_ops >= 0) {
    if (g_crash_ops == 0) {
      g_crashed = true;
      event("crash during write to %s", p.c_str() + disk.root.size());
      return -3;  // torn
    }
    g_crash_ops--;
  }
  if (disk.disk_full_after >= 0) {
    if (g_written >= disk.disk_full_after) {
      count("fault.disk_full");
      rep->faults++;
      hit(p);
      errno = ENOSPC;
      return -1;
    }
    if (g_written + (int64_t)n > disk.disk_full_after) {
      size_t m = (size_t)(disk.disk_full_after - g_written);
      g_written += m;
      if (m == 0) m = 1;
      return (ssize_t)m;
    }
  }
  int v = f("disk_write", disk.p_write, 3);
  if (v) {
    hit(p);
    errno = err_of(v);
    return -1;
  }
  if (n > 1 && f("disk_short_write", disk.p_short)) {
    size_t m = 1 + (n > 1 ? (size_t)(hash64(n, rep->faults) % (n - 1)) : 0);
    g_written += m;
    return (ssize_t)m;
  }
  g_written += n;
  return (ssize_t)n;
}
}  // namespace sim
using namespace sim;

#define REAL(ret, name, ...)                                      \
  static ret (*real)(__VA_ARGS__) = nullptr;                      \
  if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

extern "C" {

static int open_fault(const std::string& p, bool wr) {
  step_sync("io");
  if (!wr) {
    if (!g_read_opens) g_read_opens = new std::map<std::string, uint64_t>;
    (*g_read_opens)[p]++;
  }
  int v = wr ? f("disk_open", disk.p_open, 4) : f("disk_open_read", disk.p_open_read, 4);
  if (v) {
    hit(p);
    errno = v == 1 ? ENOSPC : v == 2 ? EIO : EMFILE;
    if (!wr && errno == ENOSPC) errno = EACCES;
  }
  return v;
}

// process table seam: what a simulated thread reads below /proc, its process
// id and its home directory depend on the run only
static const int kSimPid = 4242;
static int proc_file(const char* path) {
  if (!self || !path || strncmp(path, "/proc/", 6)) return -1;
  const char* base = strrchr(path, '/') + 1;
  unsigned long t = (unsigned long)(now_ps() / 10000000000ull);  // 100 ticks per second
  char b[512];
  int n;
  if (!strcmp(path, "/proc/stat"))
    n = snprintf(b, sizeof b, "cpu  %lu 0 %lu %lu 0 0 0 0 0 0\n", 1000000 + 4 * t, 1000000 + t, 1000000 + 3 * t);
  else if (!strcmp(base, "stat"))
    n = snprintf(b, sizeof b, "%d (sim) R 1 %d %d 0 -1 4194304 9 0 0 0 %lu %lu 0 0 20 0 1 0 1 1000000 1000\n", kSimPid, kSimPid,
                 kSimPid, 100000 + 2 * t, 100000 + t);
  else if (!strcmp(base, "status"))
    n = snprintf(b, sizeof b, "Name:\tsim\nState:\tR (running)\nPid:\t%d\nVmSize:\t  200000 kB\nVmRSS:\t   50000 kB\nThreads:\t4\n",
                 kSimPid);
  else
    return -1;
  int fd = memfd_create("proc", 0);
  if (fd < 0) return -1;
  if (::pwrite(fd, b, n, 0) != n) {}
  return fd;
}
pid_t getpid() {
  REAL(pid_t, getpid);
  return self ? kSimPid : real();
}
struct passwd* getpwuid(uid_t u) {
  REAL(struct passwd*, getpwuid, uid_t);
  if (!self) return real(u);
  static struct passwd pw;
  static char home[4096];
  const char* h = getenv("HOME");
  snprintf(home, sizeof home, "%s", h ? h : "/nonexistent");
  pw.pw_name = (char*)"sim";
  pw.pw_passwd = (char*)"x";
  pw.pw_uid = u;
  pw.pw_gid = (gid_t)u;
  pw.pw_gecos = (char*)"";
  pw.pw_dir = home;
  pw.pw_shell = (char*)"/bin/false";
  return &pw;
}

FILE* fopen64(const char* path, const char* mode) {
  REAL(FILE*, fopen64, const char*, const char*);
  int pf = proc_file(path);
  if (pf >= 0) return fdopen(pf, "r");
  std::string p = self && disk.enabled ? absolute(path) : "";
  bool sc = !p.empty() && in_scope(p);
  if (sc && open_fault(p, mode[0] != 'r')) return nullptr;
  FILE* r = real(path, mode);
  if (r && sc) remember(fileno(r), p);
  return r;
}
FILE* fopen(const char* path, const char* mode) { return fopen64(path, mode); }

static int do_open(const char* path, int flags, mode_t m) {
  REAL(int, open64, const char*, int, ...);
  int pf = proc_file(path);
  if (pf >= 0) return pf;
  std::string p = self && disk.enabled ? absolute(path) : "";
  bool sc = !p.empty() && in_scope(p);
  if (sc && open_fault(p, (flags & O_ACCMODE) != O_RDONLY)) return -1;
  int r = real(path, flags, m);
  if (r >= 0 && sc) remember(r, p);
  return r;
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(path, flags, m);
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(path, flags, m);
}
int creat(const char* path, mode_t m) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t real_write(int fd, const void* b, size_t n) {
  REAL(ssize_t, write, int, const void*, size_t);
  return real(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  const std::string* p = path_of(fd);
  if (!p) return real_write(fd, b, n);
  step_sync("io");
  ssize_t m = plan_write(fd, *p, n);
  if (m == -2) return n;
  if (m == -3) {
    if (n > 1) real_write(fd, b, n / 2);
    return n;
  }
  if (m < 0) return -1;
  return real_write(fd, b, m);
}
ssize_t writev(int fd, const struct iovec* v, int cnt) {
  REAL(ssize_t, writev, int, const struct iovec*, int);
  const std::string* p = path_of(fd);
  if (!p) return real(fd, v, cnt);
  step_sync("io");
  size_t n = 0;
  for (int i = 0; i < cnt; i++) n += v[i].iov_len;
  ssize_t m = plan_write(fd, *p, n);
  if (m == -2) return n;
  if (m == -3) {
    real_write(fd, v[0].iov_base, v[0].iov_len / 2);
    return n;
  }
  if (m < 0) return -1;
  if ((size_t)m == n) return real(fd, v, cnt);
  size_t left = m, done = 0;
  for (int i = 0; i < cnt && left; i++) {
    size_t k = v[i].iov_len < left ? v[i].iov_len : left;
    ssize_t w = real_write(fd, v[i].iov_base, k);
    if (w < 0) return done ? (ssize_t)done : -1;
    done += w;
    left -= w;
  }
  return done;
}
static ssize_t real_read(int fd, void* b, size_t n) {
  REAL(ssize_t, read, int, void*, size_t);
  return real(fd, b, n);
}
ssize_t read(int fd, void* b, size_t n) {
  const std::string* p = path_of(fd);
  if (!p) return real_read(fd, b, n);
  step_sync("io");
  int v = f("disk_read", disk.p_read, 3);
  if (v == 1 || (v == 2 && !disk.read_eof)) {
    hit(*p);
    errno = EIO;
    return -1;
  }
  if (v == 2) {
    hit(*p);
    return 0;
  }
  if (n > 1 && f("disk_short_read", disk.p_short)) n = 1 + n / 3;
  return real_read(fd, b, n);
}
size_t fwrite(const void* b, size_t sz, size_t n, FILE* fp) {
  REAL(size_t, fwrite, const void*, size_t, size_t, FILE*);
  const std::string* p = path_of(self && disk.enabled ? fileno(fp) : -1);
  if (!p) return real(b, sz, n, fp);
  step_sync("io");
  ssize_t m = plan_write(fileno(fp), *p, sz * n);
  if (m == -2 || m == -3) return n;
  if (m < 0 || (size_t)m < sz * n) {
    if (m > 0) {
      // stdio hides short writes; a short transfer here is a failure
      if (disk.disk_full_after >= 0 && g_written >= disk.disk_full_after) {
        hit(*p);
        size_t w = real(b, 1, m, fp);
        fp->_flags |= 0x20;
        errno = ENOSPC;
        return w / (sz ? sz : 1);
      }
      return real(b, sz, n, fp);
    }
    fp->_flags |= 0x20;
    return 0;
  }
  return real(b, sz, n, fp);
}
size_t fread(void* b, size_t sz, size_t n, FILE* fp) {
  REAL(size_t, fread, void*, size_t, size_t, FILE*);
  const std::string* p = path_of(self && disk.enabled ? fileno(fp) : -1);
  if (!p) return real(b, sz, n, fp);
  step_sync("io");
  int v = f("disk_read", disk.p_read, 3);
  if (v) {
    hit(*p);
    // part of the data, then an error / early end
    size_t k = v == 1 ? 0 : n / 2;
    size_t r = k ? real(b, sz, k, fp) : 0;
    fp->_flags |= 0x20;
    errno = EIO;
    return r;
  }
  return real(b, sz, n, fp);
}
static int real_close(int fd) {
  REAL(int, close, int);
  return real(fd);
}
static void lose_tail(const std::string& p) {
  struct stat st;
  if (stat(p.c_str(), &st) == 0 && st.st_size > 0) {
    if (truncate(p.c_str(), st.st_size - 1 - st.st_size / 4)) {}
  }
}
int close(int fd) {
  const std::string* pp = path_of(fd);
  if (!pp) {
    if (g_fd && self) g_fd->erase(fd);
    return real_close(fd);
  }
  std::string p = *pp;
  step_sync("io");
  int fl = fcntl(fd, F_GETFL);
  bool wr = (fl & O_ACCMODE) != O_RDONLY;
  g_fd->erase(fd);
  int r = real_close(fd);
  if (wr && f("disk_close", disk.p_close)) {
    hit(p);
    lose_tail(p);
    errno = EIO;
    return -1;
  }
  return r;
}
int fclose(FILE* fp) {
  REAL(int, fclose, FILE*);
  int fd = self ? fileno(fp) : -1;
  const std::string* pp = path_of(fd);
  if (!pp) return real(fp);
  std::string p = *pp;
  step_sync("io");
  int fl = fcntl(fd, F_GETFL);
  bool wr = (fl & O_ACCMODE) != O_RDONLY;
  g_fd->erase(fd);
  int r = real(fp);
  if (wr && f("disk_close", disk.p_close)) {
    hit(p);
    lose_tail(p);
    errno = EIO;
    return EOF;
  }
  return r;
}
int fflush(FILE* fp) {
  REAL(int, fflush, FILE*);
  return real(fp);
}
int mkdir(const char* path, mode_t m) {
  REAL(int, mkdir, const char*, mode_t);
  std::string p = self && disk.enabled ? absolute(path) : "";
  if (self) step_sync("io");
  if (!p.empty() && in_scope(p)) {
    int v = f("disk_mkdir", disk.p_mkdir, 4);
    if (v) {
      hit(p);
      errno = err_of(v);
      return -1;
    }
  }
  int r = real(path, m);
  int e = errno;
  if (self) step_sync("io");
  errno = e;
  return r;
}
int rename(const char* a, const char* b) {
  REAL(int, rename, const char*, const char*);
  std::string p = self && disk.enabled ? absolute(b) : "";
  if (!p.empty() && in_scope(p)) {
    step_sync("io");
    int v = f("disk_rename", disk.p_rename, 3);
    if (v) {
      hit(p);
      errno = err_of(v);
      return -1;
    }
  }
  return real(a, b);
}
int posix_fallocate64(int fd, off64_t o, off64_t l) {
  REAL(int, posix_fallocate64, int, off64_t, off64_t);
  const std::string* p = path_of(fd);
  if (p) {
    step_sync("io");
    if (f("disk_fallocate", disk.p_fallocate)) {
      hit(*p);
      return ENOSPC;
    }
    if (disk.disk_full_after >= 0) {
      if (g_written + l > disk.disk_full_after) {
        count("fault.disk_full");
        rep->faults++;
        hit(*p);
        return ENOSPC;
      }
      g_written += l;
    }
  }
  return real(fd, o, l);
}
int posix_fallocate(int fd, off_t o, off_t l) { return posix_fallocate64(fd, o, l); }
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off64_t o) {
  REAL(void*, mmap64, void*, size_t, int, int, int, off64_t);
  if (fd >= 0) {
    const std::string* p = path_of(fd);
    if (p && f("disk_mmap", disk.p_mmap)) {
      hit(*p);
      errno = ENOMEM;
      return MAP_FAILED;
    }
  }
  return real(a, n, prot, flags, fd, o);
}
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t o) { return mmap64(a, n, prot, flags, fd, o); }
}
