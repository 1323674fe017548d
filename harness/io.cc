// I/O and clock seams for C50, C51, C52: files live in a scratch directory behind a fault
// layer at open/read/write; clocks are simulated.
#include "io.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <iostream>
namespace io {
P p; bool quiet = true, crashed = false; static int g_hard[8]; static bool g_ours[1024]; static char g_noshort[1024]; static std::set<std::string> *g_ns;
long long mono_ns, real_off_ns; bool clock_on; double p_clock; int clock_faults[8];
int hard_faults(int t) { return g_hard[t < 0 ? 7 : t]; }
static void hard(const char *what) { int t = sim::self(); g_hard[t < 0 || t > 6 ? 7 : t]++; sim::count(what); }
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
static bool ours(const char *path) { return path && path[0] != '/'; }       // the harness works with relative paths in its scratch directory
static bool active() { return !quiet && sim::self() >= 0; }
static int mark(int fd, const char *path) { if (fd >= 0 && fd < 1024) { g_ours[fd] = true; g_noshort[fd] = g_ns && g_ns->count(path); } return fd; }
void short_ok(const std::string &path, bool ok) { if (!g_ns) g_ns = new std::set<std::string>; if (ok) g_ns->erase(path); else g_ns->insert(path); }
static bool open_fault() { if (p.point) sim::point(); if (crashed) { errno = EIO; return true; } if (sim::fault(K_OPEN, p.open)) { hard("fault.open_failed"); errno = sim::choose(K_OPEN, 2, 0.5) ? EMFILE : EACCES; return true; } return false; }
static FILE *do_fopen(const char *path, const char *mode, const char *which) {
  static auto fo = real<FILE *(*)(const char *, const char *)>("fopen"); static auto f64 = real<FILE *(*)(const char *, const char *)>("fopen64");
  auto f = which[5] ? f64 : fo; if (!ours(path) || !active()) return f(path, mode);
  if (open_fault()) return nullptr;
  FILE *r = f(path, mode); if (r) { mark(fileno(r), path); setvbuf(r, nullptr, _IONBF, 0); } return r;
}
// another process cuts the file at the place it is about to be read from
static void cut_fault(int fd) {
  struct stat st; off_t at; if (p.cut <= 0 || fstat(fd, &st) || (at = lseek(fd, 0, SEEK_CUR)) < 0 || st.st_size - at <= 4 || !sim::fault(K_CUT, p.cut)) return;
  std::string l = "/proc/self/fd/" + std::to_string(fd); if (truncate(l.c_str(), at)) sim::fail("scratch", "cannot cut a scratch file"); hard("fault.file_cut_while_read");
}
// returns bytes to transfer, or -1 with errno set
static ssize_t write_fault(int fd, size_t n) {
  if (p.point) sim::point();
  if (crashed) return -2;
  double tot = p.write + p.shortw + p.intr + p.crash; int c = sim::choose(K_WRITE, 5, tot);
  double w[5] = {0, p.write, p.shortw, p.intr, p.crash};
  if (c && w[c] <= 0) c = 0;
  if (c == 2 && (n < 2 || g_noshort[fd])) c = 0;
  switch (c) {
    case 1: hard("fault.write_error"); errno = sim::choose(K_WRITE, 2, 0.5) ? ENOSPC : EIO; return -1;
    case 2: sim::count("fault.short_write"); return n / 2;
    case 3: sim::count("fault.interrupted_write"); errno = EINTR; return -1;
    case 4: { hard("fault.crash_in_write"); crashed = true; int k = sim::choose(K_WRITE, 3, 0.7); return k == 1 ? (ssize_t)(n / 2) : k == 2 ? (ssize_t)n : -2; } }
  return n;
}
bool slurp(const std::string &path, std::string &out) { Still q; out.clear(); static auto op = real<int (*)(const char *, int, ...)>("open"); static auto rd = real<ssize_t (*)(int, void *, size_t)>("read"); int fd = op(path.c_str(), O_RDONLY); if (fd < 0) return false; char b[65536]; ssize_t n; while ((n = rd(fd, b, sizeof b)) > 0) out.append(b, n); real<int (*)(int)>("close")(fd); return true; }
void put(const std::string &path, const std::string &t) { Still q; static auto op = real<int (*)(const char *, int, ...)>("open"); static auto wr = real<ssize_t (*)(int, const void *, size_t)>("write"); int fd = op(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) sim::fail("scratch", "cannot create %s", path.c_str()); size_t k = 0; while (k < t.size()) { ssize_t n = wr(fd, t.data() + k, t.size() - k); if (n <= 0) sim::fail("scratch", "cannot write %s", path.c_str()); k += n; } real<int (*)(int)>("close")(fd); }
void scratch() {
  std::string d = std::string(getenv("SIM_SCRATCH") ? getenv("SIM_SCRATCH") : "/tmp") + "/io" + std::to_string(getppid()); mkdir(d.c_str(), 0700); if (chdir(d.c_str())) sim::fail("scratch", "no scratch directory");
  for (const char *t : {"a", "b", "c", "x0", "x1", "x2", "y0", "y1", "y2"}) unlink((t + std::string(".log")).c_str());
  for (const char *f : {"a.log", "b.log", "c.log", "shared.log", "x.log", "y.log", "untitled.log", "f0", "f1", "f2", "f3", "dir/in.json", "in.json"}) unlink(f);
}
}  // namespace io
using namespace io;
extern "C" {
FILE *fopen(const char *pa, const char *m) { return do_fopen(pa, m, "fopen"); }
FILE *fopen64(const char *pa, const char *m) { return do_fopen(pa, m, "fopen64"); }
int open(const char *pa, int fl, ...) { static auto f = real<int (*)(const char *, int, ...)>("open"); va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap); if (!ours(pa) || !active()) return f(pa, fl, md); if (open_fault()) return -1; return mark(f(pa, fl, md), pa); }
int open64(const char *pa, int fl, ...) { static auto f = real<int (*)(const char *, int, ...)>("open"); va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap); if (!ours(pa) || !active()) return f(pa, fl, md); if (open_fault()) return -1; return mark(f(pa, fl, md), pa); }
ssize_t write(int fd, const void *b, size_t n) { static auto f = real<ssize_t (*)(int, const void *, size_t)>("write"); if (fd < 0 || fd >= 1024 || !g_ours[fd] || !active() || n == 0) return f(fd, b, n); ssize_t k = write_fault(fd, n); if (k == -2) return (ssize_t)n; if (k < 0) return -1; ssize_t r = f(fd, b, k); return crashed ? (ssize_t)n : r; }
ssize_t writev(int fd, const struct iovec *v, int c) { static auto f = real<ssize_t (*)(int, const struct iovec *, int)>("writev"); if (fd < 0 || fd >= 1024 || !g_ours[fd] || !active()) return f(fd, v, c);
  size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; if (!n) return f(fd, v, c); ssize_t k = write_fault(fd, n); if (k == -2) return (ssize_t)n; if (k < 0) return -1; if ((size_t)k == n) return f(fd, v, c);
  static auto w = real<ssize_t (*)(int, const void *, size_t)>("write"); std::string s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); ssize_t r = w(fd, s.data(), k); return crashed ? (ssize_t)n : r; }
size_t fwrite(const void *b, size_t sz, size_t n, FILE *fl) { static auto f = real<size_t (*)(const void *, size_t, size_t, FILE *)>("fwrite"); int fd = fl ? fileno(fl) : -1; if (fd < 0 || fd >= 1024 || !g_ours[fd] || !active() || sz * n == 0) return f(b, sz, n, fl);
  size_t tot = sz * n, done = 0; while (done < tot) { ssize_t k = write_fault(fd, tot - done); if (k == -2) return n; if (k < 0) { if (errno == EINTR) continue; return done / sz; } done += f((const char *)b + done, 1, k, fl); if (crashed) return n; } return n; }
ssize_t read(int fd, void *b, size_t n) { static auto f = real<ssize_t (*)(int, void *, size_t)>("read"); if (fd < 0 || fd >= 1024 || !g_ours[fd] || !active() || n == 0) return f(fd, b, n); if (p.point) sim::point();
  int c = sim::choose(K_READ, 4, p.read + p.shortr + p.intr); double w[4] = {0, p.read, p.shortr, p.intr}; if (c && w[c] <= 0) c = 0;
  if (!c) cut_fault(fd); if (c == 1) { hard("fault.read_error"); errno = EIO; return -1; } if (c == 2) { sim::count("fault.short_read"); n = n > 3 ? n / 3 : 1; } if (c == 3) { sim::count("fault.interrupted_read"); errno = EINTR; return -1; } return f(fd, b, n); }
size_t fread(void *b, size_t sz, size_t n, FILE *fl) { static auto f = real<size_t (*)(void *, size_t, size_t, FILE *)>("fread"); int fd = fl ? fileno(fl) : -1; if (fd < 0 || fd >= 1024 || !g_ours[fd] || !active()) return f(b, sz, n, fl); if (p.point) sim::point(); struct stat st; long at = ftell(fl); bool tail = fstat(fd, &st) || at < 0 || st.st_size - at <= 4;   /* nothing of an image is left to read */ if (!tail && p.read > 0 && sim::fault(K_READ, p.read)) { hard("fault.read_error"); return 0; } cut_fault(fd); return f(b, sz, n, fl); }
int close(int fd) { static auto f = real<int (*)(int)>("close"); if (fd >= 0 && fd < 1024) g_ours[fd] = false; return f(fd); }
int fclose(FILE *fl) { static auto f = real<int (*)(FILE *)>("fclose"); int fd = fl ? fileno(fl) : -1; bool o = fd >= 0 && fd < 1024 && g_ours[fd]; if (fd >= 0 && fd < 1024) g_ours[fd] = false; if (o && active() && p.point) sim::point(); return f(fl); }
// clocks
int clock_gettime(clockid_t id, struct timespec *ts) { if (!clock_on) { static auto f = real<int (*)(clockid_t, struct timespec *)>("clock_gettime"); return f(id, ts); } long long t = mono_ns + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? real_off_ns : 0); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
int gettimeofday(struct timeval *tv, void *) { if (!clock_on) { timespec t; static auto f = real<int (*)(clockid_t, struct timespec *)>("clock_gettime"); f(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
  if (active() && p_clock > 0 && sim::fault(K_CLOCK, p_clock)) { clock_faults[sim::self() & 7]++; sim::count("fault.clock_call_failed"); errno = EFAULT; return -1; } long long t = mono_ns + real_off_ns; tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000; return 0; }
time_t time(time_t *o) { time_t r; if (!clock_on) { static auto f = real<time_t (*)(time_t *)>("time"); r = f(nullptr); } else r = (mono_ns + real_off_ns) / 1000000000; if (o) *o = r; return r; }
}
sim::Harness *log_harness(); sim::Harness *timer_harness(); sim::Harness *files_harness();
sim::Harness *sim_harness(const std::string &property) { if (property == "C52") return timer_harness(); if (property == "C51") return files_harness(); return log_harness(); }
