// Harness for C30, C31, C32 (calls are independent of other threads and of history) and
// C70 (process-wide instances are created once).
#include "reent.h"
#include "reent_once.h"
#include <algorithm>
#include <iostream>
#include <map>
#include <pthread.h>
#include <set>
#include <streambuf>
// Lua seeds its string hashes from the clock; in a simulated run that is always the same instant.
extern "C" time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
using sim::Op; using sim::Program; using sim::Rng;
namespace reent { std::vector<Call> &calls() { static std::vector<Call> v; return v; } }
namespace reent {
// ---- output capture ----------------------------------------------------------
struct Capture { bool on = false; std::string text; std::vector<uint64_t> seq; };
static Capture g_cap[70]; static uint64_t g_chunk;
static int slot() { int s = sim::self(); return s < 0 ? 69 : s; }
static void put(const char *p, size_t n) { sim::Quiet q; Capture &c = g_cap[slot()]; if (n == 0) return; ++g_chunk; if (c.on) { c.text.append(p, n); c.seq.push_back(g_chunk); } }
void cap_begin() { sim::Quiet q; Capture &c = g_cap[slot()]; c.on = true; c.text.clear(); c.seq.clear(); }
std::string cap_end(bool *contiguous) {
  sim::Quiet q; Capture &c = g_cap[slot()]; c.on = false; *contiguous = true;
  for (size_t i = 1; i < c.seq.size(); i++) if (c.seq[i] != c.seq[i - 1] + 1) *contiguous = false;
  return c.text;
}
static long g_clk[70];
void clock_begin() { g_clk[slot()] = 1; }
void clock_end() { g_clk[slot()] = 0; }
struct Buf : std::streambuf {
  // the terminal takes each piece whole; anything may happen between two pieces
  std::streamsize xsputn(const char *p, std::streamsize n) override { sim::point(); put(p, (size_t)n); sim::point(); return n; }
  int_type overflow(int_type ch) override { if (ch == traits_type::eof()) return 0; char x = (char)ch; sim::point(); put(&x, 1); sim::point(); return ch; }
};
static Buf g_buf;
static ssize_t cookie_write(void *, const char *p, size_t n) { put(p, n); return (ssize_t)n; }
static void capture_streams() {
  std::cerr.rdbuf(&g_buf); std::cout.rdbuf(&g_buf); std::clog.rdbuf(&g_buf);
  cookie_io_functions_t io{}; io.write = cookie_write; FILE *f = fopencookie(nullptr, "w", io); setvbuf(f, nullptr, _IONBF, 0); stdout = f;
}
static std::string perform(const Call &k, uint64_t seed, int op, bool alone) {
  Ctx c(seed, op, alone);
  try { k.fn(c); }
  catch (std::exception &e) { c.leave(); c.out += std::string("!") + typeid(e).name() + ":" + e.what(); }
  catch (...) { c.leave(); c.out += "!?"; }
  return c.out;
}
}
using namespace reent;
#include <sys/syscall.h>
#include <unistd.h>
extern "C" int clock_gettime(clockid_t id, timespec *ts) noexcept {
  long *n = nullptr; { sim::Quiet q; n = &g_clk[slot()]; }
  if (!*n) return (int)syscall(SYS_clock_gettime, id, ts);
  long k = (*n)++; ts->tv_sec = 1000 + k * k; ts->tv_nsec = 1000 * k; return 0;
}
// op: [call, seed]
struct Reent : sim::Harness {
  int prop; std::vector<Call> mine;
  void init() override { for (auto &k : calls()) if (k.prop == prop) mine.push_back(k); std::sort(mine.begin(), mine.end(), [](const Call &a, const Call &b) { return strcmp(a.name, b.name) < 0; }); }
  void generate(Rng &r, Program &p) override {
    int nt = (int)r.range(2, 4), total = (int)r.range(nt, 6), n = (int)mine.size();
    int a = (int)r.below(n), b = (int)r.below(n); double focus = r.unit();
    bool same = r.coin(0.15); long sd = (long)(r.next() >> 8);
    p.hdr = {nt};
    for (int i = 0; i < total; i++) {
      int k = focus < 0.6 ? a : focus < 0.8 ? (r.coin(0.5) ? a : b) : (int)r.below(n);
      p.add(i < nt ? i : (int)r.below(nt), {k, same ? sd : (long)(r.next() >> 8)});
    }
  }
  std::string describe(const Program &p) override {
    std::string s; for (auto &o : p.ops) s += "T" + std::to_string(o.thr) + ":" + mine[o.a[0] % mine.size()].name + "(seed " + std::to_string(o.a[1]) + ") "; return s;
  }
  void run(const Program &p) override {
    capture_streams(); sim::set_horizon(3000); sim::set_step_cap(400000);
    std::map<int, std::string> want, got; std::map<int, std::pair<uint64_t, uint64_t>> when;
    for (auto &o : p.ops) { const Call &k = mine[o.a[0] % mine.size()]; want[o.id] = sim::alone([&] { return perform(k, (uint64_t)o.a[1], o.id, true); }); sim::count(("kind." + std::string(k.name)).c_str()); }
    int nt = (int)p.hdr[0];
    sim::run_threads(nt, [&](int t) {
      for (auto &o : p.ops) if (o.thr == t) {
        const Call &k = mine[o.a[0] % mine.size()]; uint64_t t0 = sim::tick();
        std::string g = perform(k, (uint64_t)o.a[1], o.id, false);
        sim::Quiet q; got[o.id] = g; when[o.id] = {t0, sim::tick()};
        if (sim::verbose()) sim::note("T%d %s(seed %ld) -> %s", t, k.name, o.a[1], g.c_str());
      }
    });
    for (auto &o : p.ops) {
      const char *nm = mine[o.a[0] % mine.size()].name; const std::string &w = want[o.id], &g = got[o.id];
      if (w.compare(0, 6, "<ended") == 0) sim::fail("alone-ended", "%s(seed %ld) ended the process when called alone: %s", nm, o.a[1], w.c_str());
      if (w != g.substr(0, 1 << 16)) sim::fail("result-differs", "%s(seed %ld) in thread %d gave %.160s ; alone it gives %.160s", nm, o.a[1], o.thr, g.c_str(), w.c_str());
      sim::mix(std::hash<std::string>()(g));
      for (auto &o2 : p.ops) if (o2.thr != o.thr && when[o.id].first < when[o2.id].second && when[o2.id].first < when[o.id].second) sim::nontrivial();
    }
  }
};
// ---- C70 ---------------------------------------------------------------------
// op: [service, 0 first use only | 1 then add a key]
struct Once : sim::Harness {
  void generate(Rng &r, Program &p) override {
    int nt = (int)r.range(2, 4), s = (int)r.below(once::n_services); bool mixed = r.coin(0.3), af = r.coin(0.3);
    p.hdr = {nt, af};
    int total = (int)r.range(nt, nt + 3);
    for (int i = 0; i < total; i++) p.add(i < nt ? i : (int)r.below(nt), {mixed ? r.below(once::n_services) : s, r.coin(0.6)});
  }
  std::string describe(const Program &p) override {
    std::string s = p.hdr[1] ? "(allocations may fail) " : ""; for (auto &o : p.ops) s += "T" + std::to_string(o.thr) + ":" + once::services[o.a[0]].name + (o.a[1] ? "+add " : " "); return s;
  }
  void run(const Program &p) override {
    capture_streams(); sim::set_horizon(400); sim::set_step_cap(400000);
    if (p.hdr[1]) sim::set_alloc_fail(0.2);
    pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
    std::map<int, std::set<void *>> addr; std::map<int, std::vector<std::string>> keys; long locked = 0; std::map<int, std::pair<uint64_t, uint64_t>> when;
    sim::run_threads((int)p.hdr[0], [&](int t) {
      for (auto &o : p.ops) if (o.thr == t) {
        auto &s = once::services[o.a[0]]; void *a = nullptr; bool ok = false; uint64_t t0 = sim::tick();
        for (int i = 0; i < 60 && !ok; i++) { sim::begin_op(o.id); try { a = s.first(); ok = true; } catch (std::bad_alloc &) { } sim::end_op(); }
        sim::Quiet *q = new sim::Quiet; if (!ok) { delete q; continue; }
        addr[(int)o.a[0]].insert(a); if (!strcmp(s.name, "atomics lock")) locked++; when[o.id] = {t0, sim::tick()}; delete q;
        if (o.a[1] && s.has) {
          std::string key; { sim::Quiet z; key = "k" + std::to_string(o.id); }
          pthread_mutex_lock(&mx);
          bool done = false; for (int i = 0; i < 60 && !done; i++) { sim::begin_op(o.id); try { s.add(key); done = true; } catch (std::bad_alloc &) { } sim::end_op(); }
          if (done) { sim::Quiet z; keys[(int)o.a[0]].push_back(key); }
          pthread_mutex_unlock(&mx);
        }
      }
    });
    sim::set_alloc_fail(0);
    for (auto &kv : addr) if (kv.second.size() > 1) sim::fail("created-twice", "%s: threads got %zu different instances", once::services[kv.first].name, kv.second.size());
    for (auto &kv : addr) { void *n = once::services[kv.first].first(); if (n && !kv.second.count(n)) sim::fail("instance-changed", "%s: a later use got another instance", once::services[kv.first].name); if (!strcmp(once::services[kv.first].name, "atomics lock")) locked++; }
    for (auto &kv : keys) for (auto &k : kv.second) if (!once::services[kv.first].has(k)) sim::fail("registration-lost", "%s: %s, added by one thread, is gone", once::services[kv.first].name, k.c_str());
    if (once::lock_sum() != (double)locked) sim::fail("updates-lost", "%ld updates through a lazily created lock add up to %g", locked, once::lock_sum());
    for (auto &a : p.ops) for (auto &b : p.ops) if (a.thr != b.thr && a.a[0] == b.a[0] && when[a.id].first < when[b.id].second && when[b.id].first < when[a.id].second) sim::nontrivial();
    for (auto &o : p.ops) sim::count(("kind." + std::string(once::services[o.a[0]].name)).c_str());
  }
};
sim::Harness *sim_harness(const std::string &property) {
  if (property == "C70") return new Once;
  auto *h = new Reent; h->prop = atoi(property.c_str() + 1); return h;
}
