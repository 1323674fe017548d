// C52: named timers and the wall clock on a simulated clock.
#include <iostream>
#include <ristra/ristra-config.h>
#include <ristra/assertions/errors.h>
#include <ristra/utils/time_utils.h>
#include <ristra/io/catalyst/utils/insituTimer.hpp>
#include <cmath>
#include <memory>
#include <vector>
#include "io.h"
using sim::Op; using sim::Program; using sim::Rng;
enum { M_START, M_STOP, M_GET, M_NEW, M_JUMP, M_WAIT, M_WALL, M_COPY, N_M };
static const char *MN[] = {"start", "stop", "getDuration", "new timer set", "wall clock adjusted", "wait", "get_wall_time", "copy timer set"};
static const char *TNAME[] = {"solve", "io", "", "total time", "the time step of the coupled solver, part 1", "the time step of the coupled solver, part 2"};
struct TS { std::unique_ptr<InsituTimer> t; struct One { bool started = false; long long s0 = 0, s1 = 0; std::vector<std::pair<double, double>> dur; } m[6]; };
struct Timer : sim::Harness {
  void generate(Rng &r, Program &p) override { int nt = r.coin(0.7) ? 1 : 2; bool few = r.coin(0.6); long tn = r.below(5); p.hdr = {nt, r.coin(0.6) ? 0 : 1, r.coin(0.7) ? 0 : r.range(10, 300)}; for (int t = 0; t < nt; t++) for (int i = r.range(3, r.coin(0.3) ? 40 : 14); i > 0; i--) { static const int w[] = {M_START, M_START, M_START, M_STOP, M_STOP, M_STOP, M_GET, M_GET, M_GET, M_NEW, M_JUMP, M_JUMP, M_WAIT, M_WAIT, M_WALL, M_COPY}; p.add(t, {w[r.below(16)], r.below(2), few ? tn + r.below(2) : r.below(6), r.coin(0.5) ? r.range(0, 5000) : r.coin(0.5) ? r.range(0, 4000000000L) : r.range(0, 900000) * 1000000000L, r.range(-1000000, 1000000)}); } }
  std::string describe(const Program &p) override { std::string s; for (auto &o : p.ops) s += "\n  thread " + std::to_string(o.thr) + " #" + std::to_string(o.id) + " " + MN[o.a[0] % N_M] + " set " + std::to_string(o.a[1]) + " timer '" + TNAME[o.a[2] % 6] + "' wait " + std::to_string(o.a[3]) + " ns jump " + std::to_string(o.a[4]) + " s"; return s; }
  void run(const Program &p) override {
    struct Null : std::streambuf { int overflow(int c) override { return 0; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } }; static Null nul; std::cout.rdbuf(&nul); std::cerr.rdbuf(&nul);
    io::mono_ns = 5000000000000LL; io::real_off_ns = 1600000000000000000LL; io::p_clock = p.hdr[2] / 1000.0; int nt = p.hdr[0]; long jumps = 0; bool any = false; double wall0 = -1; long long wm0 = 0; long wj0 = 0;
    sim::run_threads(nt, [&](int t) {
      TS s[2]; { sim::Quiet q; for (auto &x : s) x.t = std::make_unique<InsituTimer>(); }
      for (auto &o : p.ops) if (o.thr == t) {
        int code = o.a[0] % N_M; TS &S = s[o.a[1] % 2]; auto &m = S.m[o.a[2] % 6]; std::string n = TNAME[o.a[2] % 6]; double d = 0; int rc = 0; long long now; bool raised = false; int f0;
        { sim::Quiet q; if (code == M_WAIT || code == M_START || code == M_STOP) { io::mono_ns += o.a[3]; sim::advance_time(o.a[3]); } if (code == M_JUMP && p.hdr[1]) { io::real_off_ns += o.a[4] * 1000000000LL; jumps++; sim::count("fault.wall_clock_jump"); } now = io::mono_ns; f0 = io::clock_faults[t]; }
        sim::begin_op(o.id); io::clock_on = true; io::quiet = false;
        try { switch (code) { case M_START: rc = S.t->start(n); break; case M_STOP: rc = S.t->stop(n); break; case M_GET: d = S.t->getDuration(n); break; case M_WALL: d = ristra::utils::get_wall_time(); break;
          case M_NEW: { if (o.a[3] & 1) S.t = std::make_unique<InsituTimer>(n); else S.t = std::make_unique<InsituTimer>(); break; } case M_COPY: *s[1].t = *s[0].t; break; } } catch (std::exception &) { raised = true; }
        io::quiet = nt == 1; sim::end_op();
        sim::Quiet q; long long after = io::mono_ns; any = true; sim::count((std::string("kind.") + MN[code]).c_str());
        if (raised && io::clock_faults[t] == f0) sim::fail("unexpected-exception", "%s raised an error", MN[code]);
        auto mk = [&](TS::One &x) { x.started = true; x.s0 = now; x.s1 = after; x.dur.clear(); };   // the clock was read between now and after
        switch (code) {
          case M_START: if (rc != 1) sim::fail("wrong-result", "start returned %d", rc); mk(m); break;
          case M_STOP: if (rc != (m.started ? 1 : -1)) sim::fail("wrong-result", "stop of timer '%s' returned %d although it %s", n.c_str(), rc, m.started ? "was started" : "was never started"); if (m.started) m.dur.push_back({(now - m.s1) * 1e-9, (after - m.s0) * 1e-9}); break;
          case M_GET: { bool ok = m.dur.empty() ? d == -1 : false; for (auto &w : m.dur) { double e = 1e-9 * std::max(1.0, std::fabs(w.second)); if (d >= w.first - e && d <= w.second + e) ok = true; } if (!ok) { if (m.dur.empty()) sim::fail("value-from-nowhere", "timer '%s' reports %.9g s although it was not stopped", n.c_str(), d); sim::fail("wrong-duration", "timer '%s' reports %.9f s; %.9f s passed between its start and its stop", n.c_str(), d, m.dur.back().second); } sim::count("probe.duration_read"); break; }
          case M_NEW: for (auto &x : S.m) x = TS::One(); if (o.a[3] & 1) mk(m); break;
          case M_COPY: for (int i = 0; i < 6; i++) s[1].m[i] = s[0].m[i]; break;
          case M_WALL: if (io::clock_faults[t] != f0) { if (!raised) sim::fail("clock-error-ignored", "get_wall_time returned %.6f although the clock could not be read", d); break; } if (nt > 1) break; if (wall0 >= 0 && wj0 == jumps && std::fabs((d - wall0) - (now - wm0) * 1e-9) > 3e-6) sim::fail("wrong-wall-time", "get_wall_time advanced by %.6f s while %.6f s passed", d - wall0, (now - wm0) * 1e-9); wall0 = d; wm0 = now; wj0 = jumps; break;
        }
        sim::mix(code * 10 + m.dur.size()); sim::state((uint64_t)code * 1000 + m.started * 100 + m.dur.size());
      }
    });
    io::clock_on = false; if (any) sim::nontrivial();
  }
};
sim::Harness *timer_harness() { return new Timer; }
