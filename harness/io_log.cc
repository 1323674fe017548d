// C50: the log helpers of the in-situ adaptor over failing disks, crashes and concurrent appends.
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <map>
#include <iostream>
#include <ristra/io/catalyst/utils/insituLog.hpp>
#include <map>
#include <memory>
#include <vector>
#include "io.h"
using sim::Op; using sim::Program; using sim::Rng; using io::Still;
enum { G_LOG, G_FLUSH, G_CLEAR, G_NAME, G_NEW, G_WRITE, G_WRITENEW, G_APPEND, G_APPSHARED, N_G };
static const char *GN[] = {"log <<", "writeToDisk", "clear", "setOutputFilename", "new log object", "writeLog", "writeLogNew", "writeLogApp", "writeLogApp (shared file)"};
static std::string text(int id, long size, bool empty) {   // any bytes but '<'; the last one is not always a newline
  if (empty) return ""; std::string s = "<" + std::to_string(id) + ">"; static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789\n \t\0\r%\xff\x1a\\"; for (long i = 0; i < size; i++) s += al[(i * 7 + id) % (sizeof al - 1)]; return s + "</" + std::to_string(id) + (id % 2 ? ">\n" : size % 3 ? ">" : "> ");
}
struct Log : sim::Harness {
  void generate(Rng &r, Program &p) override {
    int nt = r.coin(0.6) ? 1 : r.range(2, 3); auto pm = [&](double c, int lo, int hi) { return r.coin(c) ? (long)r.range(lo, hi) : 0L; };
    p.hdr = {nt, pm(0.3, 5, 300), pm(0.4, 5, 300), pm(0.4, 5, 400), pm(0.4, 5, 300), nt == 1 ? pm(0.4, 5, 200) : 0};
    for (int t = 0; t < nt; t++) for (int i = r.range(2, nt == 1 ? 14 : 5); i > 0; i--) { long c = nt > 1 && r.coin(0.5) ? G_APPSHARED : r.below(N_G); if (r.coin(0.2)) c = r.coin(0.5) ? G_LOG : G_FLUSH; p.add(t, {c, r.below(2), r.coin(0.7) ? r.below(30) : r.coin(0.7) ? r.range(900, 1200) : r.coin(0.95) ? r.range(8000, 20000) : r.range(60000, 200000), r.below(3)}); }
  }
  std::string describe(const Program &p) override { std::string s = "per 1000: open errors " + std::to_string(p.hdr[1]) + ", write errors " + std::to_string(p.hdr[2]) + ", short writes " + std::to_string(p.hdr[3]) + ", interruptions " + std::to_string(p.hdr[4]) + ", crashes " + std::to_string(p.hdr[5]); for (auto &o : p.ops) s += "\n  thread " + std::to_string(o.thr) + " #" + std::to_string(o.id) + " " + GN[o.a[0] % N_G] + " object " + std::to_string(o.a[1]) + " size " + std::to_string(o.a[2]) + " file " + std::to_string(o.a[3]); return s; }
  // what a write that met a fault may leave: a beginning of the text, once more from its start when the stream tried again on closing
  static bool begun(const std::string &g, const std::string &w) { if (g.compare(0, std::string::npos, w, 0, g.size()) == 0) return true; for (size_t n = g.find('<', 1); n != std::string::npos && n < w.size() && w.compare(0, n, g, 0, n) == 0; n = g.find('<', n + 1)) if (g.compare(n, std::string::npos, w, 0, g.size() - n) == 0) return true; return false; }
  struct App { int thr, id; std::string t; bool faulted, done; };
  void run(const Program &p) override {
    struct Null : std::streambuf { int overflow(int c) override { return 0; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } }; static Null nul; std::cout.rdbuf(&nul); std::cerr.rdbuf(&nul);
    io::scratch(); int nt = p.hdr[0]; io::p = io::P(); io::p.open = p.hdr[1] / 1000.0; io::p.write = p.hdr[2] / 1000.0; io::p.shortw = p.hdr[3] / 1000.0; io::p.intr = p.hdr[4] / 1000.0; io::p.crash = p.hdr[5] / 1000.0; io::p.point = true; io::crashed = false;
    io::short_ok("shared.log", nt == 1); std::vector<App> apps; std::string shared_old; bool any = false;
    sim::run_threads(nt, [&](int t) {
      // each thread has its own objects and files; only "shared" is appended to by all
      std::unique_ptr<InsituLog> ob[2]; std::string mem[2], name[2]; std::map<std::string, std::string> disk; std::map<std::string, bool> exists;
      std::string F[3] = {"abc"[t] + std::string(""), "x" + std::to_string(t), "y" + std::to_string(t) + (p.hdr[1] % 2 ? "." + std::string(150, 'n') : "")};
      { Still q; sim::Quiet sq; for (auto &f : F) { unlink((f + ".log").c_str()); } for (int i = 0; i < 2; i++) { name[i] = F[i] + ".log"; ob[i] = std::make_unique<InsituLog>(name[i]); } }
      for (auto &o : p.ops) if (o.thr == t) {
        int code = o.a[0] % N_G, k = o.a[1] % 2; std::string tx = text(o.id, o.a[2], o.a[2] == 0 && code != G_APPSHARED), fn = F[o.a[3] % 3]; if (nt > 1 && (code == G_WRITE || code == G_WRITENEW || code == G_APPEND || code == G_NAME)) {}
        int h0 = io::hard_faults(t); std::string file, want; bool trunc = false, io_op = false; size_t ai = 0; if (code == G_APPSHARED) { sim::Quiet sq; ai = apps.size(); apps.push_back({t, o.id, tx, false, false}); }
        std::string shn = "shared"; InsituLog &L = *ob[k]; bool raised = false;
        sim::begin_op(o.id); io::quiet = false;
        try { switch (code) {
          case G_LOG: L.log << tx; break;
          case G_FLUSH: L.writeToDisk(); break;
          case G_CLEAR: L.clear(); break;
          case G_NAME: L.setOutputFilename(fn + ".log"); break;
          case G_NEW: break;
          case G_WRITE: writeLog(fn, tx); break;
          case G_WRITENEW: writeLogNew(fn, tx); break;
          case G_APPEND: writeLogApp(fn, tx); break;
          case G_APPSHARED: writeLogApp(shn, tx); break;
        } } catch (std::exception &) { raised = true; }
        io::quiet = nt == 1; sim::end_op();
        sim::Quiet sq; Still qq; bool faulted = io::hard_faults(t) != h0; any = true; sim::count((std::string("kind.") + GN[code]).c_str()); if (faulted) sim::count("probe.operation_met_a_disk_fault");
        if (raised && !faulted) sim::fail("unexpected-exception", "%s raised an error although the disk works", GN[code]);
        switch (code) { case G_LOG: mem[k] += tx; break; case G_CLEAR: mem[k].clear(); break; case G_NAME: name[k] = fn + ".log"; break; case G_NEW: ob[k].reset(); mem[k].clear(); if (o.a[3] % 2) { name[k] = fn + ".log"; ob[k] = std::make_unique<InsituLog>(name[k]); } else { ob[k] = std::make_unique<InsituLog>(); ob[k]->setOutputFilename(name[k]); } break;
          case G_FLUSH: file = name[k]; want = mem[k]; trunc = io_op = true; break; case G_WRITE: case G_WRITENEW: file = fn + ".log"; want = tx; trunc = io_op = true; break; case G_APPEND: file = fn + ".log"; want = tx; io_op = true; break; case G_APPSHARED: apps[ai].faulted = faulted; apps[ai].done = true; break; }
        for (int i = 0; i < 2; i++) if (ob[i]->log.str() != mem[i]) sim::fail("memory-log-changed", "after %s the log in memory has %zu bytes; expected %zu", GN[code], ob[i]->log.str().size(), mem[i].size());
        if (io_op) {
          std::string got; bool there = io::slurp(file, got); std::string old = disk[file]; bool had = exists[file];
          if (!faulted) { std::string w = trunc ? want : old + want; if (!there || got != w) sim::fail(trunc ? "wrong-content" : "wrong-append", "after %s file %s %s %zu bytes; expected %zu (first difference at %zu)", GN[code], file.c_str(), there ? "holds" : "does not exist, not", got.size(), w.size(), (size_t)(std::mismatch(got.begin(), got.begin() + std::min(got.size(), w.size()), w.begin()).first - got.begin())); }
          else if (trunc) { bool prefix = begun(got, want), same = there == had && got == old; if (!prefix && !same) sim::fail("wrong-content", "%s met a disk fault and left %zu bytes that are neither the old content nor a part of the new", GN[code], got.size()); }
          else { if (got.compare(0, old.size(), old) != 0 || got.size() < old.size()) sim::fail("old-content-lost", "%s met a disk fault and damaged what was appended before (%zu of %zu bytes intact)", GN[code], (size_t)(std::mismatch(got.begin(), got.begin() + std::min(got.size(), old.size()), old.begin()).first - got.begin()), old.size()); if (!begun(got.substr(old.size()), want)) sim::fail("wrong-append", "%s met a disk fault and appended something else than a part of its text", GN[code]); }
          disk[file] = got; exists[file] = there;
        }
        // other files of this thread are untouched
        for (auto &kv : disk) if (kv.first != file) { std::string got; bool there = io::slurp(kv.first, got); if (there != exists[kv.first] || got != kv.second) sim::fail("other-file-changed", "%s changed file %s", GN[code], kv.first.c_str()); }
        if (io::crashed) { io::crashed = false; for (int i = 0; i < 2; i++) { ob[i] = std::make_unique<InsituLog>(name[i]); mem[i].clear(); } sim::count("probe.restart_after_crash"); }
        uint64_t h = code; for (auto &kv : disk) h = h * 31 + kv.second.size(); h = h * 31 + mem[0].size() + mem[1].size(); sim::mix(h * 2 + faulted); sim::state(h); sim::advance_time(1000000);
      }
    });
    io::quiet = true;
    if (!apps.empty()) {            // the shared log: whole texts, each once, each thread's in order; a failed append may leave a beginning
      std::string got; io::slurp("shared.log", got); std::vector<int> used(apps.size()), part(apps.size()); std::map<int, int> last; size_t far = 0;
      std::function<bool(size_t)> parse = [&](size_t at) -> bool {
        far = std::max(far, at); if (at == got.size()) { for (size_t i = 0; i < apps.size(); i++) if (apps[i].done && !apps[i].faulted && !used[i]) return false; return true; }
        auto take = [&](size_t i, size_t n) { int l = last.count(apps[i].thr) ? last[apps[i].thr] : -1; if (l > apps[i].id) return false; int u = used[i], q = part[i]; used[i]++; part[i] = n < apps[i].t.size() && !u; last[apps[i].thr] = apps[i].id; bool r = parse(at + n); if (!r) { used[i] = u; part[i] = q; last[apps[i].thr] = l; } return r; };
        for (size_t i = 0; i < apps.size(); i++) if ((!used[i] || part[i]) && got.compare(at, apps[i].t.size(), apps[i].t) == 0 && take(i, apps[i].t.size())) return true;
        for (size_t i = 0; i < apps.size(); i++) if ((!used[i] || part[i]) && (apps[i].faulted || !apps[i].done)) { auto &t = apps[i].t; size_t n = 0; while (n < t.size() && at + n < got.size() && got[at + n] == t[n]) n++; for (; n > 0; n--) if ((at + n == got.size() || got[at + n] == '<') && take(i, n)) return true; }
        return false;
      };
      if (!parse(0)) { if (far == got.size()) sim::fail("shared-log-lost", "a text that was appended without any fault is not in the shared log"); sim::fail("shared-log-mixed", "from byte %zu of %zu the shared log does not consist of the texts that were appended, each thread's in order", far, got.size()); }
      if (nt > 1) sim::count("probe.concurrent_appends", apps.size());
    }
    if (any) sim::nontrivial();
  }
};
sim::Harness *log_harness() { return new Log; }
