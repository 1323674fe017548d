// Harness for the atomics properties (C01-C06, and the lock part of C70).
// The library code runs for real, instrumented so that every shared access is a
// scheduling point; this file (workload, oracle) is not instrumented.
#include "../sim/sim.h"
#include "atomics_kinds.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
using sim::Program; using sim::Op; using sim::Rng;

const char *const AOP_NAME[O_NOPS] = {"add", "sub", "mul", "div", "mod", "lshift", "rshift", "andeq", "oreq", "xoreq", "min", "max", "inc", "preinc", "postinc", "dec", "predec", "postdec", "load", "store", "exchange"};
const char *const SCH_NAME[SCH_N] = {"", "<strong>", "<weak>", "<strong::pun>", "<weak::pun>", "<cpp>"};
static const char *const MONAME[6] = {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"};
static const char *const FMONAME[6] = {"relaxed", "consume", "acquire", "relaxed", "acquire", "seq_cst"};
std::vector<CellKind> &kinds() { static std::vector<CellKind> v; return v; }

static std::vector<int> sel(bool (*f)(const CellKind &)) { std::vector<int> r; for (size_t i = 0; i < kinds().size(); i++) if (f(kinds()[i])) r.push_back((int)i); return r; }

// op record: [cell, op, arg, form, vol, okind, so, fo, sch, xk]
enum { A_CELL, A_OP, A_ARG, A_FORM, A_VOL, A_OK, A_SO, A_FO, A_SCH, A_XK, A_N };
static bool g_no_cpp = false;   // C01 is about the compare-and-swap schemes alone
static AOp decode(const CellKind &k, const Op &o) {
  AOp a; auto g = [&](int i) { return i < (int)o.a.size() ? o.a[i] : 0; };
  a.op = (int)g(A_OP); a.arg = g(A_ARG); a.form = (int)g(A_FORM); a.vol = (int)g(A_VOL); a.okind = (int)g(A_OK); a.so = (int)g(A_SO); a.fo = (int)g(A_FO); a.sch = (int)g(A_SCH); a.xk = (int)g(A_XK);
  if (g_no_cpp && a.sch % SCH_N == SCH_CPP) a.sch = SCH_OWN;
  k.normalise(a); return a;
}
static std::string show(const AOp &a, int cell) {
  char b[200]; std::string s;
  static const char *forms[] = {"", ".", "op "};
  snprintf(b, sizeof b, "%sx%d%s%s%s(%ld%s)", a.vol ? "volatile " : "", cell, a.form == 1 ? "." : a.form == 2 ? " operator-" : " ", AOP_NAME[a.op], SCH_NAME[a.sch], a.arg, a.xk == 1 ? ":int" : a.xk == 2 ? ":double" : "");
  (void)forms;
  s = b; if (a.okind >= 1) s += std::string(" ") + MONAME[a.so]; if (a.okind == 2) s += std::string("/") + FMONAME[a.fo];
  return s;
}

// ---- linearizability of one cell's history -----------------------------------
struct Ev { int thr, id; AOp op; uint64_t inv, ret; Val rv; };
struct LinCheck {
  const CellKind &k; std::vector<Ev> &h; Val fin; std::set<std::pair<uint32_t, Val>> seen; long nodes = 0;
  LinCheck(const CellKind &k_, std::vector<Ev> &h_, Val f) : k(k_), h(h_), fin(f) {}
  bool go(uint32_t done, const Val &st) {
    if (done == (h.size() == 32 ? 0xffffffffu : ((1u << h.size()) - 1))) return st == fin;
    if (!seen.insert({done, st}).second) return false;
    nodes++;
    uint64_t minret = ~0ULL;
    for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); i++) {
      if (done >> i & 1 || h[i].inv > minret) continue;
      Val s = st, r; k.model(s, h[i].op, r);
      if (r == h[i].rv && go(done | 1u << i, s)) return true;
    }
    return false;
  }
};
static std::string show_hist(const CellKind &k, const std::vector<Ev> &h, const Val &init, const Val &fin) {
  std::vector<Ev> s = h; std::sort(s.begin(), s.end(), [](const Ev &a, const Ev &b) { return a.inv < b.inv; });
  std::string o = "init=" + k.show(init) + ";";
  for (auto &e : s) { char b[64]; snprintf(b, 64, " [t%d %llu-%llu] ", e.thr, (unsigned long long)e.inv, (unsigned long long)e.ret); o += b; o += show(e.op, 0) + " -> " + k.show(e.rv) + ";"; }
  return o + " final=" + k.show(fin);
}
static std::string describe_prog(const Program &p, const std::vector<const CellKind *> &ck) {
  std::string o;
  for (size_t i = 0; i < ck.size(); i++) o += "x" + std::to_string(i) + ":" + ck[i]->name + " ";
  for (auto &op : p.ops) { int c = (int)(((op.a.empty() ? 0 : op.a[A_CELL]) % (long)ck.size() + (long)ck.size()) % (long)ck.size()); AOp a = decode(*ck[c], op); o += "| t" + std::to_string(op.thr) + " " + show(a, c) + " "; }
  return o;
}
static void gen_call(Rng &r, std::vector<long> &a, int mix) {
  // mix: 0 everything, 1 few operations (more contention on the same op)
  a[A_OP] = r.below(O_NOPS);
  if (mix == 1) a[A_OP] = (long[]){O_ADD, O_SUB, O_POSTINC, O_PREDEC, O_MAX}[r.below(5)];
  if (mix == 2) a[A_OP] = (long[]){O_MUL, O_DIV, O_ADD, O_LSH, O_XOR, O_MIN, O_MAX, O_MOD, O_RSH, O_AND, O_OR}[r.below(11)];
  if (mix == 3) a[A_OP] = r.range(O_INC, O_POSTDEC);
  a[A_ARG] = r.range(0, 60); a[A_FORM] = r.below(3); a[A_VOL] = r.coin(0.25); a[A_OK] = r.below(3); a[A_SO] = r.below(6); a[A_FO] = r.below(6);
  a[A_SCH] = r.coin(0.5) ? 0 : r.below(SCH_N); a[A_XK] = r.coin(0.7) ? 0 : r.below(3);
}

// ---- C01 C02 C03 C05 C06: concurrent updates against the sequential model ----------
// hdr: [nthreads, ncells, spur%, stall%, init, layout, kind0, kind1, ...]
enum { H_NT, H_NC, H_SPUR, H_STALL, H_INIT, H_LAYOUT, H_STARVE, H_KIND0 };
struct LinHarness : sim::Harness {
  std::string prop; std::vector<int> cand;
  LinHarness(const std::string &p) : prop(p) {
    g_no_cpp = p == "C01";
    if (p == "C01") cand = sel([](const CellKind &k) { return k.is_cas; });
    if (p == "C02") cand = sel([](const CellKind &k) { return k.is_cpp || (k.is_cas && (k.name.find("int") != std::string::npos || k.name.find("long,") != std::string::npos || k.name.find("short") != std::string::npos || k.name.find("unsigned") != std::string::npos)); });
    if (p == "C03") cand = sel([](const CellKind &k) { return k.is_lock; });
    if (p == "C05") cand = sel([](const CellKind &k) { return k.is_cas || k.is_cpp; });
    if (p == "C06") cand = sel([](const CellKind &) { return true; });
  }
  void generate(Rng &r, Program &p) override {
    int nt = (int)r.range(2, 4), nc = 1;
    if (prop == "C03") nc = (int)r.range(1, 3);
    if (prop == "C06") nc = (int)r.range(2, 5);
    if (prop == "C01" && r.coin(0.1)) nc = 2;
    long spur = r.coin(0.5) ? 0 : r.range(5, 60), stall = 0;
    if (prop == "C05") stall = r.range(2, 40);
    if (prop == "C03" && r.coin(0.4)) stall = r.range(5, 40);
    int k0 = cand[r.below((long)cand.size())];
    p.hdr = {nt, nc, spur, stall, r.range(-3, 60), r.below(3), 0};
    bool storm = (prop == "C01" || prop == "C02" || prop == "C05") && r.coin(0.12);   // one thread keeps losing the race
    if (storm) { p.hdr[H_STARVE] = 1; p.hdr[H_NC] = nc = 1; p.hdr[H_STALL] = stall = prop == "C05" ? 1 : 0; }
    if (prop == "C03" && stall) {  // independence: thread 0 alone on one mutex number, the others on another
      // pick two kinds of the same value type with different mutex numbers
      std::vector<std::pair<int, int>> pr;
      for (int a : cand) for (int b : cand) if (a != b && kinds()[a].name.substr(0, kinds()[a].name.find(',')) == kinds()[b].name.substr(0, kinds()[b].name.find(',')) && kinds()[a].nmux != kinds()[b].nmux) pr.push_back({a, b});
      auto q = pr[r.below((long)pr.size())];
      p.hdr[H_NC] = nc = 2; p.hdr.push_back(q.first); p.hdr.push_back(q.second);
    } else if (prop == "C06") {
      for (int i = 0; i < nc; i++) p.hdr.push_back(k0);   // neighbours of one kind, contiguous
    } else for (int i = 0; i < nc; i++) p.hdr.push_back(i == 0 || r.coin(0.5) ? k0 : cand[r.below((long)cand.size())]);
    int mix = (int)r.below(4), total = (int)r.range(nt, prop == "C06" ? 12 : prop == "C05" ? 10 : 9);
    if (storm) total = (int)r.range(8, 30);
    bool lockonly = prop == "C03";
    for (int i = 0; i < total; i++) {
      std::vector<long> a(A_N, 0); int t = i < nt ? i : (int)r.below(nt); if (storm && i >= nt && nt > 1) t = 1 + (int)r.below(nt - 1);
      gen_call(r, a, mix);
      a[A_CELL] = r.below(nc);
      if (lockonly && stall) a[A_CELL] = t == 0 ? 0 : 1;   // (run() enforces it)
      if (prop == "C06" && r.coin(0.7)) a[A_CELL] = t % nc;
      if (prop == "C02") {   // native scheme on every second op at least
        if (kinds()[k0].is_cpp) { if (r.coin(0.6)) a[A_SCH] = SCH_OWN; } else a[A_SCH] = r.coin(0.6) ? SCH_CPP : a[A_SCH];
        if (r.coin(0.75)) a[A_OP] = (long[]){O_ADD, O_SUB, O_AND, O_OR, O_XOR, O_PREINC, O_POSTINC, O_PREDEC, O_POSTDEC, O_INC, O_DEC}[r.below(11)];
      }
      if (prop == "C06" && r.coin(0.2)) a[A_OP] = 1000;      // plain neighbour update
      if (storm) { a[A_CELL] = 0; if (r.coin(0.8)) a[A_OP] = (long[]){O_ADD, O_ADD, O_SUB, O_INC, O_POSTINC, O_PREDEC}[r.below(6)]; }
      p.add(t, a);
    }
  }
  void cells_of(const Program &p, std::vector<const CellKind *> &ck) {
    int nc = (int)std::max(1L, p.hdr[H_NC]);
    for (int i = 0; i < nc; i++) ck.push_back(&kinds()[p.hdr[H_KIND0 + i] % kinds().size()]);
  }
  std::string describe(const Program &p) override { std::vector<const CellKind *> ck; cells_of(p, ck); return describe_prog(p, ck); }
  void run(const Program &p) override {
    int nt = (int)p.hdr[H_NT]; std::vector<const CellKind *> ck; cells_of(p, ck); int nc = (int)ck.size();
    sim::set_spurious(p.hdr[H_SPUR] / 100.0, p.hdr[H_SPUR] % 4 == 0 ? 8 : 2);
    if (p.hdr[H_STARVE]) sim::set_starve(0);
    if (p.hdr[H_STALL]) sim::set_stall(p.hdr[H_STALL] / 200.0, true);
    if (prop == "C03") sim::set_stall_mask(1);
    sim::set_sched(p.hdr[H_LAYOUT] % 3 == 0);
    // layout: guard | cell [plain] cell [plain] ... | guard, contiguous
    int sz = 16; for (auto k : ck) sz = std::max(sz, k->size);
    static unsigned char *buf; size_t total = 4096; if (posix_memalign((void **)&buf, 64, total)) abort();
    memset(buf, 0xEE, total);
    std::vector<unsigned char *> cell(nc), plain(nc); unsigned char *q = buf + 256; bool withplain = p.hdr[H_LAYOUT] % 2;
    for (int i = 0; i < nc; i++) {
      size_t al = ck[i]->align; q = (unsigned char *)(((uintptr_t)q + al - 1) / al * al); cell[i] = q; q += ck[i]->size;
      plain[i] = nullptr; if (prop == "C06" && withplain) { plain[i] = q; q += ck[i]->size; }
    }
    std::vector<Val> init(nc);
    for (int i = 0; i < nc; i++) { ck[i]->construct(cell[i], p.hdr[H_INIT]); init[i] = ck[i]->peek(cell[i]); if (plain[i]) memset(plain[i], 0, ck[i]->size); }
    std::vector<std::vector<unsigned char>> plain_exp(nc);
    for (int i = 0; i < nc; i++) plain_exp[i].assign(ck[i]->size, 0);
    std::vector<std::vector<Ev>> hist(nc); 
    std::vector<int> issued(nc, 0);
    for (auto &h : hist) h.reserve(32);
    sim::run_threads(nt, [&](int t) {
      for (auto &o : p.ops) {
        if (o.thr != t) continue;
        int c = (int)((o.a[A_CELL] % nc + nc) % nc);
        if (prop == "C03" && p.hdr[H_STALL]) c = t == 0 ? 0 : nc - 1;
        if (o.a[A_OP] >= 1000) {
          if (plain[c] && t == c % nt) {   // the one owner of this ordinary neighbour
            sim::InOp in(o.id);
            for (int j = 0; j < ck[c]->size; j++) { unsigned char v = *(volatile unsigned char *)(plain[c] + j); sim::point(); *(volatile unsigned char *)(plain[c] + j) = (unsigned char)(v + 1 + j); plain_exp[c][j] = (unsigned char)(plain_exp[c][j] + 1 + j); if (j >= 3) break; }
          }
          continue;
        }
        AOp a = decode(*ck[c], o);
        if (issued[c] >= 31) continue;   // the history is a 32-bit set
        issued[c]++;
        sim::scrub_stack();
        Ev e; e.thr = t; e.id = o.id; e.op = a;
        sim::begin_op(o.id);
        e.inv = sim::tick();
        e.rv = ck[c]->call(cell[c], a);
        e.ret = sim::tick();
        sim::end_op();
        hist[c].push_back(e);
        if (sim::verbose()) { sim::Quiet quiet; sim::note("%s -> %s", show(a, c).c_str(), ck[c]->show(e.rv).c_str()); }
      }
    });
    // quiescent phase: every variable is still usable (no lock left behind, progress without contention)
    sim::set_stall(0, false); sim::set_spurious(0);
    std::vector<Val> fin(nc);
    for (int i = 0; i < nc; i++) fin[i] = ck[i]->peek(cell[i]);
    if (prop == "C03" || prop == "C05") {
      sim::run_threads(1, [&](int) {
        for (int i = 0; i < nc; i++) { AOp a; memset(&a, 0, sizeof a); a.op = O_ADD; a.arg = 1; ck[i]->normalise(a);
          sim::begin_op(9000 + i); Val v = ck[i]->call(cell[i], a); sim::end_op();
          Val s = fin[i], r; ck[i]->model(s, a, r); if (v != r) sim::fail("quiescent-update-wrong", "an uncontended update after the run returned %s, expected %s", ck[i]->show(v).c_str(), ck[i]->show(r).c_str()); }
      });
    }
    bool overlap = false;
    for (int i = 0; i < nc; i++) {
      for (auto &a : hist[i]) for (auto &b : hist[i]) if (a.thr != b.thr && a.inv < b.ret && b.inv < a.ret) overlap = true;
      if (prop == "C05") continue;   // C05 is about progress only
      LinCheck lc(*ck[i], hist[i], fin[i]);
      if (!lc.go(0, init[i])) {
        const char *cls = prop == "C06" ? "neighbour-history-broken" : "not-linearizable";
        sim::fail(cls, "%s variable x%d: no order of the updates explains the returned values and the final value: %s", ck[i]->name.c_str(), i, show_hist(*ck[i], hist[i], init[i], fin[i]).c_str());
      }
      uint64_t sh = i; for (auto &e : hist[i]) { sh = sh * 1099511628211ULL + e.op.op; for (int j = 0; j < 16; j++) sh = sh * 31 + e.rv.b[j]; } sim::state(sh * 31 + p.hdr[H_KIND0 + i]);
    }
    if (prop == "C06") {
      for (int i = 0; i < nc; i++) if (plain[i]) for (int j = 0; j < ck[i]->size; j++) if (plain[i][j] != plain_exp[i][j]) sim::fail("neighbour-data-changed", "ordinary data next to %s changed: byte %d is %02x, its only writer left %02x", ck[i]->name.c_str(), j, plain[i][j], plain_exp[i][j]);
      for (size_t j = 0; j < 256; j++) if (buf[j] != 0xEE) sim::fail("neighbour-data-changed", "memory before %s changed", ck[0]->name.c_str());
      for (unsigned char *z = q; z < buf + total; z++) if (*z != 0xEE) sim::fail("neighbour-data-changed", "memory after %s changed", ck[nc - 1]->name.c_str());
      overlap = true;
    }
    if (overlap) sim::nontrivial();
    sim::count(("kind." + ck[0]->name).c_str());
  }
};

// ---- C04: publication and sequential consistency under the C++ memory model ---------
// hdr: [shape, nt, kindA, kindB, stale%...]
// shapes: 0 message passing, 1 chain of three threads, 2 store buffering, 3 IRIW, 4 publication through failed-then-retried update
struct OrderHarness : sim::Harness {
  std::vector<int> cand;
  OrderHarness() { cand = sel([](const CellKind &k) { return !composite(k); }); }   // composite types have no neutral operand
  enum { G_SHAPE, G_KA, G_KB, G_SPUR, G_N };
  void generate(Rng &r, Program &p) override {
    long shape = r.below(6);
    p.hdr = {shape, cand[r.below((long)cand.size())], cand[r.below((long)cand.size())], r.coin(0.5) ? 0 : r.range(5, 50)};
    static const int nops[] = {4, 5, 4, 6, 5, 4};
    int nt = shape == 1 || shape == 4 ? 3 : shape == 3 ? 4 : 2;
    for (int i = 0; i < nops[shape]; i++) {
      std::vector<long> a(A_N, 0); gen_call(r, a, 0);
      a[A_OP] = r.below(O_LOAD);
      a[A_CELL] = i;   // role
      p.add(shape == 0 || shape == 5 ? (i < 2 ? 0 : 1) : i % nt, a);
    }
  }
  std::string describe(const Program &p) override {
    static const char *sn[] = {"message-passing", "chain", "store-buffering", "iriw", "contended-publication", "mp-read-by-load"};
    std::string o = std::string(sn[p.hdr[0] % 6]) + " x:" + kinds()[p.hdr[G_KA] % kinds().size()].name + " y:" + kinds()[p.hdr[G_KB] % kinds().size()].name + " ";
    for (auto &op : p.ops) { AOp a = decode(kinds()[p.hdr[G_KA] % kinds().size()], op); o += "| role" + std::to_string(op.a[A_CELL]) + " " + show(a, 0) + " "; }
    return o;
  }
  // the order parameters of an update, forced to be at least the requested strength
  static void force(AOp &a, bool rel, bool acq, bool defaults, const CellKind &k) {
    if (defaults) { a.okind = 0; return; }
    if (a.okind == 0 || k.is_lock) { a.okind = 0; return; }
    int so = a.so;
    bool hr = so == 3 || so == 4 || so == 5, ha = so == 1 || so == 2 || so == 4 || so == 5;
    if ((rel && !hr) || (acq && !ha)) so = rel && acq ? (a.fo % 2 ? 4 : 5) : rel ? (long[]){3, 4, 5}[a.fo % 3] : (long[]){2, 4, 5}[a.fo % 3];
    if (acq && so == 1) so = 2;
    a.so = so;
  }
  static AOp role(const CellKind &k, const Program &p, int role_) {
    for (auto &o : p.ops) if (!o.a.empty() && o.a[A_CELL] == role_) return decode(k, o);
    AOp a; memset(&a, 0, sizeof a); a.op = O_ADD; a.arg = 1; k.normalise(a); return a;
  }
  // make the update one that visibly changes the value (adds 1)
  static AOp bump(const CellKind &k, AOp a) { static const int b[] = {O_ADD, O_INC, O_PREINC, O_POSTINC, O_ADD, O_SUB, O_POSTDEC, O_PREDEC}; int x = a.op; bool fl = k.name.find("double") != std::string::npos || k.name.find("float") != std::string::npos; a.op = b[x % 8]; if (x % 8 == 4 && k.name.find("int*") == std::string::npos && k.name.find("intp") == std::string::npos) { a.op = O_XOR; if (fl) a.op = O_ADD; } a.arg = 1; k.normalise(a); if (a.op == O_XOR || a.op == O_ADD || a.op == O_SUB) a.arg = 1; return a; }
  static AOp readlike(const CellKind &k, AOp a) { // an update that keeps the value but returns it
    bool ints = k.name.find("double") == std::string::npos && k.name.find("float") == std::string::npos && k.name.find("intp") == std::string::npos && k.name.find("Duo") == std::string::npos && k.name.find("Trio") == std::string::npos;
    bool lckd = k.is_lock;
    (void)lckd;
    int v = a.op % 3; bool cpp = a.sch == SCH_CPP || (a.sch == SCH_OWN && k.is_cpp);
    a.op = v == 0 || !ints ? O_ADD : v == 1 ? O_OR : O_SUB; a.arg = 0; (void)cpp; k.normalise(a); a.arg = 0;
    if (a.op == O_ADD && k.name.find("Duo") != std::string::npos) { a.xk = 0; }
    return a; }
  static bool composite(const CellKind &k) { return k.name.find("Duo") != std::string::npos || k.name.find("Trio") != std::string::npos; }
  void run(const Program &p) override {
    const CellKind *kx = &kinds()[p.hdr[G_KA] % kinds().size()], *ky = &kinds()[p.hdr[G_KB] % kinds().size()];
    if (composite(*kx) || composite(*ky)) return;
    sim::set_weak_memory(true); sim::set_spurious(p.hdr[G_SPUR] / 100.0, p.hdr[G_SPUR] % 4 == 0 ? 6 : 2);
    unsigned char *bx, *by; if (posix_memalign((void **)&bx, 64, 64) || posix_memalign((void **)&by, 64, 64)) abort();
    kx->construct(bx, 10); ky->construct(by, 10);
    Val x0 = kx->peek(bx), y0 = ky->peek(by);
    int shape = (int)(p.hdr[G_SHAPE] % 6);
    auto upd = [&](const CellKind *k, void *c, const AOp &a, int id) { sim::scrub_stack(); sim::begin_op(id); Val v = k->call(c, a); sim::end_op(); if (sim::verbose()) { sim::Quiet quiet; sim::note("%s %s -> %s", k->name.c_str(), show(a, 0).c_str(), k->show(v).c_str()); } return v; };
    auto loadx = [&](const CellKind *k, void *c, int id) { AOp a; memset(&a, 0, sizeof a); a.op = O_LOAD; sim::begin_op(id); Val v = k->call(c, a); sim::end_op(); if (sim::verbose()) { sim::Quiet quiet; sim::note("load %s -> %s", k->name.c_str(), k->show(v).c_str()); } return v; };
    auto changed = [&](const CellKind *k, const AOp &a, const Val &v, const Val &v0) {   // did the neutral update see the bump?
      Val s = v0, r; k->model(s, a, r); return v != r; };
    auto used = [&](const CellKind *k, const AOp &a) { sim::count((std::string("probe.order.") + (a.okind == 0 ? "default" : a.okind == 1 ? MONAME[a.so] : (std::string(MONAME[a.so]) + "/" + FMONAME[a.fo]))).c_str()); (void)k; };
    if (shape == 0 || shape == 5) {
      AOp w = bump(*kx, role(*kx, p, 0)), r = readlike(*kx, role(*kx, p, 2)); force(w, true, false, false, *kx); force(r, false, true, false, *kx); used(kx, w); used(kx, r);
      bool lckd = kx->is_lock;
      sim::run_threads(2, [&](int t) {
        if (t == 0) { sim::data_write(1); upd(kx, bx, w, 0); }
        else for (int i = 0; i < 3; i++) {
          bool saw; 
          if (shape == 5 && !lckd) saw = loadx(kx, bx, 2 + i) != x0;
          else saw = changed(kx, r, upd(kx, bx, r, 2 + i), x0);
          if (saw) { sim::count("probe.publication_observed"); sim::nontrivial(); if (!sim::data_read_ok(1)) sim::fail("publication-not-ordered", "%s: a thread observed the value published by %s but not the data written before it (observer: %s)", kx->name.c_str(), show(w, 0).c_str(), shape == 5 ? "load" : show(r, 0).c_str()); break; }
        }
      });
    } else if (shape == 1 || shape == 4) {
      // t0: data, release-bump x; t1: acq_rel bump of x (shape 4: contends on x too) then bump y; t2: acquire read of y
      AOp w = bump(*kx, role(*kx, p, 0)), m = bump(*kx, role(*kx, p, 1)), w2 = bump(*ky, role(*ky, p, 3)), r = readlike(*ky, role(*ky, p, 2));
      if (shape == 4) { // every updater acq_rel; each checks the data of those whose update precedes its own
        AOp b[3] = {bump(*kx, role(*kx, p, 0)), bump(*kx, role(*kx, p, 1)), bump(*kx, role(*kx, p, 2))};
        for (auto &a : b) { a.op = O_ADD; a.xk = 0; a.arg = 1; if (a.form == 2) a.okind = 0; kx->normalise(a); a.arg = 1; force(a, true, true, false, *kx); used(kx, a); }
        Val rets[3];
        sim::run_threads(3, [&](int t) {
          sim::data_write(10 + t);
          rets[t] = upd(kx, bx, b[t], t);
          Val s = x0, r1; kx->model(s, b[t], r1); int pos = 0; 
          if (rets[t] != r1) { pos = 1; kx->model(s, b[t], r1); if (rets[t] != r1) pos = 2; }
          // updates before mine: their data must be visible. Which threads? those that already completed theirs as an earlier value
          if (pos > 0) { sim::nontrivial(); sim::count("probe.publication_observed"); }
          int visible = 0; for (int u = 0; u < 3; u++) if (u != t) if (sim::data_written(10 + u) && sim::data_read_ok(10 + u)) visible++;
          if (visible < pos) sim::fail("publication-not-ordered", "%s: update %s came after %d others but the data published by only %d of them is visible", kx->name.c_str(), show(b[t], 0).c_str(), pos, visible);
        });
        return;
      }
      force(w, true, false, false, *kx); force(m, true, true, false, *kx); force(w2, true, false, false, *ky); force(r, false, true, false, *ky); used(kx, w); used(kx, m); used(ky, w2); used(ky, r);
      m.op = O_ADD; m.arg = 1; m.xk = 0; if (m.form == 2) m.okind = 0; { int ok = m.okind; kx->normalise(m); m.arg = 1; if (ok != m.okind) force(m, true, true, false, *kx); }
      bool seen1 = false;
      sim::run_threads(3, [&](int t) {
        if (t == 0) { sim::data_write(1); upd(kx, bx, w, 0); }
        else if (t == 1) { Val v = upd(kx, bx, m, 1); Val s = x0, r1; kx->model(s, m, r1); seen1 = v != r1; upd(ky, by, w2, 3); }
        else for (int i = 0; i < 3; i++) {
          if (changed(ky, r, upd(ky, by, r, 4 + i), y0)) { if (seen1) { sim::nontrivial(); sim::count("probe.publication_observed"); if (!sim::data_read_ok(1)) sim::fail("publication-not-ordered", "chain %s -> %s -> %s: the data written before the first update is not visible after the last", show(w, 0).c_str(), show(m, 1).c_str(), show(r, 2).c_str()); } break; }
        }
      });
    } else if (shape == 2) {
      AOp a = bump(*kx, role(*kx, p, 0)), b = bump(*ky, role(*ky, p, 1)); force(a, true, true, true, *kx); force(b, true, true, true, *ky); used(kx, a); used(ky, b);
      if (a.form == 2) a.okind = 0;
      bool alt = role(*kx, p, 2).arg % 2 && kx->is_lock == ky->is_lock; (void)alt;
      // reads go through a default-order load, or through a default-order neutral update for lock variables
      AOp ra_ = readlike(*kx, role(*kx, p, 2)), rb = readlike(*ky, role(*ky, p, 3)); force(ra_, true, true, true, *kx); force(rb, true, true, true, *ky);
      bool s0 = true, s1 = true;
      sim::run_threads(2, [&](int t) {
        if (t == 0) { upd(kx, bx, a, 0); s0 = ky->is_lock ? changed(ky, rb, upd(ky, by, rb, 2), y0) : loadx(ky, by, 2) != y0; }
        else { upd(ky, by, b, 1); s1 = kx->is_lock ? changed(kx, ra_, upd(kx, bx, ra_, 3), x0) : loadx(kx, bx, 3) != x0; }
      });
      sim::nontrivial();
      if (s0 && s1) sim::count("probe.sb_both_seen");
      if (!s0 && !s1) sim::fail("not-sequentially-consistent", "store buffering: %s %s and %s %s both completed, yet each thread still read the other variable's old value", kx->name.c_str(), show(a, 0).c_str(), ky->name.c_str(), show(b, 1).c_str());
    } else {
      AOp a = bump(*kx, role(*kx, p, 0)), b = bump(*ky, role(*ky, p, 1)); force(a, true, true, true, *kx); force(b, true, true, true, *ky); used(kx, a); used(ky, b);
      if (kx->is_lock || ky->is_lock) { sim::run_threads(1, [&](int) { upd(kx, bx, a, 0); }); return; }
      bool v[4] = {};
      sim::run_threads(4, [&](int t) {
        if (t == 0) upd(kx, bx, a, 0); else if (t == 1) upd(ky, by, b, 1);
        else if (t == 2) { v[0] = loadx(kx, bx, 2) != x0; v[1] = loadx(ky, by, 3) != y0; }
        else { v[2] = loadx(ky, by, 4) != y0; v[3] = loadx(kx, bx, 5) != x0; }
      });
      sim::nontrivial();
      if (v[0] && !v[1] && v[2] && !v[3]) sim::fail("not-sequentially-consistent", "two readers saw %s and %s in opposite orders", show(a, 0).c_str(), show(b, 1).c_str());
    }
  }
};

sim::Harness *sim_harness(const std::string &prop) {
  std::sort(kinds().begin(), kinds().end(), [](const CellKind &a, const CellKind &b) { return a.name < b.name; });
  if (prop == "C04") return new OrderHarness;
  if (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C05" || prop == "C06") return new LinHarness(prop);
  return nullptr;
}
