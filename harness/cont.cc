// Harness for C40 (fixed-capacity vector) and driver of C41 (iteration helpers, cont_loops.cc).
#include "../sim/sim.h"
#include <iostream>
#include <limits>
#include <stdexcept>
#include <iterator>
#include <ristra/utils/fixed_vector.h>
#include <ristra/utils/algorithm.h>
#include <list>
#include <memory>
#include <cstring>
#include <cstdarg>
#include "cont.h"
using sim::Op; using sim::Program; using sim::Rng; using ristra::utils::fixed_vector;
enum { K_COPY = sim::K_F0, K_MOVE };
static double P_copy, P_move; static bool g_quiet = true; static int g_faults; static long g_live;
struct injected : std::runtime_error { injected() : std::runtime_error("injected") {} };
// An element that owns a resource (a heap cell), checks its own lifetime and may fail to be copied or moved.
struct tok {
  enum : unsigned { MAGIC = 0x70c37041 };
  unsigned magic = MAGIC; long *cell;
  static void copy_step() { if (!g_quiet && sim::fault(K_COPY, P_copy)) { g_faults++; sim::count("fault.element_copy_threw"); throw injected(); } }
  static void move_step() { if (!g_quiet && sim::fault(K_MOVE, P_move)) { g_faults++; sim::count("fault.element_move_threw"); throw injected(); } }
  void alive() const { if (magic != MAGIC) sim::fail("dead-element", "an element that does not exist was used"); }
  tok(long v = 0) : cell(new long(v)) { g_live++; }
  tok(const tok &o) { o.alive(); copy_step(); cell = o.cell ? new long(*o.cell) : nullptr; g_live++; }
  tok(tok &&o) { o.alive(); move_step(); cell = o.cell; o.cell = nullptr; g_live++; }
  tok &operator=(const tok &o) { alive(); o.alive(); copy_step(); if (this != &o) { long *c = o.cell ? new long(*o.cell) : nullptr; delete cell; cell = c; } return *this; }
  tok &operator=(tok &&o) { alive(); o.alive(); move_step(); if (this != &o) { delete cell; cell = o.cell; o.cell = nullptr; } return *this; }
  ~tok() { alive(); magic = 0xdeadbeef; delete cell; cell = nullptr; g_live--; }
  bool operator==(const tok &o) const { alive(); o.alive(); return cell && o.cell ? *cell == *o.cell : cell == o.cell; }
};
const long MOVED = -777;
template <class T> struct el;
template <> struct el<tok> { static tok mk(long v) { return tok(v); } static long get(const tok &t) { t.alive(); return t.cell ? *t.cell : MOVED; } static const bool throws = true; };
template <> struct el<int> { static int mk(long v) { return (int)v; } static long get(int t) { return t; } static const bool throws = false; };
template <> struct el<short> { static short mk(long v) { return (short)v; } static long get(short t) { return t; } static const bool throws = false; };
template <> struct el<std::string> { static std::string mk(long v) { return std::string(v % 2 ? 30 : 1, 'a') + "_" + std::to_string(v); } static long get(const std::string &s) { auto p = s.find('_'); return p == std::string::npos ? MOVED : atol(s.c_str() + p + 1); } static const bool throws = true; };
struct pod { double d; long v; bool operator==(const pod &o) const { return v == o.v; } };
template <> struct el<pod> { static pod mk(long v) { return pod{v * 0.5, v}; } static long get(const pod &p) { return p.v; } static const bool throws = false; };

enum { V_PUSH, V_PUSHM, V_EMPLACE, V_POP, V_INS1, V_INSM, V_INSN, V_INSR, V_INSL, V_INSALIAS, V_ERASE, V_ERASER, V_ERASE0, V_RESIZE, V_RESIZEV, V_CLEAR, V_ASSIGNN, V_ASSIGNR, V_ASSIGNL, V_COPYA, V_MOVEA, V_SWAP, V_COPYC, V_MOVEC, V_CTORN, V_CTORR, V_CTORL, V_SET, V_ACCESS, V_EQ, V_DEDUP, V_PUSHALIAS, N_V };
static const char *VN[] = {"push_back", "push_back(move)", "emplace_back", "pop_back", "insert", "insert(move)", "insert(count)", "insert(range)", "insert(list)", "insert(own element)", "erase", "erase(range)", "erase(empty range)", "resize", "resize(value)", "clear", "assign(count)", "assign(range)", "assign(list)", "copy assignment", "move assignment", "swap", "copy construction", "move construction", "construct(count)", "construct(range)", "construct(list)", "element write", "element access", "compare", "remove_duplicates", "push_back(own element)"};

template <class T, size_t N> struct Case {
  using V = fixed_vector<T, N>; using M = std::vector<long>;
  std::unique_ptr<V> v[2]; M m[2]; bool interesting = false;
  static M read(const V &x) { M r; for (auto i = x.begin(); i != x.end(); ++i) r.push_back(el<T>::get(*i)); return r; }
  static std::string show(const M &x) { std::string s = "["; for (long y : x) s += (y == MOVED ? std::string("moved-from") : std::to_string(y)) + " "; return s + "]"; }
  void check(int i, const char *what) {
    const V &x = *v[i]; if (x.size() > N || x.capacity() != N || x.max_size() != N || x.empty() != (x.size() == 0)) sim::fail("invalid-size", "after %s the vector of capacity %zu has size %zu", what, N, x.size());
    if (x.size() != m[i].size()) sim::fail("wrong-size", "after %s the vector has %zu elements; expected %s", what, x.size(), show(m[i]).c_str());
    M r = read(x); if (r != m[i]) sim::fail("wrong-elements", "after %s the vector holds %s; expected %s", what, show(r).c_str(), show(m[i]).c_str());
    for (size_t k = 0; k < r.size(); k++) if (el<T>::get(x[k]) != r[k] || el<T>::get((*v[i])[k]) != r[k]) sim::fail("wrong-elements", "operator[] and iterators disagree");
  }
  void run(const Program &p) {
    long live0 = g_live;
    for (auto &x : v) x = std::make_unique<V>();
    sim::run_threads(1, [&](int) { for (auto &op : p.ops) step(op); });
    for (int i = 0; i < 2; i++) check(i, "the history");
    if (std::is_same<T, tok>::value && g_live - live0 != (long)(2 * N)) sim::fail("element-count", "%ld elements exist for two vectors of capacity %zu", g_live - live0, N);
    for (auto &x : v) x.reset();
    if (std::is_same<T, tok>::value && g_live != live0) sim::fail("element-count", "%ld elements were never destroyed", g_live - live0);
    if (interesting) sim::nontrivial();
  }
  void step(const Op &op) {
    int code = op.a[0] % N_V, w = op.a[1] % 2; long x = op.a[2], k = op.a[3], c = op.a[4]; V &a = *v[w]; M &mm = m[w]; V &b = *v[1 - w]; M &mb = m[1 - w]; size_t n = mm.size(); const char *what = VN[code];
    M before = mm, beforeb = mb, vals; for (long i = 0; i < 4; i++) vals.push_back(x + i); size_t pos = n ? k % (n + 1) : 0; size_t room = N - n; size_t cnt = c % (long)(std::min<size_t>(room, N > 16 && k % 2 ? N : 4) + 1);
    std::list<T> src; for (size_t i = 0; i < cnt; i++) src.push_back(el<T>::mk(x + i)); T val = el<T>::mk(x); std::vector<T> arr; for (long i = 0; i < 3; i++) arr.push_back(el<T>::mk(x + i));
    long ret = -1, want = -1; bool skip = false, app = false;
    std::function<void()> f;                                            // the operation on the real vector
    auto mi = [&](size_t at) { return mm.begin() + at; };
    switch (code) {
      case V_PUSH: if (!room) { skip = true; break; } app = true; f = [&] { a.push_back(val); }; mm.push_back(x); break;
      case V_PUSHM: if (!room) { skip = true; break; } app = true; f = [&] { a.push_back(std::move(val)); }; mm.push_back(x); break;
      case V_EMPLACE: if (!room) { skip = true; break; } app = true; f = [&] { a.emplace_back(val); }; mm.push_back(x); break;
      case V_PUSHALIAS: if (!room || !n) { skip = true; break; } app = true; f = [&] { a.push_back(a[k % n]); }; mm.push_back(mm[k % n]); break;
      case V_POP: if (!n) { skip = true; break; } f = [&] { a.pop_back(); }; mm.pop_back(); break;
      case V_INS1: if (!room) { skip = true; break; } want = pos; f = [&] { ret = a.insert(a.cbegin() + pos, val) - a.begin(); }; mm.insert(mi(pos), x); break;
      case V_INSM: if (!room) { skip = true; break; } want = pos; f = [&] { ret = a.insert(a.cbegin() + pos, std::move(val)) - a.begin(); }; mm.insert(mi(pos), x); break;
      case V_INSALIAS: if (!room || !n) { skip = true; break; } want = pos; { long e = mm[c % n]; if (k % 3 == 1) { f = [&] { ret = a.insert(a.cbegin() + pos, cnt, a[c % n]) - a.begin(); }; mm.insert(mi(pos), cnt, e); } else { f = [&] { ret = a.insert(a.cbegin() + pos, a[c % n]) - a.begin(); }; mm.insert(mi(pos), e); } } break;
      case V_INSN: want = pos; f = [&] { ret = a.insert(a.cbegin() + pos, cnt, val) - a.begin(); }; mm.insert(mi(pos), cnt, x); break;
      case V_INSR: { want = pos; M add; for (size_t i = 0; i < cnt; i++) add.push_back(x + i); f = [&] { ret = a.insert(a.cbegin() + pos, src.begin(), src.end()) - a.begin(); }; mm.insert(mi(pos), add.begin(), add.end()); break; }
      case V_INSL: { if (room < 2) { skip = true; break; } want = pos; f = [&] { ret = a.insert(a.cbegin() + pos, {arr[0], arr[1]}) - a.begin(); }; M add{x, x + 1}; mm.insert(mi(pos), add.begin(), add.end()); break; }
      case V_ERASE: if (!n) { skip = true; break; } pos = k % n; want = pos; f = [&] { ret = a.erase(a.cbegin() + pos) - a.begin(); }; mm.erase(mi(pos)); break;
      case V_ERASER: { size_t p2 = pos + (n - pos ? c % (long)(n - pos + 1) : 0); want = pos; f = [&, p2] { ret = a.erase(a.cbegin() + pos, a.cbegin() + p2) - a.begin(); }; mm.erase(mi(pos), mi(p2)); break; }
      case V_ERASE0: want = pos; f = [&] { ret = a.erase(a.cbegin() + pos, a.cbegin() + pos) - a.begin(); }; break;
      case V_RESIZE: { size_t s = c % (N + 1); f = [&, s] { a.resize(s); }; if (s <= n) mm.resize(s); else { sim::begin_op(op.id); a.resize(s); sim::end_op(); M r = read(a); if (r.size() != s || !std::equal(mm.begin(), mm.end(), r.begin())) sim::fail("wrong-elements", "resize to %zu turned %s into %s", s, show(mm).c_str(), show(r).c_str()); for (size_t i = n; i < s; i++) { a[i] = el<T>::mk(x); r[i] = x; } mm = r; f = [] {}; } break; }
      case V_RESIZEV: { size_t s = c % (N + 1); if (n && k % 4 == 1) { long e = mm[k % n]; f = [&, s] { a.resize(s, a[k % n]); }; mm.resize(s, e); break; } f = [&, s] { a.resize(s, val); }; mm.resize(s, x); break; }
      case V_CLEAR: f = [&] { a.clear(); }; mm.clear(); break;
      case V_ASSIGNN: cnt = c % (N + 1); if (n && k % 4 == 1) { long e = mm[k % n]; f = [&] { a.assign(cnt, a[k % n]); }; mm.assign(cnt, e); break; } f = [&] { a.assign(cnt, val); }; mm.assign(cnt, x); break;
      case V_ASSIGNR: { src.clear(); cnt = c % (N + 1); mm.clear(); for (size_t i = 0; i < cnt; i++) { src.push_back(el<T>::mk(x + i % 4)); mm.push_back(x + i % 4); } f = [&] { a.assign(src.begin(), src.end()); }; break; }
      case V_ASSIGNL: if (N < 3) { skip = true; break; } f = [&] { a.assign({arr[0], arr[1], arr[2]}); }; mm = {x, x + 1, x + 2}; break;
      case V_COPYA: f = [&] { if (c % 5 == 0) a = *&a; else a = b; }; if (c % 5) mm = mb; break;
      case V_MOVEA: f = [&] { a = std::move(b); b.clear(); }; mm = mb; mb.clear(); break;
      case V_SWAP: f = [&] { a.swap(b); }; std::swap(mm, mb); break;
      case V_COPYC: f = [&] { auto y = std::make_unique<V>(b); v[w] = std::move(y); }; mm = mb; break;
      case V_MOVEC: f = [&] { auto y = std::make_unique<V>(std::move(b)); v[w] = std::move(y); v[1 - w]->clear(); }; mm = mb; mb.clear(); break;
      case V_CTORN: cnt = c % (N + 1); f = [&] { auto y = std::make_unique<V>(cnt, val); v[w] = std::move(y); }; mm.assign(cnt, x); break;
      case V_CTORR: { mm.clear(); for (size_t i = 0; i < cnt; i++) mm.push_back(x + i); f = [&] { auto y = std::make_unique<V>(src.begin(), src.end()); v[w] = std::move(y); }; break; }
      case V_CTORL: if (N < 3) { skip = true; break; } f = [&] { std::unique_ptr<V> y(new V({arr[0], arr[1], arr[2]})); v[w] = std::move(y); }; mm = {x, x + 1, x + 2}; break;
      case V_SET: if (!n) { skip = true; break; } { int how = c % 4; size_t at = k % n; f = [&, how, at] { if (how == 0) a[at] = val; else if (how == 1) a.at(at) = val; else if (how == 2) a.back() = val; else a.front() = val; }; mm[how < 2 ? at : how == 2 ? n - 1 : 0] = x; break; }
      case V_ACCESS: f = [&] { sim::Quiet q; const V &cv = a; for (size_t i = 0; i < N + 2; i++) { bool thrown = false; long g = 0; try { g = c & 1 ? el<T>::get(a.at(i)) : el<T>::get(cv.at(i)); } catch (std::out_of_range &) { thrown = true; } if (thrown != (i >= n)) sim::fail("bounds", "at(%zu) of a vector of %zu elements %s", i, n, thrown ? "raised an error" : "gave an element"); if (!thrown && g != mm[i]) sim::fail("wrong-elements", "at(%zu) gave %ld; expected %ld", i, g, mm[i]); }
          if (n && (el<T>::get(cv.front()) != mm[0] || el<T>::get(cv.back()) != mm[n - 1] || el<T>::get(a.front()) != mm[0] || el<T>::get(a.back()) != mm[n - 1])) sim::fail("wrong-elements", "front or back is wrong"); if (cv.end() - cv.begin() != (long)n || a.cend() - a.cbegin() != (long)n) sim::fail("wrong-size", "iterators span %ld elements; expected %zu", (long)(cv.end() - cv.begin()), n);
          if (cont_has_data<V>::value) { auto d = cont_data(a); for (size_t i = 0; i < n; i++) if (el<T>::get(d[i]) != mm[i]) sim::fail("wrong-elements", "data() is wrong"); M rev = cont_reversed<M>(a, [](auto &e) { return el<T>::get(e); }); std::reverse(rev.begin(), rev.end()); if (rev != mm) sim::fail("wrong-elements", "reverse iteration is wrong"); } }; break;
      case V_EQ: f = [&] { bool r = a == b, r2 = b == a; sim::Quiet q; if (r != (mm == mb) || r2 != r) sim::fail("wrong-comparison", "%s == %s gave %s", show(mm).c_str(), show(mb).c_str(), r ? "true" : "false"); }; break;
      case V_DEDUP: f = [&] { ristra::utils::remove_duplicates(a); }; mm.erase(std::unique(mm.begin(), mm.end()), mm.end()); break;
    }
    if (skip) return;
    int f0 = g_faults + (int)sim::alloc_faults(); bool threw = false;
    sim::begin_op(op.id); g_quiet = false;
    try { f(); } catch (std::exception &e) { threw = true; }
    g_quiet = true; sim::end_op(); bool flt = g_faults + (int)sim::alloc_faults() != f0; sim::count((std::string("kind.") + what).c_str()); interesting = true;
    if (threw) {
      if (!flt) sim::fail("unexpected-exception", "%s raised an error although nothing failed", what);
      sim::count("probe.operation_failed_by_fault");
      for (int i = 0; i < 2; i++) {          // still a valid vector; adopt what is left
        V &y = *v[i]; if (y.size() > N) sim::fail("invalid-size", "after %s failed the vector has %zu elements, more than its capacity %zu", what, y.size(), N);
        M r = read(y); std::set<long> known(before.begin(), before.end()); known.insert(beforeb.begin(), beforeb.end()); known.insert(vals.begin(), vals.end()); known.insert(MOVED);
        const M &b0 = i == w ? before : beforeb;
        if (app && i == w && r != b0) sim::fail("append-not-atomic", "%s failed but turned %s into %s", what, show(b0).c_str(), show(r).c_str());
        if (i != w && code != V_MOVEA && code != V_SWAP && code != V_MOVEC && r != b0) sim::fail("other-vector-changed", "%s failed and changed another vector from %s to %s", what, show(b0).c_str(), show(r).c_str());
        for (size_t j = 0; j < r.size(); j++) if (!std::is_same<T, tok>::value) ; 
        m[i] = r; for (size_t j = 0; j < r.size(); j++) if (r[j] == MOVED) { y[j] = el<T>::mk(x); m[i][j] = x; }
      }
    } else { if (ret != want) sim::fail("wrong-iterator", "%s returned position %ld; expected %ld", what, ret, want); }
    for (int i = 0; i < 2; i++) check(i, what);
    uint64_t h = code * 131 + w; for (auto &y : m) { h = h * 31 + y.size(); for (long z : y) h = h * 37 + (uint64_t)z; } sim::state(h); sim::mix(h + threw); sim::advance_time(1000);
  }
};
template <class T, size_t N> static void go(const Program &p) { auto c = std::make_unique<Case<T, N>>(); c->run(p); }
struct Vec : sim::Harness {
  static constexpr struct { const char *name; void (*f)(const Program &); bool t; } C[] = {{"owning element, capacity 6", go<tok, 6>, true}, {"string, capacity 6", go<std::string, 6>, true}, {"int, capacity 5", go<int, 5>, false}, {"struct, capacity 7", go<pod, 7>, false}, {"owning element, capacity 1", go<tok, 1>, true}, {"owning element, capacity 16", go<tok, 16>, true}, {"string, capacity 3", go<std::string, 3>, true}, {"owning element, capacity 300", go<tok, 300>, true}, {"int, capacity 300", go<int, 300>, false}, {"string, capacity 130", go<std::string, 130>, true}, {"short, capacity 1030", go<short, 1030>, false}};
  static constexpr int NC = 11;
  void generate(Rng &r, Program &p) override {
    int c = r.coin(0.5) ? 0 : r.coin(0.06) ? 7 + r.below(NC - 7) : r.below(7); long big = c >= 7 ? 1000 : 100; p.hdr = {c, r.coin(0.45) ? 0 : r.range(5, 200), r.coin(0.6) ? 0 : r.range(5, 200), r.coin(0.7) ? 0 : r.range(5, 100)};
    int n = r.range(2, r.coin(0.3) ? 40 : 14); int bias = r.below(3);
    for (int i = 0; i < n; i++) { long code = bias == 0 || r.coin(0.4) ? r.below(N_V) : bias == 1 ? std::array<long, 8>{V_PUSH, V_PUSHM, V_INS1, V_INSN, V_INSR, V_ERASE, V_ERASER, V_INSM}[r.below(8)] : std::array<long, 8>{V_EMPLACE, V_PUSH, V_RESIZEV, V_COPYA, V_SWAP, V_ASSIGNR, V_EQ, V_COPYC}[r.below(8)]; if (i < 2 && r.coin(0.7)) code = std::array<long, 3>{V_ASSIGNR, V_CTORR, V_CTORL}[r.below(3)]; p.add(0, {code, r.coin(0.75) ? 0 : 1, r.coin(0.8) ? (i + 1) * 10 : r.range(1, 3) * 10, r.below(big), r.below(big)}); }
  }
  std::string describe(const Program &p) override { std::string s = std::string(C[p.hdr[0] % NC].name) + ", faults copy " + std::to_string(p.hdr[1]) + " move " + std::to_string(p.hdr[2]) + " alloc " + std::to_string(p.hdr[3]) + " per 1000"; for (auto &o : p.ops) s += "\n  #" + std::to_string(o.id) + " vector " + std::to_string(o.a[1] % 2) + " " + VN[o.a[0] % N_V] + " value " + std::to_string(o.a[2]) + " position " + std::to_string(o.a[3]) + " count " + std::to_string(o.a[4]); return s; }
  void run(const Program &p) override { P_copy = p.hdr[1] / 1000.0; P_move = p.hdr[2] / 1000.0; sim::set_alloc_fail(p.hdr[3] / 1000.0); C[p.hdr[0] % NC].f(p); sim::set_alloc_fail(0); }
};
constexpr decltype(Vec::C) Vec::C;
sim::Harness *loops_harness();
sim::Harness *sim_harness(const std::string &property) { if (property == "C41") return loops_harness(); return new Vec; }
