// Harness for C20, C21: the input engine, its sources and initial values over arbitrary
// histories, with failing allocations, throwing element copies, scripts that fail to load
// and Lua values of the wrong type.
// Real: ristra/initialization/*.h, ristra/embedded/embed_lua.h, the Lua interpreter.
#include "../sim/sim.h"
#include <iostream>
#include <ristra/ristra-config.h>
#include <ristra/initialization/input_engine.h>
#include <ristra/initialization/init_value.h>
#include <fstream>
#include <optional>
#include <sys/stat.h>
#include <unistd.h>
using sim::Op; using sim::Program; using sim::Rng; using namespace ristra;
enum { K_COPY = sim::K_F0, K_PRED };
static double P_copy, P_pred; static bool g_quiet = true; static int g_faults;
struct Still { bool q; Still() : q(g_quiet) { g_quiet = true; } ~Still() { g_quiet = q; } };

// a user type whose copies may fail
struct tok_t {
  long v; unsigned magic = 0x70c37041;
  static void step() { if (!g_quiet && sim::fault(K_COPY, P_copy)) { g_faults++; sim::count("fault.copy_of_value_threw"); throw std::runtime_error("copy failed"); } }
  tok_t(long x = -1) : v(x) {}
  tok_t(const tok_t &o) : v(o.v) { o.alive(); step(); }
  tok_t(tok_t &&o) noexcept : v(o.v) { o.alive(); o.v = -7; }
  tok_t &operator=(const tok_t &o) { alive(); o.alive(); step(); v = o.v; return *this; }
  tok_t &operator=(tok_t &&o) noexcept { alive(); o.alive(); v = o.v; if (this != &o) o.v = -7; return *this; }
  ~tok_t() { magic = 0xdead; }
  void alive() const { if (magic != 0x70c37041) sim::fail("dead-object", "a value was used after it had been destroyed"); }
};
namespace ristra { namespace embedded { template <> struct lua_value<tok_t> { static tok_t get(lua_State *s, int i = -1) { return tok_t(lua_value<long>::get(s, i)); } }; } }
using vec2 = std::array<double, 2>; using func_t = std::function<double(double)>;
using ics_t = std::function<std::tuple<double, vec2, double>(vec2 const &, double const &)>;
using types = std::tuple<double, std::string, vec2, size_t, std::vector<double>, bool, tok_t, func_t, ics_t>;
struct traits { using types = ::types; };
using engine_t = input_engine_t<traits>;
static const char *TN[] = {"double", "string", "array", "size_t", "vector", "bool", "token", "function", "ics function"};
enum { T_D, T_S, T_A, T_Z, T_V, T_B, T_T, T_F, T_I, NT };
// Values are written as text in the model. Hard-coded value number v of each type:
static std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
static std::string lstr(long v) { std::string s = "s" + std::to_string(v); if (v % 3 == 0) s += std::string(v % 18 == 0 ? 5000 : 40 + v % 20, 'x'); return s; }
static long vlen(long v) { return v % 13 == 12 ? 700 : v % 4; }
template <class T> struct val;
template <> struct val<double> { static double mk(long v) { return v + 0.5; } static std::string show(double d) { return num(d); } };
template <> struct val<std::string> { static std::string mk(long v) { return lstr(v); } static std::string show(const std::string &s) { return s; } };
template <> struct val<vec2> { static vec2 mk(long v) { return {v + 0.25, v + 1.0}; } static std::string show(const vec2 &a) { return num(a[0]) + "," + num(a[1]); } };
template <> struct val<size_t> { static size_t mk(long v) { return v; } static std::string show(size_t d) { return std::to_string(d); } };
template <> struct val<std::vector<double>> { static std::vector<double> mk(long v) { std::vector<double> r; for (long i = 0; i < vlen(v) + 1; i++) r.push_back(v + i); return r; } static std::string show(const std::vector<double> &a) { std::string s = "["; for (double d : a) s += num(d) + ","; return s; } };
template <> struct val<bool> { static bool mk(long v) { return v & 1; } static std::string show(bool b) { return b ? "true" : "false"; } };
template <> struct val<tok_t> { static tok_t mk(long v) { return tok_t(v); } static std::string show(const tok_t &t) { t.alive(); return std::to_string(t.v); } };
template <> struct val<func_t> { static func_t mk(long v) { struct { long v, pad[6]; double operator()(double x) const { return x + v + 0.125; } } f{v, {}}; return f; }
  static std::string show(const func_t &f) { if (!f) return "empty function"; Still q; try { return num(f(1.0)) + " " + num(f(10.0)); } catch (std::exception &) { return "raises"; } } };
template <> struct val<ics_t> { static ics_t mk(long v) { return [v](vec2 const &x, double const &t) { return std::make_tuple(v + x[0], vec2{x[1], t}, (double)v); }; }
  static std::string show(const ics_t &f) { if (!f) return "empty function"; Still q; try { auto r = f(vec2{1, 2}, 3); return num(std::get<0>(r)) + " " + val<vec2>::show(std::get<1>(r)) + " " + num(std::get<2>(r)); } catch (std::exception &) { return "raises"; } } };

// ---- Lua side ---------------------------------------------------------------------
enum { L_INT, L_STR, L_ARR, L_VEC, L_BOOL, L_FUN, L_ICS, L_EMPTY, NL };
static std::string lua_text(int k, long v) {
  std::string s = std::to_string(v);
  switch (k) { case L_INT: return s; case L_STR: return "\"" + lstr(v) + "\""; case L_ARR: return "{" + s + "," + s + ".5}";
    case L_VEC: { std::string r = "{"; for (long i = 0; i < 3 + vlen(v); i++) r += std::to_string(v + i) + ","; return r + "}"; }
    case L_BOOL: return v & 1 ? "true" : "false"; case L_FUN: return "function(x) return x*2+" + s + " end";
    case L_ICS: return "function(x,y,t) return x+" + s + "*4, {y,t}, " + s + " end"; default: return "{}"; }
}
// what asking for that Lua value as type t gives: text, or nothing when it is an error
static std::optional<std::string> lua_as(int t, int k, long v) {
  switch (t) {
    case T_D: if (k == L_INT) return num(v); return {};
    case T_S: if (k == L_STR) return lstr(v); if (k == L_INT) return std::to_string(v); return {};
    case T_A: if (k == L_ARR) return num(v) + "," + num(v + 0.5); return {};
    case T_Z: if (k == L_INT) return std::to_string(v); return {};
    case T_V: if (k == L_ARR) return "[" + num(v) + "," + num(v + 0.5) + ","; if (k == L_VEC) { std::string s = "["; for (long i = 0; i < 3 + vlen(v); i++) s += num(v + i) + ","; return s; } if (k == L_EMPTY) return "["; return {};
    case T_B: if (k == L_BOOL) return v & 1 ? "true" : "false"; return {};
    case T_T: if (k == L_INT) return std::to_string(v); return {};
    case T_F: if (k == L_FUN) return num(2.0 + v) + " " + num(20.0 + v); return "raises";
    case T_I: if (k == L_ICS) return num(1.0 + v * 4) + " " + num(2) + "," + num(3) + " " + num(v); return "raises"; }
  return {};
}
struct LV { int kind; long v; };
struct Node { std::map<std::string, LV> vals; std::map<std::string, std::shared_ptr<Node>> subs; };
using NodeP = std::shared_ptr<Node>;
struct LuaModel {                                  // one lua_source_t object
  NodeP root; std::map<std::string, std::pair<std::string, std::string>> where; std::map<std::string, NodeP> tables; std::set<std::string> tainted; lua_source_t *p = nullptr;
  // 0: no such key in the Lua input
  const LV *find(const std::string &k) const { auto w = where.find(k); if (w == where.end()) return nullptr; auto t = tables.find(w->second.first); if (t == tables.end()) return nullptr; auto v = t->second->vals.find(w->second.second); return v == t->second->vals.end() ? nullptr : &v->second; }
};
static const char *NAMES[] = {"a1", "b2_a_long_and_descriptive_name_of_an_input", "CFL", "suffix", "final_time", "ns:a1", "mesh_type", "c3", "d4", "e5", "f6", "g7", "h8", "i9", "b2_a_long_and_descriptive_name_of_an_input_that_has_the_same_beginning_as_another", "j10"};
static const int NN = 16;
static const char *TABLES[] = {"hydro", "mesh", "t1", "t2"};
static const char *LKEY[] = {"a1", "b2_a_long_and_descriptive_name_of_an_input", "CFL", "postfix", "final_time", "n_a1", "type", "k9", "d4", "kk.1", "f 6", "g7", "h8", "i9", "b2_a_long_and_descriptive_name_of_an_input_that_has_the_same_beginning_as_another", "j10"};

// ---- the model ----------------------------------------------------------------------
struct Slot { std::set<std::string> may; bool absent = true; };      // allowed values; absent allowed
struct Model {
  std::map<std::string, std::string> hc[NT]; std::set<std::string> targets[NT]; std::map<std::string, Slot> reg[NT]; int called[NT] = {};  // 0 never, 1 yes, 2 unknown
  struct Eng { bool hc = false; std::shared_ptr<LuaModel> lua; } eng[2];
  // what resolving (t, name) through engine e gives now: 0 nothing, 1 value, 2 error
  int lookup(int e, int t, const std::string &n, std::string &out) const {
    if (eng[e].lua) if (const LV *v = eng[e].lua->find(n)) { auto r = lua_as(t, v->kind, v->v); if (!r) return 2; out = *r; return 1; }
    if (eng[e].hc) { auto i = hc[t].find(n); if (i != hc[t].end()) { out = i->second; return 1; } }
    return 0;
  }
};
enum { O_HCSET, O_HCDEL, O_HCCLEAR, O_HCSRC, O_LUASRC, O_LUAREG, O_TARGET, O_RESOLVE, O_GET, O_ISRES, O_INSTANT, O_CLEAR, O_HOLD, O_CALLHELD, O_LUAQ, O_IVNEW, O_IVGET, O_IVRES, O_IVVALID, O_IVALL, N_OPS };
static const char *ON[] = {"set hard-coded values", "remove hard-coded value", "clear hard-coded values", "set/remove hard-coded source", "set/remove Lua source", "register Lua key or table", "declare target", "resolve", "get value", "ask resolved", "get instant value", "clear declarations", "keep a resolved function", "call kept function", "query Lua source", "declare initial value", "get initial value", "initial value resolved?", "initial value valid?", "query initial value in some order"};

// what the engine prints; never allocates
struct Sink : std::streambuf { char b[1 << 16]; size_t n = 0; void clear() { n = 0; } std::string str() const { return std::string(b, n); }
  int overflow(int c) override { if (c != EOF && n < sizeof b) b[n++] = (char)c; return 0; }
  std::streamsize xsputn(const char *s, std::streamsize k) override { size_t m = std::min((size_t)k, sizeof b - n); memcpy(b + n, s, m); n += m; return k; } };
struct Obj { virtual ~Obj() {} virtual std::string get() = 0; virtual bool resolved() = 0; virtual bool valid() = 0; virtual init_val_status_t status() = 0; };
static bool pred(int kind, const std::string &shown) {                    // deterministic part of the predicates
  long h = 0; for (char c : shown) h = h * 31 + (unsigned char)c; h = (h % 7 + 7) % 7;
  if (kind == 1) return h % 2 == 0;
  if (kind == 2) { if (h < 3) throw std::runtime_error("predicate raises"); return h != 3; }
  return true;
}
static int pred_says(int kind, const std::string &shown) { try { return pred(kind, shown); } catch (std::exception &) { return 2; } }
template <class T> struct ObjT : Obj {
  init_value_t<T, engine_t> iv;
  ObjT(const std::string &n, int k, const std::string &ns) : iv(n, [k](T const &t) { if (!g_quiet && sim::fault(K_PRED, P_pred)) { g_faults++; sim::count("fault.predicate_threw"); throw std::runtime_error("injected"); } Still q; sim::Quiet sq; return pred(k, val<T>::show(t)); }, ns) {}
  std::string get() override { auto &&r = iv.get(); sim::Quiet q; return val<T>::show(r); }
  bool resolved() override { return iv.resolved(); }
  bool valid() override { return iv.valid(); }
  init_val_status_t status() override { return iv.status(); }
};

struct Input : sim::Harness {
  int prop;
  void generate(Rng &r, Program &p) override {
    bool iv = prop == 21; p.hdr = {r.coin(0.5) ? 0 : r.range(1, 60), r.coin(0.6) ? 0 : r.range(1, 30), r.coin(0.6) ? 0 : r.range(1, 30), (long)(r.next() & 0xffffff), r.coin(0.7)};
    std::vector<int> ts; for (int i = 0; i < 2 + (int)r.below(3); i++) ts.push_back(r.below(NT)); std::vector<int> ns; int nn = r.coin(0.06) ? 16 : 2 + (int)r.below(3); for (int i = 0; i < nn; i++) ns.push_back(r.below(NN));
    int n = r.range(6, r.coin(0.3) ? 40 : 16);
    auto T = [&] { return (long)ts[r.below(ts.size())]; }; auto N = [&] { return (long)ns[r.below(ns.size())]; };
    auto add = [&](long code) { std::vector<long> a = {code, r.coin(0.85) ? 0 : 1, T(), N(), r.range(0, 60), r.below(1000)}; if (code == O_HCSET || code == O_TARGET || code == O_LUASRC) for (int k = r.range(code == O_LUASRC ? 1 : 0, 4); k > 0; k--) { a.push_back(N()); a.push_back(r.range(0, 60)); a.push_back(r.below(4)); a.push_back(r.coin(0.8) ? -1 : r.below(NL)); a.push_back(T()); } p.add(0, a); };
    add(O_HCSET); add(O_HCSRC); if (r.coin(0.6)) add(O_LUASRC); if (iv) { add(O_IVNEW); add(O_IVNEW); } else add(O_TARGET); if (r.coin(0.8)) add(O_RESOLVE);
    static const int w20[] = {14, 5, 2, 5, 10, 8, 12, 18, 12, 8, 10, 3, 5, 5, 4, 0, 0, 0, 0, 0}, w21[] = {10, 5, 2, 2, 6, 2, 2, 16, 3, 2, 5, 2, 1, 1, 0, 10, 16, 8, 12, 10};
    const int *w = iv ? w21 : w20; int tot = 0; for (int i = 0; i < N_OPS; i++) tot += w[i];
    for (int i = 0; i < n; i++) { long x = r.below(tot); int c = 0; while (x >= w[c]) x -= w[c++]; add(c); }
    add(O_RESOLVE);
  }
  std::string describe(const Program &p) override {
    std::string s = "faults alloc " + std::to_string(p.hdr[0]) + " copy " + std::to_string(p.hdr[1]) + " predicate " + std::to_string(p.hdr[2]) + " per 1000";
    for (auto &o : p.ops) { s += "\n  #" + std::to_string(o.id) + " " + ON[o.a[0] % N_OPS] + " engine " + std::to_string(o.a[1]) + " type " + TN[o.a[2] % NT] + " name " + NAMES[o.a[3] % NN] + " value " + std::to_string(o.a[4]) + " variant " + std::to_string(o.a[5]); for (size_t i = 6; i + 4 < o.a.size(); i += 5) s += std::string(" [") + NAMES[o.a[i] % NN] + " " + std::to_string(o.a[i + 1]) + " " + std::to_string(o.a[i + 2]) + " " + std::to_string(o.a[i + 3]) + " " + TN[o.a[i + 4] % NT] + "]"; }
    return s;
  }
  void simplify(Program &p, std::vector<Program> &out) override {
    for (int i = 0; i < 3; i++) if (p.hdr[i]) { Program q = p; q.hdr[i] = 0; out.push_back(q); }
    for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].a.size() > 6) { Program q = p; q.ops[i].a.resize(p.ops[i].a.size() - 5); out.push_back(q); }
  }
  // ---- typed access ---------------------------------------------------------------
  Model m; std::unique_ptr<engine_t> eng[2]; hard_coded_source_t hcs; Sink sink;
  struct Held { std::shared_ptr<void> f; int t; std::string want; }; Held held[3];
  struct IV { std::unique_ptr<Obj> o; int t; std::string name; int k; }; IV iv[4];
  bool interesting = false;
  template <class F> void with(int t, F f) {
    switch (t) { case T_D: f((double *)0); break; case T_S: f((std::string *)0); break; case T_A: f((vec2 *)0); break; case T_Z: f((size_t *)0); break; case T_V: f((std::vector<double> *)0); break; case T_B: f((bool *)0); break; case T_T: f((tok_t *)0); break; case T_F: f((func_t *)0); break; default: f((ics_t *)0); }
  }
  template <class T> static std::string mk_show(long v) { return val<T>::show(val<T>::mk(v)); }
  // Does f, and once more without faults when an injected fault made it fail.
  template <class F> void insist(int id, const char *what, F f) {
    int f0 = g_faults; long a0 = sim::alloc_faults(); bool ok = false; std::string msg;
    sim::begin_op(id); g_quiet = false;
    try { f(); ok = true; } catch (std::exception &e) { sim::Quiet q; msg = e.what(); }
    g_quiet = true; sim::end_op();
    if (ok) return;
    if (g_faults == f0 && sim::alloc_faults() == a0) sim::fail("unexpected-exception", "%s raised %s", what, msg.c_str());
    faulted_any = true;
    try { f(); } catch (std::exception &e) { sim::fail("not-repeatable", "%s failed because of an injected fault and, repeated, raised %s", what, e.what()); }
  }
  enum Out { OK, RAISED, FAULT };
  std::string what_;
  template <class F> Out attempt(int id, F f) {
    int f0 = g_faults; long a0 = sim::alloc_faults(); Out o = OK; what_.clear(); faulted_ = false;
    sim::begin_op(id); g_quiet = false;
    try { f(); } catch (std::exception &e) { sim::Quiet q; o = RAISED; what_ = e.what(); }
    g_quiet = true; sim::end_op();
    faulted_ = g_faults != f0 || sim::alloc_faults() != a0;
    if (o == RAISED && faulted_) o = FAULT;
    return o;
  }
  bool faulted_ = false;

  void check_get(int t, const std::string &n, Out o, const std::string &got, const char *how) {
    Slot &s = m.reg[t][n];
    if (o == OK) {
      if (!s.may.count(got)) sim::fail(s.may.empty() ? "value-from-nowhere" : "wrong-value", "%s of %s input %s gave %s; %s", how, TN[t], n.c_str(), got.c_str(), s.may.empty() ? "no source provides it" : ("expected " + *s.may.begin()).c_str());
      s.may = {got}; s.absent = false;
    } else if (o == RAISED) {
      if (!s.absent) sim::fail("lost-value", "%s of %s input %s raised %s although it was resolved to %s", how, TN[t], n.c_str(), what_.c_str(), s.may.begin()->c_str());
      s.may.clear();
    }
  }
  void get(int id, int e, int t, const std::string &n) {
    std::string got; Out o; with(t, [&](auto *q) { using T = std::remove_pointer_t<decltype(q)>; o = attempt(id, [&] { auto &&r = eng[e]->template get_value<T>(n); sim::Quiet sq; g_quiet = true; got = val<T>::show(r); }); });
    check_get(t, n, o, got, "get_value");
  }
  void is_res(int id, int e, int t, const std::string &n) {
    bool r = false; Out o; with(t, [&](auto *q) { using T = std::remove_pointer_t<decltype(q)>; o = attempt(id, [&] { r = eng[e]->template resolved<T>(n); }); });
    if (o == FAULT) return; if (o == RAISED) sim::fail("unexpected-exception", "resolved() raised %s", what_.c_str());
    Slot &s = m.reg[t][n];
    if (r && (s.may.empty() || m.called[t] == 0)) sim::fail("claims-resolved", "%s input %s is reported as resolved although %s", TN[t], n.c_str(), s.may.empty() ? "no source provided it" : "nothing was resolved yet");
    if (!r && !s.absent && m.called[t] == 1) sim::fail("claims-unresolved", "%s input %s is reported as unresolved although it has the value %s", TN[t], n.c_str(), s.may.begin()->c_str());
  }
  void resolve(int id, int e) {
    sink.clear(); bool r = false; bool err = false, all = true; std::set<std::string> missing; std::map<std::string, std::pair<int, std::string>> res[NT];
    for (int t = 0; t < NT; t++) for (auto &n : m.targets[t]) { std::string v; int k = m.lookup(e, t, n, v); res[t][n] = {k, v}; if (k == 2) err = true; if (k == 0) { all = false; missing.insert(n); } }
    Out o = attempt(id, [&] { r = eng[e]->resolve_inputs(); });
    if (o == RAISED && !err) sim::fail("unexpected-exception", "resolve_inputs raised %s", what_.c_str());
    if (o == OK && err && !faulted_) sim::fail("error-not-reported", "a Lua value of a type that cannot be converted was not reported as an error");
    if (o == OK && !err) {
      if (r != all) sim::fail("resolution-result", "resolve_inputs reported %s although %s", r ? "success" : "failure", r ? (*missing.begin() + " has no value in any source").c_str() : "every declared target has a value");
      std::string out = sink.str(); for (auto &n : NAMES) { bool in = false; for (size_t p0 = 0; (p0 = out.find(n, p0)) != std::string::npos; p0++) { auto b = p0 ? out[p0 - 1] : ' ', c = p0 + strlen(n) < out.size() ? out[p0 + strlen(n)] : ' '; auto word = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == ':'; }; if (!word(b) && !word(c)) in = true; }
        if (!r && in != (missing.count(n) != 0)) sim::fail("unresolved-report", "input %s %s in the report of unresolved targets: %s", n, in ? "has a value but is listed" : "has no value but is missing", out.substr(0, 300).c_str()); }
    }
    bool certain = o == OK && !err;
    for (int t = 0; t < NT; t++) { for (auto &kv : res[t]) { Slot &s = m.reg[t][kv.first]; if (certain && kv.second.first == 1) { s.may = {kv.second.second}; s.absent = false; } else { s.absent = true; if (kv.second.first == 1) s.may.insert(kv.second.second); } }
      if (certain) m.called[t] = 1; else if (!m.called[t]) m.called[t] = 2; }
    sim::count(certain ? (all ? "probe.resolved_all" : "probe.resolved_some") : "probe.resolve_failed"); interesting = true;
  }
  void instant(int id, int e, int t, const std::string &n) {
    std::string v; int k = m.lookup(e, t, n, v); std::string got; Out o;
    with(t, [&](auto *q) { using T = std::remove_pointer_t<decltype(q)>; o = attempt(id, [&] { auto &&r = eng[e]->template get_instant_value<T>(n); sim::Quiet sq; g_quiet = true; got = val<T>::show(r); }); });
    Slot &s = m.reg[t][n];
    if (o == FAULT) { s.absent |= true; if (k == 1) s.may.insert(v); return; }
    if (o == OK && k != 1) sim::fail("value-from-nowhere", "get_instant_value of %s input %s gave %s although %s", TN[t], n.c_str(), got.c_str(), k ? "its Lua value has another type" : "no source provides it");
    if (o == OK && got != v) sim::fail("wrong-value", "get_instant_value of %s input %s gave %s; expected %s", TN[t], n.c_str(), got.c_str(), v.c_str());
    if (o == RAISED && k == 1) sim::fail("lost-value", "get_instant_value of %s input %s raised %s; expected %s", TN[t], n.c_str(), what_.c_str(), v.c_str());
    if (o == OK) { s.may = {v}; s.absent = false; } else s.absent = true;     // whether an older value survives a failed request is not specified
  }
  int dir_ = 0;
  void lua_src(const Op &op, int e, int var) {
    if (var % 10 == 0) { insist(op.id, "removing the Lua source", [&] { eng[e]->register_lua_source(nullptr); }); m.eng[e].lua.reset(); return; }
    auto lm = std::make_shared<LuaModel>(); lm->root = std::make_shared<Node>(); NodeP tab[6]; for (auto &x : tab) x = std::make_shared<Node>();
    bool no_hydro = var % 41 == 1, no_mesh = var % 43 == 2, broken = var % 23 == 3, late = var % 29 == 4;
    lm->root->subs["hydro"] = tab[0]; tab[0]->subs["mesh"] = tab[1]; tab[0]->subs["grid"] = tab[5]; lm->root->subs["t1"] = tab[2]; tab[2]->subs["t2"] = tab[3]; lm->root->subs["other"] = tab[4];
    for (size_t i = 6; i + 4 < op.a.size(); i += 5) { int n = op.a[i] % NN, ti = n == 2 || n == 3 || n == 4 ? (op.a[i + 2] == 3 ? 2 : 0) : n == 6 ? 1 : op.a[i + 2] % 4; int kind = op.a[i + 3] >= 0 ? op.a[i + 3] % NL : std::array<int, NT>{L_INT, L_STR, L_ARR, L_INT, L_VEC, L_BOOL, L_INT, L_FUN, L_ICS}[op.a[i + 4] % NT]; if (op.a[i + 2] & 1 && kind == L_VEC) kind = L_ARR; tab[ti]->vals[LKEY[n]] = LV{kind, op.a[i + 1] + 100}; if (op.a[i + 1] % 3 == 0) tab[(ti + 1) % 4]->vals[LKEY[n]] = LV{kind, op.a[i + 1] + 200}; if (op.a[i + 1] % 2) { tab[4]->vals[LKEY[n]] = LV{kind, op.a[i + 1] + 300}; tab[5]->vals[LKEY[n]] = LV{kind, op.a[i + 1] + 400}; } }
    std::string s; auto body = [&](NodeP t) { std::string b; for (auto &kv : t->vals) b += "[\"" + kv.first + "\"]=" + lua_text(kv.second.kind, kv.second.v) + ","; return b; };
    s += "local M={" + body(tab[1]) + "}\nlocal X={" + body(tab[3]) + "}\nlocal Y={" + body(tab[4]) + "}\nlocal Z={" + body(tab[5]) + "}\n"; if (broken) s += "x = = 3\n";
    if (!no_hydro) s += "hydro={" + body(tab[0]) + (no_mesh ? "" : "mesh=M,") + "grid=Z}\n"; s += "t1={" + body(tab[2]) + "t2=X}\nother=Y\n"; if (late) s += "error('late')\n";
    std::string file = "in.lua"; { Still q; FILE *f = fopen(file.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
    bool bad = no_hydro || no_mesh || broken || late;
    std::unique_ptr<lua_source_t> src; Out o = attempt(op.id, [&] { src = mk_lua(file); });
    if (o == FAULT) { sim::count("probe.source_construction_failed"); return; }
    if (o == OK && bad) sim::fail("bad-input-accepted", "a Lua input that fails to load was accepted");
    if (o == RAISED) { if (!bad) sim::fail("unexpected-exception", "a correct Lua input was rejected: %s", what_.c_str()); sim::count("fault.bad_lua_input"); return; }
    lm->tables["hydro"] = tab[0]; lm->tables["mesh"] = tab[1]; for (const char *k : {"prefix", "output_freq", "CFL", "final_time", "max_steps"}) lm->where[k] = {"hydro", k}; lm->where["suffix"] = {"hydro", "postfix"};
    for (const char *k : {"dimensions", "xmin", "xmax", "file"}) lm->where[k] = {"mesh", k}; lm->where["mesh_type"] = {"mesh", "type"}; lm->where["ics_func"] = {"hydro", "ics"};
    lm->p = src.get(); insist(op.id, "setting the Lua source", [&] { eng[e]->register_lua_source(src.release()); }); m.eng[e].lua = lm;
  }
  std::map<std::string, std::string> explicit_key;
  void lua_reg(const Op &op, int e, int n, int var) {
    auto &lm = m.eng[e].lua; if (!lm) return; lua_source_t *p = &eng[e]->get_lua_source(); if (p != lm->p) sim::fail("wrong-source", "get_lua_source returns another source than the one set");
    int c = var % 7;
    if (c < 4) {             // a value
      std::vector<std::string> ts; for (auto &kv : lm->tables) if (!lm->tainted.count(kv.first)) ts.push_back(kv.first);
      std::string t = ts[(var / 7) % ts.size()], k = NAMES[n], l = LKEY[(var / 100) % 3 ? n : (n + 1) % NN]; bool had = lm->where.count(k); bool rep = false;
      if (l == k && var % 2 && !had) insist(op.id, "register_value", [&] { rep = p->register_value(k, t); }); else insist(op.id, "register_value", [&] { rep = p->register_value(k, t, l); });
      if (rep != had && !faulted_any) sim::fail("registration-result", "register_value of %s said it %s a previous registration", k.c_str(), rep ? "replaced" : "did not replace");
      lm->where[k] = {t, l};
    } else {                 // a table
      std::string t, from, key; switch (c + (var / 7) % 2 * 3) { case 4: t = "t1"; from = "base_state"; break; case 5: t = "t2"; from = "t1"; break; case 6: t = "t2"; from = "hydro"; key = "grid"; break; case 7: t = "mesh"; from = "base_state"; key = "other"; break; case 8: t = "t1"; from = "base_state"; key = "nowhere"; break; default: t = "u1"; from = "base_state"; key = "t1"; }
      if (from != "base_state" && !lm->tables.count(from)) return; if (lm->tainted.count(from) || lm->tainted.count(t)) return;
      NodeP src = from == "base_state" ? lm->root : lm->tables[from]; std::string l = key.empty() ? (lm->where.count(t) ? t : "") : key; std::string kk = l.empty() ? t : l; bool exists = src->subs.count(kk); bool had = lm->where.count(t) || t == "mesh";
      bool rep = false; Out o = attempt(op.id, [&] { rep = l.empty() ? p->register_table(t, from) : p->register_table(t, from, l); });
      if (o == OK && !exists) sim::fail("bad-table-accepted", "register_table of %s accepted a table that does not exist", t.c_str());
      if (o == RAISED && exists) sim::fail("unexpected-exception", "register_table of %s raised %s", t.c_str(), what_.c_str());
      if (o != OK) { lm->tainted.insert(t); for (auto it = lm->where.begin(); it != lm->where.end();) if (it->second.first == t) { untrust(e, it->first); it = lm->where.erase(it); } else ++it; return; }
      if (!faulted_ && rep != had) sim::fail("registration-result", "register_table of %s said it %s a previous registration", t.c_str(), rep ? "replaced" : "did not replace");
      lm->tables[t] = src->subs[kk]; lm->where[t] = {from, kk};
    }
  }
  bool faulted_any = false;
  void untrust(int e, const std::string &) { m.eng[e].lua->tainted.insert("!"); }
  void run(const Program &p) override {
    static Sink errs; std::cerr.rdbuf(&errs); std::cout.rdbuf(&sink); if (!sim::verbose()) stdout = fopen("/dev/null", "w");
    std::string d = std::string(getenv("SIM_SCRATCH") ? getenv("SIM_SCRATCH") : "/tmp") + "/in" + std::to_string(getppid()); mkdir(d.c_str(), 0700); if (chdir(d.c_str())) sim::fail("scratch", "no scratch directory");
    P_copy = p.hdr[1] / 1000.0; P_pred = p.hdr[2] / 1000.0; double pa = p.hdr[0] / 1000.0;
    for (auto &e : eng) e = std::make_unique<engine_t>();
    sim::run_threads(1, [&](int) { body(p, pa); });
    if (interesting) sim::nontrivial();
  }
  void body(const Program &p, double pa) {
    sim::set_alloc_fail(pa);
    for (auto &op : p.ops) {
      int code = op.a[0] % N_OPS, e = op.a[1] % 2, t = op.a[2] % NT; std::string n = NAMES[op.a[3] % NN]; long v = op.a[4], var = op.a[5]; long g0 = g_faults + sim::alloc_faults(); faulted_any = false;
      if (m.eng[e].lua && m.eng[e].lua->tainted.count("!")) { m.eng[e].lua.reset(); eng[e]->register_lua_source(nullptr); }
      switch (code) {
        case O_HCSET: with(t, [&](auto *q) { using T = std::remove_pointer_t<decltype(q)>; std::map<std::string, T> r; r[n] = val<T>::mk(v); m.hc[t][n] = mk_show<T>(v); for (size_t i = 6; i + 4 < op.a.size(); i += 5) { std::string nn = NAMES[op.a[i] % NN]; r[nn] = val<T>::mk(op.a[i + 1]); m.hc[t][nn] = mk_show<T>(op.a[i + 1]); }
          insist(op.id, "set_registry", [&] { hcs.template set_registry<T>(r); }); }); break;
        case O_HCDEL: with(t, [&](auto *q) { using T = std::remove_pointer_t<decltype(q)>; insist(op.id, "get_registry", [&] { if (var % 2) hcs.template get_registry<T>().erase(n); else hcs.template get_registry<T>()[n] = val<T>::mk(v); }); if (var % 2) m.hc[t].erase(n); else m.hc[t][n] = mk_show<T>(v); }); break;
        case O_HCCLEAR: if (var % 2) break; insist(op.id, "clear_registry", [&] { hcs.clear_registry<types>(); }); for (auto &x : m.hc) x.clear(); break;
        case O_HCSRC: { bool on = var % 6 != 0; insist(op.id, "register_hard_coded_source", [&] { eng[e]->register_hard_coded_source(on ? mk_hard_coded_source().release() : nullptr); }); m.eng[e].hc = on; break; }
        case O_LUASRC: lua_src(op, e, var); break;
        case O_LUAREG: lua_reg(op, e, op.a[3] % NN, var); break;
        case O_TARGET: with(t, [&](auto *q) { using T = std::remove_pointer_t<decltype(q)>; std::set<std::string> s{n}; for (size_t i = 6; i + 4 < op.a.size(); i += 5) s.insert(NAMES[op.a[i] % NN]); if (var % 2) { insist(op.id, "register_targets", [&] { eng[e]->template register_targets<T>(s); }); for (auto &x : s) m.targets[t].insert(x); } else { insist(op.id, "register_target", [&] { eng[e]->template register_target<T>(n); }); m.targets[t].insert(n); } }); break;
        case O_RESOLVE: resolve(op.id, e); if (var % 3 == 0) sweep(op.id, e); break;
        case O_GET: get(op.id, e, t, n); break;
        case O_ISRES: is_res(op.id, e, t, n); break;
        case O_INSTANT: instant(op.id, e, t, n); break;
        case O_CLEAR: if (var % 2) break; insist(op.id, "clear_registry", [&] { eng[e]->clear_registry(); }); for (int i = 0; i < NT; i++) { m.targets[i].clear(); m.reg[i].clear(); if (m.called[i]) m.called[i] = 2; } break;
        case O_HOLD: { int h = var % 3; bool f = t & 1; int tt = f ? T_F : T_I; Slot &s = m.reg[tt][n]; if (s.absent || s.may.size() != 1) break; held[h].t = tt; held[h].want = *s.may.begin(); if (f) insist(op.id, "get_value", [&] { held[h].f = std::make_shared<func_t>(eng[e]->get_value<func_t>(n)); }); else insist(op.id, "get_value", [&] { held[h].f = std::make_shared<ics_t>(eng[e]->get_value<ics_t>(n)); }); break; }
        case O_CALLHELD: call_held(var % 3); break;
        case O_LUAQ: { if (eng[e]->has_lua_source() != (bool)m.eng[e].lua || eng[e]->has_hard_coded_source() != m.eng[e].hc) sim::fail("source-flag", "has_..._source is wrong"); if (!m.eng[e].lua) break; auto &s = eng[e]->get_lua_source(); const LV *lv = m.eng[e].lua->find(n); if (lv && (lv->kind == L_ARR || lv->kind == L_VEC || lv->kind == L_EMPTY || lv->kind == L_STR)) { size_t want = lv->kind == L_ARR ? 2 : lv->kind == L_VEC ? 3 + vlen(lv->v) : lv->kind == L_EMPTY ? 0 : lstr(lv->v).size(), got = 0; Out o = attempt(op.id, [&] { got = s.get_size(n); }); if (o == RAISED) sim::fail("unexpected-exception", "get_size(%s) raised %s", n.c_str(), what_.c_str()); if (o == OK && got != want) sim::fail("wrong-size", "get_size(%s) gave %zu; expected %zu", n.c_str(), got, want); }
          else if (!m.eng[e].lua->where.count(n)) { size_t got; Out o = attempt(op.id, [&] { got = s.get_size(n); }); if (o == OK) sim::fail("value-from-nowhere", "get_size(%s) gave %zu although the Lua input has no such key", n.c_str(), got); } break; }
        case O_IVNEW: { int k = var % 4; std::string nm = n, ns; if (n == "ns:a1") { nm = "a1"; ns = "ns"; } with(t, [&](auto *q) { using T = std::remove_pointer_t<decltype(q)>; insist(op.id, "init_value_t", [&] { iv[k].o = std::make_unique<ObjT<T>>(nm, (int)(var / 4 % 3), ns); }); }); iv[k].t = t; iv[k].name = n; iv[k].k = var / 4 % 3; m.targets[t].insert(n); break; }
        case O_IVGET: case O_IVRES: case O_IVVALID: query(op.id, var % 4, code - O_IVGET); break;
        case O_IVALL: for (long x = var, i = 0; i < 4; i++, x /= 3) query(op.id, var % 4, x % 3); break;
      }
      sim::count(("kind." + std::string(ON[code])).c_str()); sim::advance_time(1000);
      uint64_t h = code; for (int i = 0; i < NT; i++) { h = h * 31 + m.targets[i].size(); for (auto &kv : m.reg[i]) h = h * 31 + kv.second.may.size() * 2 + kv.second.absent; } sim::state(h); sim::mix(h * 7 + (g_faults + sim::alloc_faults() - g0));
      for (int i = 0; i < NT; i++) for (auto &kv : m.reg[i]) for (auto &s : kv.second.may) { uint64_t x = 0; for (char c : s) x = x * 131 + (unsigned char)c; sim::mix(x); }
    }
    sim::set_alloc_fail(0); P_copy = P_pred = 0;
    // faults have stopped: everything must be right
    for (int e = 0; e < 2; e++) { if (m.eng[e].lua && m.eng[e].lua->tainted.count("!")) { m.eng[e].lua.reset(); eng[e]->register_lua_source(nullptr); } resolve(9999, e); sweep(9999, e); }
    for (int i = 0; i < 3; i++) call_held(i);
    for (int i = 0; i < 4; i++) for (int w = 0; w < 3; w++) query(9999, i, w);
    for (auto &x : eng) x.reset(); for (int i = 0; i < 3; i++) call_held(i);
    m = Model();
  }
  void sweep(int id, int e) { for (int t = 0; t < NT; t++) { std::set<std::string> all = m.targets[t]; for (auto &kv : m.reg[t]) all.insert(kv.first); for (auto &n : all) { is_res(id, e, t, n); get(id, e, t, n); } } }
  void call_held(int h) { if (!held[h].f) return; std::string got; if (held[h].t == T_F) got = val<func_t>::show(*(func_t *)held[h].f.get()); else got = val<ics_t>::show(*(ics_t *)held[h].f.get()); if (got != held[h].want) sim::fail("kept-function-changed", "a resolved function that was kept gave %s; expected %s", got.c_str(), held[h].want.c_str()); }
  // what: 0 get, 1 resolved, 2 valid
  void query(int id, int k, int what) {
    IV &x = iv[k]; if (!x.o) return; Slot &s = m.reg[x.t][x.name]; const char *n = x.name.c_str(); bool certain = m.called[x.t] != 2 && s.may.size() + s.absent == 1; bool have = certain && !s.absent && m.called[x.t] == 1; std::string v = s.may.empty() ? "" : *s.may.begin(); int ps = have ? pred_says(x.k, v) : 0;
    std::string got; bool r = false; Out o = attempt(id, [&] { if (what == 0) got = x.o->get(); else r = what == 1 ? x.o->resolved() : x.o->valid(); });
    sim::count(what == 0 ? (o == OK ? "probe.initial_value_given" : "probe.initial_value_refused") : "probe.initial_value_asked");
    if (what == 0 && o == OK) { if (!s.may.count(got) || m.called[x.t] == 0) sim::fail("unresolved-value-given", "initial value %s gave %s although %s", n, got.c_str(), s.may.empty() ? "no source provides it" : m.called[x.t] == 0 ? "nothing was resolved" : ("it was resolved to " + v).c_str()); if (pred_says(x.k, got) != 1) sim::fail("invalid-value-given", "initial value %s gave %s although its predicate does not accept it", n, got.c_str()); if (x.o->status() != init_val_status_t::valid) sim::fail("wrong-status", "after giving its value, the status of %s is %s", n, init_val_status_name(x.o->status()).c_str()); }
    if (!certain || o == FAULT) return;
    if (what == 0) { if (o == RAISED && have && ps == 1) sim::fail("valid-value-refused", "initial value %s raised %s although it was resolved to the valid value %s", n, what_.c_str(), v.c_str()); if (o == RAISED && have && ps == 0 && !faulted_ && x.o->status() != init_val_status_t::invalid) sim::fail("wrong-status", "after refusing an invalid value, the status of %s is %s", n, init_val_status_name(x.o->status()).c_str()); }
    else if (what == 1) { if (o == RAISED) sim::fail("unexpected-exception", "resolved() of initial value %s raised %s", n, what_.c_str()); if (r != have) sim::fail("wrong-answer", "resolved() of initial value %s says %s; its input is %s", n, r ? "yes" : "no", have ? ("resolved to " + v).c_str() : "not resolved"); }
    else { if (o == RAISED) { if (!(have && ps == 2)) sim::fail("unexpected-exception", "valid() of initial value %s raised %s", n, what_.c_str()); } else { if (ps == 2) sim::fail("wrong-answer", "valid() of initial value %s answered although its predicate raises", n); if (r != (have && ps == 1)) sim::fail("wrong-answer", "valid() of initial value %s says %s; its input is %s%s", n, r ? "yes" : "no", have ? ("resolved to " + v).c_str() : "not resolved", have ? (ps ? ", which its predicate accepts" : ", which its predicate rejects") : ""); } }
  }
};
sim::Harness *sim_harness(const std::string &property) { auto *h = new Input; h->prop = atoi(property.c_str() + 1); return h; }
