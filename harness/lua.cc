// Harness for C10, C11, C12: the embedded Lua interface under script errors, memory
// exhaustion, collections at any instant and file faults.
// Real: ristra/embedded/embed_lua.h, ristra/initialization/input.h, the Lua interpreter.
// Seams: Lua's allocator, instruction hook and (link-time wrapped) API entry points; fopen/read.
#include "../sim/sim.h"
#include <ristra/embedded/embed_lua.h>
#include <ristra/initialization/input.h>
#include <ristra/initialization/input_source.h>
#include <sys/stat.h>
#include <array>
#include <algorithm>
#include <cmath>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
using sim::Op; using sim::Program; using sim::Rng; using namespace ristra::embedded;
enum { K_MEM = sim::K_F0, K_HOOK, K_GC, K_NEWSTATE, K_STACK, K_OPEN, K_READ, K_SHORT };

// ---- faults -------------------------------------------------------------------
static double P_mem, P_err, P_gc, P_newstate, P_stack, P_open, P_read, P_short;
static bool g_quiet = true; static int g_script; static bool g_exhausted; static int g_faults; static long g_bytes; static int g_closed, g_opened;
static int g_file_faults;
static void faulted(const char *what) { g_faults++; if (!strncmp(what, "fault.file", 10)) g_file_faults++; sim::count(what); }
struct Still { bool q; Still() : q(g_quiet) { g_quiet = true; } ~Still() { g_quiet = q; } };
static void collect(lua_State *L) { bool q = g_quiet; g_quiet = true; lua_gc(L, LUA_GCCOLLECT, 0); g_quiet = q; }
// Memory is never reused in place and old blocks are overwritten: stale pointers show.
enum { ZONED = 512, ZONE = 1024 };   // large blocks (the Lua stack) are followed by a guard zone
static void *allocf(void *, void *p, size_t o, size_t n) {
  if (!p) o = 0;
  if (n > o && g_script && !g_quiet) {
    if (g_exhausted) return nullptr;
    int c = sim::choose(K_MEM, 3, P_mem);
    if (c) { faulted("fault.lua_memory_exhausted"); if (c == 2) g_exhausted = true; return nullptr; }
  }
  if (p && o >= ZONED) for (size_t i = 0; i < ZONE; i++) if (((unsigned char *)p)[o + i] != 0xFB) sim::fail("interpreter-memory-overrun", "interpreter memory was written %zu bytes behind a block of %zu bytes", i, o);
  if (n == 0) { if (p) { memset(p, 0xDD, o); free(p); } g_bytes -= (long)o; return nullptr; }
  char *b = (char *)malloc(n >= ZONED ? n + ZONE : n); if (!b) return nullptr;
  if (n >= ZONED) memset(b + n, 0xFB, ZONE);
  if (p) { memcpy(b, p, std::min(o, n)); memset(p, 0xDD, o); free(p); }
  if (n > o) memset(b + o, 0xCD, n - o);
  g_bytes += (long)n - (long)o; return b;
}
static void hook(lua_State *L, lua_Debug *) {
  if (g_quiet) return;
  int c = sim::choose(K_HOOK, 3, P_err + P_gc); if (!c) return;
  if (c == 1 && P_err > 0) { faulted("fault.lua_error_at_instruction"); luaL_error(L, "injected"); }
  if (c == 2 && P_gc > 0) { sim::count("fault.lua_collection_in_script"); collect(L); }
}
static int panicf(lua_State *L) { const char *m = lua_tostring(L, -1); sim::fail("interpreter-panic", "an unprotected Lua error ended the program: %s", m ? m : "?"); }
static void maybe_gc(lua_State *L) { if (!g_quiet && P_gc > 0 && sim::fault(K_GC, P_gc)) { sim::count("fault.lua_collection_in_api"); collect(L); } }
struct InScript { int d; bool e; InScript() : d(g_script), e(g_exhausted) { g_script++; } ~InScript() { g_script = d; g_exhausted = e; } };
extern "C" {
lua_State *__real_luaL_newstate(); lua_State *__wrap_luaL_newstate() {
  if (!g_quiet && sim::fault(K_NEWSTATE, P_newstate)) { faulted("fault.no_interpreter_state"); return nullptr; }
  lua_State *L = lua_newstate(allocf, nullptr); if (!L) return nullptr;
  lua_atpanic(L, panicf); lua_sethook(L, hook, LUA_MASKCOUNT, 1); g_opened++; return L;
}
void __real_lua_close(lua_State *); void __wrap_lua_close(lua_State *L) { Still q; if (!L) sim::fail("close-of-nothing", "lua_close was called without an interpreter"); g_closed++; __real_lua_close(L); }
#define GCW(ret, name, sig, args) ret __real_##name sig; ret __wrap_##name sig { maybe_gc(L); return __real_##name args; }
GCW(const char *, lua_pushlstring, (lua_State *L, const char *s, size_t n), (L, s, n))
GCW(const char *, lua_pushstring, (lua_State *L, const char *s), (L, s))
GCW(int, luaL_ref, (lua_State *L, int t), (L, t))
GCW(int, lua_getglobal, (lua_State *L, const char *n), (L, n))
GCW(int, lua_getfield, (lua_State *L, int i, const char *n), (L, i, n))
GCW(int, lua_gettable, (lua_State *L, int i), (L, i))
GCW(void, lua_createtable, (lua_State *L, int a, int b), (L, a, b))
GCW(void, lua_pushcclosure, (lua_State *L, lua_CFunction f, int n), (L, f, n))
const char *__real_lua_tolstring(lua_State *, int, size_t *); const char *__wrap_lua_tolstring(lua_State *L, int i, size_t *n) { const char *s = __real_lua_tolstring(L, i, n); maybe_gc(L); return s; }
int __real_lua_pcallk(lua_State *, int, int, int, lua_KContext, lua_KFunction);
int __wrap_lua_pcallk(lua_State *L, int a, int r, int h, lua_KContext c, lua_KFunction k) { maybe_gc(L); int s; { InScript in; s = __real_lua_pcallk(L, a, r, h, c, k); } maybe_gc(L); return s; }
int __real_luaL_loadstring(lua_State *, const char *); int __wrap_luaL_loadstring(lua_State *L, const char *s) { maybe_gc(L); InScript in; return __real_luaL_loadstring(L, s); }
int __real_luaL_loadbufferx(lua_State *, const char *, size_t, const char *, const char *);
int __wrap_luaL_loadbufferx(lua_State *L, const char *b, size_t n, const char *nm, const char *m) { maybe_gc(L); InScript in; return __real_luaL_loadbufferx(L, b, n, nm, m); }
int __real_lua_checkstack(lua_State *, int); int __wrap_lua_checkstack(lua_State *L, int n) { if (!g_quiet && n > 0 && sim::fault(K_STACK, P_stack)) { faulted("fault.lua_stack_cannot_grow"); return 0; } return __real_lua_checkstack(L, n); }
}
// Lua seeds its string hashes from the clock; in a simulated run that is always the same instant.
extern "C" time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
// ---- file faults ----------------------------------------------------------------
static std::string g_dir; static std::set<int> g_fds;
static bool ours(const char *p) { return !g_quiet && p && !g_dir.empty() && strncmp(p, g_dir.c_str(), g_dir.size()) == 0; }
static bool open_fault() { if (sim::fault(K_OPEN, P_open)) { faulted("fault.file_open"); errno = EMFILE; return true; } return false; }
static ssize_t faulty_read(int fd, void *b, size_t n, ssize_t (*rd)(int, void *, size_t)) {
  if (sim::fault(K_READ, P_read)) { faulted("fault.file_read_error"); errno = EIO; return -1; }
  if (n > 1 && P_short > 0) { int c = sim::choose(K_SHORT, 4, P_short); if (c) { sim::count("fault.file_short_read"); n = c == 1 ? 1 : c == 2 ? std::min<size_t>(n, 7) : std::max<size_t>(1, n / 2); } }
  return rd(fd, b, n);
}
static ssize_t (*real_read())(int, void *, size_t) { static auto f = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read"); return f; }
struct Ck { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { return faulty_read(((Ck *)c)->fd, b, n, real_read()); }
static int ck_close(void *c) { g_fds.erase(((Ck *)c)->fd); int r = close(((Ck *)c)->fd); delete (Ck *)c; return r; }
static int ck_seek(void *c, off64_t *o, int w) { off_t r = lseek(((Ck *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static std::map<FILE *, int> g_files;
static FILE *faulty_open(const char *p, const char *m, const char *which) {
  auto f = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, which);
  if (!ours(p) || m[0] != 'r') { FILE *r = f(p, m); g_files.erase(r); return r; }
  if (open_fault()) return nullptr;
  static auto op = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
  int fd = op(p, O_RDONLY); if (fd < 0) return nullptr;
  cookie_io_functions_t io{}; io.read = ck_read; io.close = ck_close; io.seek = ck_seek; FILE *r = fopencookie(new Ck{fd}, m, io);
  g_files[r] = fd; g_fds.insert(fd); return r;   // stdio readers go through the cookie, descriptor readers through read()
}
extern "C" FILE *fopen(const char *p, const char *m) { return faulty_open(p, m, "fopen"); }
extern "C" FILE *fopen64(const char *p, const char *m) { return faulty_open(p, m, "fopen64"); }
extern "C" int fileno(FILE *f) { auto it = g_files.find(f); if (it != g_files.end()) return it->second; static auto r = (int (*)(FILE *))dlsym(RTLD_NEXT, "fileno"); return r(f); }
extern "C" int open(const char *p, int fl, ...) {
  static auto f = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"); va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);
  if (!ours(p)) return f(p, fl, md);
  if (open_fault()) return -1;
  int r = f(p, fl, md); if (r >= 0) g_fds.insert(r); return r;
}
extern "C" ssize_t read(int fd, void *b, size_t n) { if (g_quiet || !g_fds.count(fd)) return real_read()(fd, b, n); return faulty_read(fd, b, n, real_read()); }

// ---- model of the interpreter ----------------------------------------------------
const int NG = 5;
// names longer than any internal buffer, too: a global and an element of tables
#define LONGG "g4_a_global_whose_name_is_longer_than_most_people_would_like_to_type_even_once_in_their_lives"
static const std::string LONGK = "an_element_whose_name_is_longer_than_the_strings_that_lua_keeps_only_once_and_then_some_more_of_it";
static std::string G(long i) { return i == 4 ? LONGG : "g" + std::to_string(i); }
struct V { int k = 0; long i = 0; double d = 0; std::string s; };   // 0 nil 1 bool 2 int 3 dbl 4 str 5 table(id) 6 function(name)
static V vi(long i) { V v; v.k = 2; v.i = i; return v; } static V vd(double d) { V v; v.k = 3; v.d = d; return v; } static V vs(std::string s) { V v; v.k = 4; v.s = s; return v; }
static V vb(bool b) { V v; v.k = 1; v.i = b; return v; } static V vt(long id) { V v; v.k = 5; v.i = id; return v; } static V vf(std::string n) { V v; v.k = 6; v.s = n; return v; }
struct Tab { std::vector<V> arr; std::map<std::string, V> h; };
struct Raise {}; struct Cut {};
struct M {
  V g[NG]; std::map<long, Tab> tabs; long next = 1; bool strict = false; long budget = 1 << 30; long steps = 0; long cnt = 0;
  void eff() { if (budget-- <= 0) throw Cut(); steps++; }             // before each visible effect
  void set(int i, V v) { eff(); g[i] = v; }
  const V &get(int i) { if (g[i].k == 0 && strict) throw Raise(); return g[i]; }
  long newtab(Tab t) { tabs[next] = t; return next++; }
};
static std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
static std::string show(const M &m) {
  std::map<long, int> seen; std::string o;
  std::function<void(const V &)> f = [&](const V &v) {
    switch (v.k) { case 0: o += "nil"; break; case 1: o += v.i ? "true" : "false"; break; case 2: o += std::to_string(v.i); break; case 3: o += "d" + num(v.d); break; case 4: o += "'" + v.s + "'"; break; case 6: o += "fn:" + v.s; break;
      case 5: { if (seen.count(v.i)) { o += "#" + std::to_string(seen[v.i]); break; } int n = (int)seen.size(); seen[v.i] = n; const Tab &t = m.tabs.at(v.i); o += "{"; for (auto &x : t.arr) { f(x); o += ","; } for (auto &x : t.h) { o += x.first + "="; f(x.second); o += ","; } o += "}"; } }
  };
  for (int i = 0; i < NG; i++) { o += G(i) + "="; f(m.g[i]); o += " "; }
  o += "cnt=" + std::to_string(m.cnt); return o;
}
static const char *PRELUDE = R"LUA(
cnt = 0
local GN = {[0] = "g0", "g1", "g2", "g3", ")LUA" LONGG R"LUA("}
function f_id(a) return a end
function f_sum(a, b) return a + b end
function f_split(a) return a, a + 1, a + 2 end
function f_nil() return nil end
function f_none() end
function f_err(x) error("boom " .. tostring(x)) end
function f_errtab() error({}) end
function f_set(i, v) if math.type(i) ~= "integer" then error("x") end _G[GN[i % 5]] = v; return v end
function f_seterr(i, v) if math.type(i) ~= "integer" then error("x") end _G[GN[i % 5]] = v; error("after") end
function f_rec(n) local t = setmetatable({}, {__index = function(t, k) return t[k + 1] end}) return t[n] end
function f_many(n) local t = {} for i = 1, n do t[i] = i end return table.unpack(t, 1, n) end
function f_count() cnt = cnt + 1; return cnt end
function f_tab() return {7, 8, 9, k = "v"} end
function f_mixed() return "a", 2, true end
function f_arr(a, b, c) return a + b + c end
function f_pc(n) local ok = pcall(f_err, n) if ok then return 1 end return -1 end
function f_co(n) local c = coroutine.wrap(function(a) local b = coroutine.yield(a + 1) return b end) return c(n) end
function f_str(n) return string.rep("x", n) .. "y" .. n end
function f_errnil() error(nil) end
function f_errobj() error(setmetatable({}, {__tostring = function() error("inner") end})) end
function f_wide(...) return select("#", ...) end
function f_garbage(n) local t = {} for i = 1, n do t = {t, "s" .. i} end return n end
)LUA";
static const char *FN[] = {"f_id", "f_sum", "f_split", "f_nil", "f_none", "f_err", "f_errtab", "f_set", "f_seterr", "f_rec", "f_many", "f_count", "f_tab", "f_mixed", "f_arr", "f_pc", "f_co", "f_str", "f_garbage", "f_errnil", "f_errobj", "f_wide"};
static std::map<const void *, std::string> g_fn;
// what the interpreter itself holds, read with raw accesses only
static std::string snapshot(lua_State *L) {
  Still q; __real_lua_checkstack(L, 40); int top = lua_gettop(L); std::map<const void *, int> seen; std::string o;
  std::function<void()> f = [&]() {   // describes and pops the top value
    switch (lua_type(L, -1)) {
      case LUA_TNIL: o += "nil"; break; case LUA_TBOOLEAN: o += lua_toboolean(L, -1) ? "true" : "false"; break;
      case LUA_TNUMBER: o += lua_isinteger(L, -1) ? std::to_string(lua_tointeger(L, -1)) : "d" + num(lua_tonumber(L, -1)); break;
      case LUA_TSTRING: { size_t n; const char *s = __real_lua_tolstring(L, -1, &n); o += "'" + std::string(s, n) + "'"; break; }
      case LUA_TFUNCTION: { auto it = g_fn.find(lua_topointer(L, -1)); o += "fn:" + (it == g_fn.end() ? "?" : it->second); break; }
      case LUA_TTABLE: {
        const void *p = lua_topointer(L, -1); if (seen.count(p)) { o += "#" + std::to_string(seen[p]); break; } int id = (int)seen.size(); seen[p] = id;
        o += "{"; size_t n = lua_rawlen(L, -1); for (size_t i = 1; i <= n; i++) { lua_rawgeti(L, -1, (long)i); f(); o += ","; }
        std::vector<std::string> keys; lua_pushnil(L); while (lua_next(L, -2)) { lua_pop(L, 1); if (lua_type(L, -1) == LUA_TSTRING) keys.push_back(lua_tostring(L, -1)); }
        std::sort(keys.begin(), keys.end()); for (auto &k : keys) { o += k + "="; __real_lua_pushstring(L, k.c_str()); lua_rawget(L, -2); f(); o += ","; }
        o += "}"; break; }
      default: o += "?"; }
    lua_pop(L, 1);
  };
  lua_pushglobaltable(L); auto fetch = [&](const std::string &k) { __real_lua_pushstring(L, k.c_str()); lua_rawget(L, -2); f(); };
  for (int i = 0; i < NG; i++) { std::string n = G(i); o += n + "="; fetch(n); o += " "; }
  o += "cnt="; fetch("cnt"); lua_settop(L, top); return o;
}
static int registry_refs(lua_State *L) { Still q; int n = 0; __real_lua_checkstack(L, 4); size_t len = lua_rawlen(L, LUA_REGISTRYINDEX); for (size_t i = 3; i <= len; i++) { if (lua_rawgeti(L, LUA_REGISTRYINDEX, (long)i) != LUA_TNIL && !lua_isinteger(L, -1)) n++; lua_pop(L, 1); } return n; }

// ---- model of calls --------------------------------------------------------------
static double asnum(const V &v) { if (v.k == 2) return (double)v.i; if (v.k == 3) return v.d; throw Raise(); }
static V addv(const V &a, const V &b) { if (a.k == 2 && b.k == 2) return vi(a.i + b.i); return vd(asnum(a) + asnum(b)); }
static std::vector<V> callm(M &m, const std::string &f, std::vector<V> a) {
  if (f == "f_wide") return {vi((long)a.size())};
  a.resize(std::max<size_t>(a.size(), 3));
  if (f == "f_id") return {a[0]}; if (f == "f_sum") return {addv(a[0], a[1])};
  if (f == "f_split") return {a[0], addv(a[0], vi(1)), addv(a[0], vi(2))};
  if (f == "f_nil") return {V()}; if (f == "f_none") return {};
  if (f == "f_set") { if (a[0].k != 2) throw Raise(); m.set((int)(a[0].i % NG), a[1]); return {a[1]}; }
  if (f == "f_seterr") { if (a[0].k != 2) throw Raise(); m.set((int)(a[0].i % NG), a[1]); throw Raise(); }
  if (f == "f_many") { if (a[0].k != 2) throw Raise(); std::vector<V> r; for (long i = 1; i <= a[0].i; i++) r.push_back(vi(i)); return r; }
  if (f == "f_count") { m.eff(); m.cnt++; return {vi(m.cnt)}; }
  if (f == "f_tab") { Tab t; t.arr = {vi(7), vi(8), vi(9)}; t.h["k"] = vs("v"); return {vt(m.newtab(t))}; }
  if (f == "f_mixed") return {vs("a"), vi(2), vb(true)};
  if (f == "f_arr") return {addv(addv(a[0], a[1]), a[2])};
  if (f == "f_pc") return {vi(-1)}; if (f == "f_co") return {addv(a[0], vi(1))};
  if (f == "f_str") { if (a[0].k != 2) throw Raise(); return {vs(std::string((size_t)std::max(0L, a[0].i), 'x') + "y" + std::to_string(a[0].i))}; }
  if (f == "f_garbage") { asnum(a[0]); return {a[0]}; }
  throw Raise();   // f_err, f_errtab, f_rec
}
// ---- scripts ---------------------------------------------------------------------
struct Script { std::string text; bool syntax_error = false; std::vector<std::function<void(M &)>> st; };
static Script make_script(uint64_t seed, int n) {
  Script s;
  for (int q = 0; q < n; q++) {
    Rng r(seed * 1000003 + (uint64_t)q * 7919 + 17); r.next(); long i = r.below(NG), j = r.below(NG), a = r.range(-9, 99), b = r.range(0, 9); std::string gi = G(i), gj = G(j), sa = std::to_string(a), sb = std::to_string(b);
    std::string t; std::function<void(M &)> f;
    switch (r.below(26)) {
      case 0: case 1: { long w = b == 9 ? a + (1L << 40) : b == 8 ? a + 2147483647L - 40 : b == 7 ? -2147483648L - a + 40 : a; t = gi + " = " + std::to_string(w); f = [=](M &m) { m.set((int)i, vi(w)); }; break; }
      case 2: t = gi + " = " + std::to_string(a) + " + 0.5"; f = [=](M &m) { m.set((int)i, vd((double)a + 0.5)); }; break;
      case 3: { bool z = b > 7; t = gi + " = 's" + sa + (z ? "_\\0z\\0'" : "_'"); f = [=](M &m) { m.set((int)i, vs("s" + sa + (z ? std::string("_\0z\0", 4) : std::string("_")))); }; break; }
      case 4: t = gi + " = " + (b & 1 ? "true" : "false"); f = [=](M &m) { m.set((int)i, vb(b & 1)); }; break;
      case 5: t = gi + " = nil"; f = [=](M &m) { m.set((int)i, V()); }; break;
      case 6: if (b > 4) { t = gi + " = {" + sa + ", k = 'v" + sb + "', " + LONGK + " = " + sb + "}"; f = [=](M &m) { Tab tb; tb.arr = {vi(a)}; tb.h["k"] = vs("v" + sb); tb.h[LONGK] = vi(b); m.set((int)i, vt(m.newtab(tb))); }; break; }   // fall through
      case 7: t = gi + " = {" + sa + ", " + sb + ", 0.25, k = 'v" + sb + "'}"; f = [=](M &m) { Tab tb; tb.arr = {vi(a), vi(b), vd(0.25)}; tb.h["k"] = vs("v" + sb); m.set((int)i, vt(m.newtab(tb))); }; break;
      case 24: t = gi + " = {{" + sa + ", " + sb + "}, " + (b < 5 ? "{" + sb + ", 2.5}" : b < 7 ? "{" + sb + ", 2.5, 4}" : b == 7 ? "{" + sb + "}" : sb) + "}"; f = [=](M &m) { Tab r1, r2, tb; r1.arr = {vi(a), vi(b)}; r2.arr = {vi(b)}; if (b < 7) r2.arr.push_back(vd(2.5)); if (b == 5 || b == 6) r2.arr.push_back(vi(4)); tb.arr.push_back(vt(m.newtab(r1))); tb.arr.push_back(b <= 7 ? vt(m.newtab(r2)) : vi(b)); m.set((int)i, vt(m.newtab(tb))); }; break;
      case 8: t = gi + " = " + gj; f = [=](M &m) { V v = m.get((int)j); m.set((int)i, v); }; break;
      case 9: t = gi + ".k = " + sa; f = [=](M &m) { V v = m.get((int)i); if (v.k != 5) throw Raise(); m.eff(); m.tabs[v.i].h["k"] = vi(a); }; break;
      case 10: t = gi + "[#" + gi + " + 1] = " + sa; f = [=](M &m) { V v = m.get((int)i); if (v.k != 5) throw Raise(); m.eff(); m.tabs[v.i].arr.push_back(vi(a)); }; break;
      case 11: t = gi + " = " + gj + " + " + sa; f = [=](M &m) { V v = addv(m.get((int)j), vi(a)); m.set((int)i, v); }; break;
      case 12: t = gi + " = f_sum(" + sa + ", " + sb + ")"; f = [=](M &m) { m.set((int)i, vi(a + b)); }; break;
      case 13: t = "f_set(" + std::to_string(i) + ", " + sa + ")"; f = [=](M &m) { m.set((int)i, vi(a)); }; break;
      case 14: t = "f_seterr(" + std::to_string(i) + ", " + sa + ")"; f = [=](M &m) { m.set((int)i, vi(a)); throw Raise(); }; break;
      case 15: t = b < 3 ? "error('boom')" : b < 6 ? "error({})" : b < 8 ? "error(nil)" : "f_errobj()"; f = [=](M &) { throw Raise(); }; break;
      case 16: t = gi + " = f_pc(" + sa + ")"; f = [=](M &m) { m.set((int)i, vi(-1)); }; break;
      case 17: if (b < 4) { long len = b == 0 ? 2 : b == 1 ? 4 : b == 2 ? 100 + a * 3 : 1000 + a * 10; t = "do local t = {k = " + sb + "} for i = 1, " + std::to_string(len) + " do t[i] = i * 2 end " + gi + " = t end"; f = [=](M &m) { Tab tb; for (long z = 1; z <= len; z++) tb.arr.push_back(vi(z * 2)); tb.h["k"] = vi(b); m.set((int)i, vt(m.newtab(tb))); }; break; }
        t = "do local s = 0 for i = 1, 20 do s = s + i end " + gi + " = s end"; f = [=](M &m) { m.set((int)i, vi(210)); }; break;
      case 18: t = gi + " = f_co(" + sa + ")"; f = [=](M &m) { m.set((int)i, vi(a + 1)); }; break;
      case 19: t = gi + " = f_str(" + sb + ")"; f = [=](M &m) { m.set((int)i, vs(std::string((size_t)b, 'x') + "y" + sb)); }; break;
      case 20: { std::string fn = FN[b]; t = gi + " = " + fn; f = [=](M &m) { m.set((int)i, vf(fn)); }; break; }
      case 21: t = "f_count()"; f = [=](M &m) { m.eff(); m.cnt++; }; break;
      case 22: if (b == 0) { t = "f_rec(0)"; f = [](M &) { throw Raise(); }; } else { t = "f_garbage(" + sb + ")"; f = [](M &) {}; } break;
      case 25: t = gi + " = setmetatable({" + sa + ", " + sb + ", k = 'w" + sb + "'}, {__index = function(_, k) error('no ' .. tostring(k)) end})"; f = [=](M &m) { Tab tb; tb.arr = {vi(a), vi(b)}; tb.h["k"] = vs("w" + sb); m.set((int)i, vt(m.newtab(tb))); }; break;
      default: if (b < 3 && q == n - 1) { t = gi + " = = " + sa; s.syntax_error = true; f = [](M &) { throw Raise(); }; } else if (q == n - 1) { t = "return 1, nil, " + gi; f = [=](M &m) { m.get((int)i); }; } else { t = gi + " = " + sa; f = [=](M &m) { m.set((int)i, vi(a)); }; }
    }
    s.text += t + "\n"; s.st.push_back(f);
  }
  if (seed % 29 == 3) { std::string pad; while (pad.size() < 5000 + seed % 5 * 20000) pad += "-- some words that mean nothing at all\n"; s.text = seed % 2 ? pad + s.text : s.text + pad; }
  return s;
}
static std::string run_model(M &m, const Script &s) { if (s.syntax_error) return "throw"; try { for (auto &f : s.st) f(m); return "ok"; } catch (Raise &) { return "throw"; } }

// ---- typed reads -------------------------------------------------------------------
enum { T_INT, T_DBL, T_BOOL, T_STR, T_VECD, T_ARR3, T_VECS, T_MAT, T_N };
static const char *TN[] = {"int", "double", "bool", "string", "vector<double>", "array<double,3>", "vector<string>", "matrix<2,2>"};
static std::string want_as(const M &m, const V &v, int t) {   // "?" = any outcome
  switch (t) {
    case T_INT: if (v.k == 2) return v.i == (long)(int)v.i ? std::to_string(v.i) : "throw"; if (v.k == 3) return v.d == std::floor(v.d) && std::fabs(v.d) < 2e9 ? std::to_string((long)v.d) : "throw"; return "throw";
    case T_DBL: if (v.k == 2) return num((double)v.i); if (v.k == 3) return num(v.d); return "throw";
    case T_BOOL: return v.k == 1 ? (v.i ? "true" : "false") : "throw";
    case T_STR: if (v.k == 4) return v.s; if (v.k == 2) return std::to_string(v.i); return v.k == 3 ? "?" : "throw";
    case T_MAT: { if (v.k != 5) return "throw"; const Tab &tb = m.tabs.at(v.i); if (tb.arr.size() != 2) return "throw"; std::string o = "["; for (auto &x : tb.arr) { if (x.k != 5) return "throw"; auto &row = m.tabs.at(x.i).arr; if (row.size() != 2) return "throw"; for (auto &y : row) { std::string e = want_as(m, y, T_DBL); if (e == "throw") return e; o += e + ","; } } return o + "]"; }
    case T_ARR3: case T_VECD: case T_VECS: { if (v.k != 5) return "throw"; const Tab &tb = m.tabs.at(v.i); std::string o = "["; if (t == T_ARR3 && tb.arr.size() != 3) return "throw"; bool any = false; for (auto &x : tb.arr) { std::string e = want_as(m, x, t == T_VECS ? T_STR : T_DBL); if (e == "throw") return e; if (e == "?") any = true; o += e + ","; } return any ? "?" : o + "]"; }
  }
  return "?";
}
static std::string str(int v) { return std::to_string(v); } static std::string str(double v) { return num(v); } static std::string str(bool v) { return v ? "true" : "false"; } static std::string str(const std::string &s) { return s; }
template <class T> static std::string strv(const T &v) { std::string o = "["; for (auto const &x : v) o += str(x) + ","; return o + "]"; }
template <class T, std::size_t R, std::size_t C> struct Mat { T d[R][C]; T &operator()(int i, int j) { return d[i][j]; } };
static std::string got_as(const lua_result_t &r, int t) {
  switch (t) { case T_INT: return str(r.as<int>()); case T_DBL: return str(r.as<double>()); case T_BOOL: return str(r.as<bool>()); case T_STR: return r.as<std::string>(); case T_VECD: return strv(r.as<std::vector<double>>()); case T_ARR3: return strv(r.as<std::array<double, 3>>()); case T_MAT: { auto x = r.as<Mat<double, 2, 2>>(); std::string o = "["; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) o += num(x(i, j)) + ","; return o + "]"; } default: return strv(r.as<std::vector<std::string>>()); }
}
struct Args { int kind; long a; long b; std::vector<V> v; };
static std::string larg(long a) { return "s" + std::to_string(a) + "_" + (a == 230 ? std::string(6000, 'l') : a % 8 == 3 ? std::string(300, 'm') : ""); }
static Args make_args(long seed) {
  Rng r((uint64_t)seed); r.next(); Args a; a.kind = (int)r.below(10); a.a = r.coin(0.05) ? 230 : r.range(0, 40); a.b = r.range(-5, 5);
  switch (a.kind) { case 0: break; case 1: a.v = {vi(a.a)}; break; case 2: a.v = {vi(a.a), vi(a.b)}; break; case 3: a.v = {vi(a.a % NG), vd((double)a.b + 0.5)}; break; case 4: case 9: a.v = {vs(larg(a.a))}; break; case 5: a.v = {vd(1.5), vd((double)a.a), vd(2.0)}; break; case 6: a.v.assign(64, vd((double)a.a + 0.5)); break; case 7: for (int i = 0; i < 24; i++) a.v.push_back(vi(a.a + i)); break; default: a.v = {vb(a.a & 1)}; }
  return a;
}
static lua_result_t do_call(const lua_result_t &f, const Args &a) {
  switch (a.kind) { case 0: return f(); case 1: return f((int)a.a); case 2: return f((long long)a.a, (int)a.b); case 3: return f((int)(a.a % NG), (double)a.b + 0.5); case 4: return f(larg(a.a)); case 9: { std::string q = larg(a.a); return f(q.c_str()); } case 5: return f(std::array<double, 3>{1.5, (double)a.a, 2.0}); case 6: { std::array<double, 64> w; w.fill((double)a.a + 0.5); return f(w); } case 7: { int i = (int)a.a; return f(i, i + 1, i + 2, i + 3, i + 4, i + 5, i + 6, i + 7, i + 8, i + 9, i + 10, i + 11, i + 12, i + 13, i + 14, i + 15, i + 16, i + 17, i + 18, i + 19, i + 20, i + 21, i + 22, i + 23); } default: return f((bool)(a.a & 1)); }
}
// how a call's results are read: 0 double 1 int 2 string 3 (int,int,int) 4 (string,int,bool) 5 size only 6 vector<double> 7 ["k"] string 8 (double,double)
static std::string got_res(const lua_result_t &r, int how) {
  switch (how) {
    case 0: return str(r.as<double>()); case 1: return str(r.as<int>()); case 2: return r.as<std::string>(); case 5: return std::to_string(r.size()); case 6: return strv(r.as<std::vector<double>>()); case 7: return r["k"].as<std::string>();
    case 3: { auto t = r.as<int, int, int>(); return str(std::get<0>(t)) + "," + str(std::get<1>(t)) + "," + str(std::get<2>(t)); }
    case 4: { auto t = r.as<std::string, int, bool>(); return std::get<0>(t) + "," + str(std::get<1>(t)) + "," + str(std::get<2>(t)); }
    default: { auto t = r.as<double, double>(); return str(std::get<0>(t)) + "," + str(std::get<1>(t)); } }
}
static std::string want_res(M &m, const std::vector<V> &r, int how) {
  if (r.empty() || r.back().k == 0) return "throw";
  auto multi = [&](std::vector<int> ts) -> std::string { if (r.size() != ts.size()) return "throw"; std::string o; bool any = false; for (size_t i = 0; i < ts.size(); i++) { std::string e = want_as(m, r[i], ts[i]); if (e == "throw") return e; if (e == "?") any = true; o += (i ? "," : "") + e; } return any ? "?" : o; };
  switch (how) {
    case 0: return multi({T_DBL}); case 1: return multi({T_INT}); case 2: return multi({T_STR}); case 3: return multi({T_INT, T_INT, T_INT}); case 4: return multi({T_STR, T_INT, T_BOOL}); case 8: return multi({T_DBL, T_DBL}); case 5: return std::to_string(r.size()); case 6: return multi({T_VECD});
    default: if (r.size() != 1) return "?"; if (r[0].k != 5) return "throw"; { auto &h = m.tabs.at(r[0].i).h; auto it = h.find("k"); return it == h.end() ? "throw" : want_as(m, it->second, T_STR); } }
}

// ---- C10 / C12 ----------------------------------------------------------------------
enum { O_SCRIPT, O_GET, O_ELEM, O_ELEMN, O_CALL, O_DEF, O_TRY, O_HOLD, O_USE, O_WRAP, O_STRICT, O_NOFILE, O_NEWLUA, O_FILE, O_INPUT, O_SRC, O_NOPS };
static const char *ON[] = {"script", "get", "element", "element#", "call", "get-or-default", "try_access", "hold", "use-held", "wrapped call", "strict globals", "load missing file", "new interpreter", "load file", "input_t::load", "lua_source_t"};
struct Held { bool set = false; V v; std::unique_ptr<lua_result_t> r; };
struct Lua : sim::Harness {
  int prop;
  void generate(Rng &r, Program &p) override {
    int n = (int)r.range(2, 10);
    long fm = r.below(5);   // what is injected: 0 nothing, 1 errors, 2 memory, 3 collections, 4 everything
    p.hdr = {fm, r.below(3), r.below(4) == 0, (long)(r.next() >> 40)};   // fault mix, intensity, caller keeps values on the Lua stack
    for (int i = 0; i < n; i++) {
      long code;
      if (prop == 12) code = r.coin(0.5) ? O_FILE : r.coin(0.5) ? O_INPUT : r.coin(0.4) ? O_SRC : r.coin(0.5) ? O_SCRIPT : r.below(O_FILE);
      else { static const int w[] = {O_SCRIPT, O_SCRIPT, O_SCRIPT, O_GET, O_GET, O_ELEM, O_ELEMN, O_CALL, O_CALL, O_CALL, O_CALL, O_DEF, O_TRY, O_HOLD, O_USE, O_WRAP, O_STRICT, O_NOFILE, O_NEWLUA}; code = w[r.below(sizeof w / sizeof *w)]; }
      long rep = r.coin(0.06) ? r.range(24, 60) : 1;
      p.add(0, {code, (long)(r.next() >> 20), r.range(1, 6), rep, (long)(r.next() >> 20)});
    }
  }
  void simplify(Program &p, std::vector<Program> &out) override {
    for (size_t i = 0; i < p.ops.size(); i++) { if (p.ops[i].a[2] > 1) { Program q = p; q.ops[i].a[2]--; out.push_back(q); } if (p.ops[i].a[3] > 1) { Program q = p; q.ops[i].a[3] = 1; out.push_back(q); } }
    if (p.hdr[2]) { Program q = p; q.hdr[2] = 0; out.push_back(q); }
  }
  std::string describe(const Program &p) override {
    std::string s = "faults " + std::to_string(p.hdr[0]) + (p.hdr[2] ? ", caller's values on the stack" : "") + ": ";
    for (auto &o : p.ops) { s += std::string(ON[o.a[0] % O_NOPS]); if (o.a[0] == O_SCRIPT || o.a[0] == O_FILE || o.a[0] == O_INPUT) { std::string t = make_script((uint64_t)o.a[1], (int)o.a[2]).text; for (size_t at; (at = t.find("-- some")) != std::string::npos;) t.erase(at, t.find('\n', at) + 1 - at); for (auto &c : t) if (c == '\n') c = ';'; s += "{" + t + "}"; } else s += "(" + std::to_string(o.a[1] % 1000) + "," + std::to_string(o.a[2]) + ")"; if (o.a[3] > 1) s += "x" + std::to_string(o.a[3]); s += " "; }
    return s;
  }
  static std::string spath(const char *n) { return g_dir + "/" + n; }
  static void write_file(const std::string &p, const std::string &t) { Still q; FILE *f = fopen(p.c_str(), "w"); if (!f) sim::fail("scratch", "cannot write %s", p.c_str()); fwrite(t.data(), 1, t.size(), f); fclose(f); }
  void run(const Program &p) override {
    static std::ostringstream sink; std::cerr.rdbuf(sink.rdbuf()); std::cout.rdbuf(sink.rdbuf()); g_quiet = true; if (!sim::verbose()) stdout = fopen("/dev/null", "w");
    std::string dir = std::string(getenv("SIM_SCRATCH") ? getenv("SIM_SCRATCH") : "/tmp") + "/lua" + std::to_string(getppid());
    mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) sim::fail("scratch", "no scratch directory"); dir = "./sim"; mkdir(dir.c_str(), 0700);
    sim::run_threads(1, [&](int) { body(p, dir); });
  }
  void body(const Program &p, const std::string &dir) {
    g_dir = dir; double inten = p.hdr[1] == 0 ? 0.2 : p.hdr[1] == 1 ? 1 : 4; long fm = p.hdr[0];
    g_quiet = true; M m; Held held[3]; long ops_done = 0, failures = 0;
    lua_t lua; lua_State *L = lua.state(); lua.run_string(PRELUDE); lua_settop(L, 0); g_fn.clear();
    for (auto f : FN) { __real_lua_getglobal(L, f); g_fn[lua_topointer(L, -1)] = f; lua_pop(L, 1); }
    ristra::initialization::input_t in; M mi; std::string in_file; lua_State *LI = nullptr;
    if (prop == 12) { write_file(spath("prelude.lua"), PRELUDE); in.load(spath("prelude.lua")); in_file = spath("prelude.lua"); LI = in["f_id"].state(); lua_settop(LI, 0); for (auto f : FN) { __real_lua_getglobal(LI, f); g_fn[lua_topointer(LI, -1)] = f; lua_pop(LI, 1); } }
    if (p.hdr[2]) { for (int i = 0; i < 3; i++) lua_pushinteger(L, 7000 + i); }
    int base = p.hdr[2] ? 3 : 0;
    P_mem = P_err = P_gc = P_newstate = P_stack = P_open = P_read = P_short = 0;
    if (fm == 1 || fm == 4) P_err = 0.004 * inten; if (fm == 2 || fm == 4) P_mem = 0.03 * inten; if (fm >= 3) { P_gc = 0.01 * inten; } if (fm == 4) P_stack = 0.01 * inten;
    if (fm == 1 || fm == 4) P_newstate = 0.3;
    if (prop == 12 && fm) { P_open = 0.05 * inten; P_read = 0.05 * inten; P_short = 0.3; }
    for (auto &o : p.ops) {
      long rep = o.a[3]; std::string first; int top0 = 0, refs0 = 0; long bytes0 = 0, bytesm = 0; long failed = 0, okay = 0;
      for (long k = 0; k < rep; k++) {
        if (k == 1) { collect(L); top0 = lua_gettop(L); refs0 = registry_refs(L); bytes0 = g_bytes; failed = okay = 0; }
        if (rep > 8 && k == rep / 2) { for (int c = 0; c < 6; c++) collect(L); bytesm = g_bytes; }
        std::string want, got; bool inp = o.a[0] % O_NOPS == O_INPUT; (void)first;
        step(o, (int)k, inp ? mi : m, inp ? LI : L, lua, in, held, want, got);
        if (inp) { if (got == "ok") in_file = spath("s.lua"); if (in.filename() != in_file) sim::fail("file-name", "after a load that %s, filename() is %s", got == "ok" ? "succeeded" : "failed", in.filename().c_str()); if (snapshot(LI) != show(mi)) sim::fail("state-differs", "after input_t::load (%s): %.200s ; expected %.200s", got.c_str(), snapshot(LI).c_str(), show(mi).c_str()); }
        ops_done++; if (got == "throw") { failed++; failures++; } else okay++;
        if (sim::verbose()) sim::note("%s -> %s (expected %s, %d faults)  state %s", ON[o.a[0] % O_NOPS], got.c_str(), want.c_str(), g_faults, snapshot(L).c_str());
        if (base) for (int i = 0; i < 3; i++) if (lua_gettop(L) < 3 || lua_tointeger(L, i + 1) != 7000 + i) sim::fail("callers-stack-damaged", "%s (%s) removed or changed values the caller had on the Lua stack", ON[o.a[0] % O_NOPS], got == "throw" ? "failed" : "succeeded");
        std::string act = snapshot(L);
        if (sim::verbose()) sim::note("  model %s", show(m).c_str());
        if (act != show(m)) sim::fail("state-differs", "after %s (%s): the interpreter holds %.200s ; expected %.200s", ON[o.a[0] % O_NOPS], got.c_str(), act.c_str(), show(m).c_str());
        sim::mix(std::hash<std::string>()(act + got) + (uint64_t)o.a[0]); sim::state(std::hash<std::string>()(act)); sim::advance_time(1000);
      }
      if (rep > 8) {
        for (int c = 0; c < 6; c++) collect(L); long n = rep - 1; int top1 = lua_gettop(L), refs1 = registry_refs(L); long bytes1 = g_bytes; (void)okay;
        sim::count("probe.burst"); if (failed >= n / 2) sim::count("probe.burst_of_failures");
        if (top1 - top0 >= n / 2) sim::fail("stack-leak", "%ld repetitions of %s (%ld failed) left %d more values on the Lua stack", n, ON[o.a[0] % O_NOPS], failed, top1 - top0);
        if (refs1 - refs0 >= n / 2) sim::fail("reference-leak", "%ld repetitions of %s (%ld failed) left %d more registry references", n, ON[o.a[0] % O_NOPS], failed, refs1 - refs0);
        if (o.a[0] != O_SCRIPT && o.a[0] != O_FILE && o.a[0] != O_INPUT && bytesm - bytes0 > 2500 + n * 8 && bytes1 - bytesm > 2500 + n * 8) sim::fail("memory-leak", "%ld repetitions of %s (%ld failed) left %ld more bytes in use", n, ON[o.a[0] % O_NOPS], failed, bytes1 - bytes0);
      }
    }
    g_quiet = true;
    for (auto &h : held) { h.set = false; h.r.reset(); }
    if (failures && ops_done > failures) sim::nontrivial();
  }
  // one operation on the real interpreter and on the model
  void step(const Op &o, int k, M &m, lua_State *L, lua_t &lua, ristra::initialization::input_t &in, Held *held, std::string &want, std::string &got) {
    bool isfile = false; int c0 = g_closed, o0 = g_opened; long code = o.a[0] % O_NOPS; Rng r((uint64_t)o.a[4]); r.next(); long gi = r.below(NG); std::string gname = G(gi); int t = (int)r.below(T_N), how = (int)r.below(9); long x = o.a[1];
    M m0 = m; std::vector<std::string> prefix;
    std::function<std::string(M &)> model; std::function<std::string()> real;
    switch (code) {
      case O_SCRIPT: { Script s = make_script((uint64_t)x, (int)o.a[2]); model = [=](M &q) { return run_model(q, s); }; bool form = r.coin(0.5); real = [=, &lua] { if (form) lua(s.text); else lua.run_string(s.text); return std::string("ok"); }; break; }
      case O_GET: model = [=](M &q) { if (q.g[gi].k == 0) return std::string("throw"); return want_as(q, q.g[gi], t); }; real = [=, &lua] { return got_as(lua[gname], t); }; break;
      case O_ELEM: { std::string key = r.coin(0.6) ? "k" : r.coin(0.6) ? LONGK : r.coin(0.5) ? LONGK + "x" : "missing"; model = [=](M &q) { V v = q.g[gi]; if (v.k != 5) return std::string("throw"); auto &h = q.tabs.at(v.i).h; auto it = h.find(key); return it == h.end() ? std::string("throw") : want_as(q, it->second, t); }; real = [=, &lua] { return got_as(lua[gname][key], t); }; break; }
      case O_ELEMN: { int n = r.coin(0.7) ? (int)r.range(0, 5) : r.coin(0.5) ? (int)r.range(90, 400) : (int)r.range(900, 2100); model = [=](M &q) { V v = q.g[gi]; if (v.k != 5) return std::string("throw"); auto &a = q.tabs.at(v.i).arr; if (n < 1 || n > (int)a.size()) return std::string("throw"); return want_as(q, a[n - 1], t); }; real = [=, &lua] { return got_as(lua[gname][n], t); }; break; }
      case O_CALL: {
        bool viag = r.coin(0.2); std::string fn = FN[r.below(sizeof FN / sizeof *FN)]; Args a = make_args(x);
        model = [=](M &q) { std::string f = fn; if (viag) { if (q.g[gi].k != 6) return std::string("throw"); f = q.g[gi].s; } try { auto res = callm(q, f, a.v); return want_res(q, res, how); } catch (Raise &) { return std::string("throw"); } };
        real = [=, &lua] { return got_res(do_call(lua[viag ? gname : fn], a), how); }; break; }
      case O_DEF: model = [=](M &q) { if (q.g[gi].k == 0) return q.strict ? std::string("throw") : std::string("def"); return want_as(q, q.g[gi], T_STR); }; real = [=, &lua] { return lua[gname].as(std::string("def")); }; break;
      case O_TRY: model = [=](M &q) { if (q.g[gi].k == 0) return std::string("throw"); return want_as(q, q.g[gi], T_DBL); }; real = [=, &lua] { return str(lua_try_access_as(lua, gname, double)); }; break;
      case O_HOLD: { int s = (int)r.below(3); model = [=](M &q) { if (q.g[gi].k == 0 && q.strict) return std::string("throw"); return std::string("ok"); }; real = [=, &lua] { auto n = std::make_unique<lua_result_t>(lua[gname]); Still z; held[s].r = std::move(n); held[s].v = m.g[gi]; held[s].set = true; return std::string("ok"); }; break; }
      case O_USE: { int s = (int)r.below(3); if (!held[s].set) { model = [](M &) { return std::string("ok"); }; real = [] { return std::string("ok"); }; break; } V v = held[s].v; int el = (int)r.below(3), n = r.coin(0.8) ? (int)r.range(1, 4) : (int)r.range(90, 1300);
        model = [=](M &q) { if (v.k == 0) return std::string("throw"); if (!el) return want_as(q, v, t); if (v.k != 5) return std::string("throw"); auto &tb = q.tabs.at(v.i); if (el == 1) { auto it = tb.h.find("k"); return it == tb.h.end() ? std::string("throw") : want_as(q, it->second, t); } if (n > (int)tb.arr.size()) return std::string("throw"); return want_as(q, tb.arr[(size_t)n - 1], t); };
        real = [=] { if (!el) return got_as(*held[s].r, t); return el == 1 ? got_as((*held[s].r)["k"], t) : got_as((*held[s].r)[n], t); }; break; }
      case O_WRAP: {
        bool up = r.coin(0.5); std::string fn = FN[r.below(sizeof FN / sizeof *FN)]; double d = (double)r.range(0, 9) + 0.5;
        model = [=](M &q) { try { auto res = callm(q, fn, {vd(d)}); return want_res(q, res, 0); } catch (Raise &) { return std::string("throw"); } };
        real = [=, &lua] { using F = std::function<double(double)>; F f; { auto lr = std::make_unique<lua_result_t>(lua[fn]); if (up) f = Lua_Func_Wrapper<F>(std::move(lr)); else f = Lua_Func_Wrapper<F>(*lr); } return num(f(d)); }; break; }
      case O_STRICT: { bool on = r.coin(0.6); model = [=](M &q) { q.eff(); q.strict = on; return std::string("ok"); }; real = [=, &lua] { Still z; lua.run_string(on ? "setmetatable(_G, {__index = function(_, k) error('undeclared ' .. k, 2) end})" : "setmetatable(_G, nil)"); return std::string("ok"); }; break; }
      case O_NOFILE: model = [](M &) { return std::string("throw"); }; real = [&lua] { lua.loadfile(spath("does_not_exist.lua")); return std::string("ok"); }; break;
      case O_NEWLUA: model = [](M &) { return std::string("ok"); }; real = [] { lua_t second; second.run_string("g0 = 5"); if (second["g0"].as<int>() != 5) return std::string("wrong"); return std::string("ok"); }; break;
      case O_SRC: {
        isfile = true; long a = r.range(1, 99), b = r.range(1, 9); bool bad = r.coin(0.2);
        write_file(spath("src.lua"), "hydro = { CFL = " + std::to_string(a) + "/4, prefix = 'p" + std::to_string(b) + "',\n max_steps = " + std::to_string(b) + ", mesh = { type = 'box', xmin = {" + std::to_string(b) + ", 2}, dimensions = {3, 4} }" + (bad ? "" : " }") + "\n" + std::string((size_t)r.below(3) * 3000, ' '));
        model = [=](M &) { return bad ? std::string("throw") : num((double)a / 4) + " p" + std::to_string(b) + " " + std::to_string(b) + " [" + num((double)b) + "," + num(2) + ",]"; };
        real = [=] { ristra::lua_source_t src(spath("src.lua")); double d = -1; std::string s; int n = -1; std::vector<double> v; src.get_value("CFL", d); src.get_value("prefix", s); src.get_value("max_steps", n); src.get_value("xmin", v); return num(d) + " " + s + " " + std::to_string(n) + " " + strv(v); }; break; }
      case O_FILE: case O_INPUT: default: {
        isfile = true; Script s = make_script((uint64_t)x, (int)o.a[2]); std::string text = s.text; long trunc = -1;
        if (r.coin(0.25)) { trunc = r.below((long)text.size() + 1); text = text.substr(0, (size_t)trunc); }
        if (trunc >= 0) {   // a file cut short is another file: does the rest of it parse?
          Still z; lua_State *P = luaL_newstate(); bool ok = luaL_loadbuffer(P, text.data(), text.size(), "x") == LUA_OK; lua_close(P);
          if (ok && !(text.empty() || text.back() == '\n')) { text = s.text; trunc = -1; }
          else if (ok) { size_t lines = 0; for (size_t at = 0; at < text.size(); at = text.find('\n', at) + 1) lines += text.compare(at, 3, "-- ") != 0;   // padding is no statement
             s.st.resize(std::min(s.st.size(), lines)); s.syntax_error = false; }
          else { s.syntax_error = true; sim::count("probe.truncated_unparsable_file"); }
        }
        if (r.coin(0.1)) text = "#!/usr/bin/lua\n" + text;
        if (r.coin(0.15)) text += std::string((size_t)r.range(500, 6000), ' ') + "\n";
        write_file(spath("s.lua"), text);
        model = [=](M &q) { return run_model(q, s); };
        if (code == O_FILE) real = [=, &lua] { lua.loadfile(spath("s.lua")); return std::string("ok"); };
        else real = [=, &in] { in.load(spath("s.lua")); return std::string("ok"); };
      }
    }
    // expected outcome without faults
    M mw = m0; mw.steps = 0; mw.budget = 1 << 30; want = model(mw);
    g_faults = g_file_faults = 0; g_script = 0; g_exhausted = false; got.clear();
    sim::begin_op(o.id + 1000 * k); g_quiet = false;
    try { got = real(); } catch (std::exception &e) { got = "throw"; } catch (...) { g_quiet = true; sim::fail("foreign-exception", "%s raised something that is not a std::exception", ON[code]); }
    g_quiet = true; sim::end_op();
    int faults = g_faults; sim::count(got == "throw" ? "probe.operation_failed" : "probe.operation_succeeded");
    if (!faults) {
      if (want != "?" && got != want) sim::fail("outcome-differs", "%s(%s%s) gave \"%.80s\"; expected \"%.80s\"", ON[code], code == O_GET || code == O_ELEM || code == O_ELEMN || code == O_USE ? (gname + " as " + TN[t]).c_str() : "", code == O_CALL ? "" : "", got.c_str(), want.c_str());
      m = mw;
    } else {
      if (got != "throw") {   // the fault was survived: the outcome must be the right one
        if (want != "?" && got != want) sim::fail("outcome-differs", "%s, %d faults injected, gave \"%.80s\"; expected \"%.80s\"", ON[code], faults, got.c_str(), want.c_str());
        m = mw;
      } else {
        // some completed effects of the operation, in order, and nothing else
        std::string act = snapshot(L); bool found = false; long total = mw.steps;
        bool none = isfile && g_file_faults > 0;   // nothing may run if the file was not read completely
        for (long b = none ? 0 : total; b >= 0 && !found; b--) { M q = m0; q.steps = 0; q.budget = b; try { model(q); } catch (Cut &) {} if (show(q) == act) { q.budget = 1 << 30; m = q; found = true; } }
        if (!found) sim::fail("partial-state", "%s failed after an injected fault; the interpreter holds %.200s which no completed part of it produces from %.160s", ON[code], act.c_str(), show(m0).c_str());
      }
    }
    m.budget = 1 << 30;
    if ((code == O_NEWLUA || code == O_SRC) && g_closed - c0 != g_opened - o0) sim::fail("interpreter-leak", "%s (%s): %d interpreters created, %d closed", ON[code], got.c_str(), g_opened - o0, g_closed - c0);
  }
};
// ---- C11 ------------------------------------------------------------------------------
// Objects are closures and tables that carry a collectable marker; its finaliser tells when
// the object went away.
static std::set<long> g_dead;
static int note_dead(lua_State *L) { lua_rawgeti(L, 1, 1); g_dead.insert((long)lua_tointeger(L, -1)); return 0; }
static const char *PRELUDE11 = R"LUA(
local mt = {__gc = note_dead}
local function marker(id) return setmetatable({id}, mt) end
function mkfun(id) local m = marker(id) return function(x) return m[1] * 1000 + x end end
function mktab(id) return {marker(id), id, id + 1, id + 2, name = "t" .. id, sub = {id * 2}, fun = mkfun(id + 500)} end
function churn(n) local t = {} for i = 1, n do t[i] = {"c" .. i} end return n end
v0 = 0 v1 = 0 v2 = 0 v3 = 0
)LUA";
struct Obj { int kind = 0; long id = 0; };   // 0 number, 1 function, 2 table, 3 sub table, 4 string
static bool same(const Obj &a, const Obj &b) { return a.kind == b.kind && a.id == b.id; }
enum { H_SETF, H_SETT, H_SETN, H_TAKE, H_SUB, H_CALLRES, H_COPY, H_MOVE, H_ASSIGN, H_DROP, H_USE, H_WRAPU, H_WRAPR, H_WCOPY, H_WDROP, H_WCALL, H_CHURN, H_GC, H_DROPLUA, H_NEWOBJ, H_BULK, H_SETEL, H_NOPS };
static const char *HN[] = {"v=function", "v=table", "v=number", "take", "take element", "take call result", "copy handle", "move handle", "assign handle", "drop handle", "use handle", "wrap(unique_ptr)", "wrap(reference)", "copy wrapper", "drop wrapper", "call wrapper", "churn", "collect", "drop lua_t", "new object over handle", "hold many at once", "replace table element"};
struct Hold : sim::Harness {
  static const int NH = 5, NW = 3;
  void generate(Rng &r, Program &p) override {
    p.hdr = {r.below(4)}; int n = (int)r.range(5, 26); int nh = (int)r.range(2, NH), nv = (int)r.range(2, 4);
    for (int i = 0; i < n; i++) { static const int w[] = {H_SETF, H_SETF, H_SETT, H_SETT, H_SETN, H_TAKE, H_TAKE, H_TAKE, H_TAKE, H_SUB, H_SUB, H_CALLRES, H_CALLRES, H_COPY, H_MOVE, H_ASSIGN, H_DROP, H_DROP, H_USE, H_USE, H_USE, H_WRAPU, H_WRAPU, H_WRAPR, H_WRAPR, H_WCOPY, H_WDROP, H_WCALL, H_WCALL, H_WCALL, H_CHURN, H_GC, H_GC, H_BULK, H_SETEL, H_SETEL};
      long c = i < 2 ? r.below(2) : i == 2 ? (long)H_TAKE : w[r.below(sizeof w / sizeof *w)]; if (r.coin(0.02)) c = H_DROPLUA; p.add(0, {c, r.below(nh), r.below(nh), r.below(nv), r.below(9)}); }
  }
  std::string describe(const Program &p) override { std::string s = "gc mode " + std::to_string(p.hdr[0]) + ": "; for (auto &o : p.ops) { char b[80]; snprintf(b, 80, "%s(h%ld,h%ld,v%ld,%ld) ", HN[o.a[0] % H_NOPS], o.a[1], o.a[2], o.a[3], o.a[4]); s += b; } return s; }
  void run(const Program &p) override {
    static std::ostringstream sink; std::cerr.rdbuf(sink.rdbuf()); std::cout.rdbuf(sink.rdbuf()); g_quiet = true; if (!sim::verbose()) stdout = fopen("/dev/null", "w");
    sim::run_threads(1, [&](int) { body(p); });
  }
  void body(const Program &p) {
    using F = std::function<double(double)>;
    g_quiet = true; g_dead.clear(); long bytes_start = g_bytes; int c0 = g_closed, o0 = g_opened;
    P_mem = P_err = P_newstate = P_stack = P_open = P_read = P_short = 0; P_gc = p.hdr[0] == 0 ? 0 : p.hdr[0] == 1 ? 0.02 : p.hdr[0] == 2 ? 0.2 : 0.004;
    auto lua = std::make_unique<lua_t>(); lua_State *L = lua->state(); lua_register(L, "note_dead", note_dead); lua->run_string(PRELUDE11); lua_settop(L, 0); collect(L);
    int refs0 = registry_refs(L); long next = 1; lua_state_ptr_t keep;
    Obj var[4]; std::unique_ptr<lua_result_t> h[NH]; Obj ho[NH]; std::unique_ptr<F> w[NW]; Obj wo[NW]; bool interesting = false;
    std::map<long, int> objs;   // every marker ever made
    std::map<long, long> fun_of;   // table -> the function that is its element "fun"
    auto alive = [&](long id) { auto holds = [&](const Obj &o) { if (o.kind == 1 || o.kind == 2) { if (o.id == id) return true; if (o.kind == 2 && fun_of[o.id] == id) return true; } return false; };
      if (lua) for (auto &v : var) if (holds(v)) return true; for (int i = 0; i < NH; i++) if (h[i] && holds(ho[i])) return true; for (int i = 0; i < NW; i++) if (w[i] && holds(wo[i])) return true; return false; };
    auto stateL = [&]() -> lua_State * { if (lua) return lua->state(); for (auto &x : h) if (x) return x->state(); return nullptr; };
    auto check_dead = [&](const char *when) { for (long id : g_dead) if (alive(id)) sim::fail("collected-while-held", "%s: object %ld was collected although a handle or variable still denotes it", when, id); };
    auto use = [&](const lua_result_t &r, const Obj &o, long x) {
      std::string got, want;
      switch (o.kind) {
        case 0: want = std::to_string(o.id); got = std::to_string(r.as<int>()); break;
        case 1: want = num((double)(o.id * 1000 + x)); got = num(r((int)x).as<double>()); break;
        case 2: want = "t" + std::to_string(o.id) + " " + std::to_string(o.id + 2) + " " + num((double)(fun_of[o.id] * 1000 + x)); got = r["name"].as<std::string>() + " " + std::to_string(r[4].as<int>()) + " " + num(r["fun"]((int)x).as<double>()); break;
        case 3: want = std::to_string(o.id * 2); got = std::to_string(r[1].as<int>()); break;
        default: want = "t" + std::to_string(o.id); got = r.as<std::string>(); }
      Still q; if (got != want) sim::fail("handle-changed", "a handle that denotes object %ld (kind %d) gave %s; expected %s", o.id, o.kind, got.c_str(), want.c_str());
    };
    for (auto &op : p.ops) {
      long code = op.a[0] % H_NOPS, a = op.a[1] % NH, b = op.a[2] % NH, v = op.a[3] % 4, x = op.a[4]; std::string vn = "v" + std::to_string(v); long wa = a % NW, wb = b % NW;
      sim::begin_op(op.id); g_quiet = false; g_script = 0; bool did = false;
      try { switch (code) {
        case H_SETF: if (lua) { long id = next++; lua->run_string(vn + " = mkfun(" + std::to_string(id) + ")"); Still q; var[v] = Obj{1, id}; objs[id]; did = true; } break;
        case H_SETT: if (lua) { long id = next++; lua->run_string(vn + " = mktab(" + std::to_string(id) + ")"); Still q; var[v] = Obj{2, id}; objs[id]; objs[id + 500]; fun_of[id] = id + 500; did = true; } break;
        case H_SETN: if (lua) { lua->run_string(vn + " = " + std::to_string(x)); var[v] = Obj{0, x}; did = true; } break;
        case H_NEWOBJ: case H_TAKE: if (lua) { auto r = std::make_unique<lua_result_t>((*lua)[vn]); h[a] = std::move(r); ho[a] = var[v]; did = true; } break;
        case H_SUB: if (h[b] && ho[b].kind == 2) { auto r = x % 3 == 0 ? std::make_unique<lua_result_t>((*h[b])["sub"]) : x % 3 == 1 ? std::make_unique<lua_result_t>((*h[b])["fun"]) : std::make_unique<lua_result_t>((*h[b])["name"]); Obj o = x % 3 == 0 ? Obj{3, ho[b].id} : x % 3 == 1 ? Obj{1, fun_of[ho[b].id]} : Obj{4, ho[b].id}; h[a] = std::move(r); ho[a] = o; did = true; } break;
        case H_CALLRES: if (lua) { long id = next++; objs[id]; if (x & 1) { auto r = std::make_unique<lua_result_t>((*lua)["mkfun"]((int)id)); h[a] = std::move(r); ho[a] = Obj{1, id}; } else { objs[id + 500]; fun_of[id] = id + 500; auto r = std::make_unique<lua_result_t>((*lua)["mktab"]((int)id)); h[a] = std::move(r); ho[a] = Obj{2, id}; } did = true; } break;
        case H_COPY: if (h[b]) { auto r = std::make_unique<lua_result_t>(*h[b]); Obj o = ho[b]; h[a] = std::move(r); ho[a] = o; did = true; } break;
        case H_MOVE: if (h[b] && a != b) { auto r = std::make_unique<lua_result_t>(std::move(*h[b])); Obj o = ho[b]; h[b].reset(); h[a] = std::move(r); ho[a] = o; did = true; } break;
        case H_ASSIGN: if (h[a] && h[b]) { *h[a] = *h[b]; ho[a] = ho[b]; did = true; } break;
        case H_DROP: h[a].reset(); did = true; break;
        case H_USE: if (h[a]) { use(*h[a], ho[a], x); did = true; } break;
        case H_WRAPU: if (h[b] && ho[b].kind == 1) { auto f = std::make_unique<F>(Lua_Func_Wrapper<F>(std::make_unique<lua_result_t>(*h[b]))); w[wa] = std::move(f); wo[wa] = ho[b]; did = true; } break;
        case H_WRAPR: if (h[b] && ho[b].kind == 1) { auto f = std::make_unique<F>(Lua_Func_Wrapper<F>(*h[b])); w[wa] = std::move(f); wo[wa] = ho[b]; did = true; } break;
        case H_WCOPY: if (w[wb]) { auto f = std::make_unique<F>(*w[wb]); Obj o = wo[wb]; w[wa] = std::move(f); wo[wa] = o; did = true; } break;
        case H_WDROP: w[wa].reset(); did = true; break;
        case H_WCALL: if (w[wa]) { double d = (*w[wa])((double)x); Still q; if (d != (double)(wo[wa].id * 1000 + x)) sim::fail("wrapped-function-changed", "a std::function wrapping object %ld gave %g; expected %ld", wo[wa].id, d, wo[wa].id * 1000 + x); did = true; interesting = true; } break;
        case H_SETEL: if (lua && var[v].kind == 2) { long id = next++; lua->run_string(vn + ".fun = mkfun(" + std::to_string(id) + ")"); Still q; objs[id]; fun_of[var[v].id] = id; did = true; } break;
        case H_CHURN: if (lua) { (*lua)["churn"]((int)x * 3); did = true; } break;
        case H_BULK: if (lua) { std::vector<lua_result_t> many; long n = x == 8 ? 900 : 10 << (x % 5); for (long i = 0; i < n; i++) many.push_back(i % 3 == 2 && !many.empty() ? many[(size_t)i / 2] : (*lua)[vn]); (*lua)["churn"](5); for (long i = 0; i < n; i += 1 + n / 5) use(many[(size_t)i], var[v], x); if (x & 1) std::reverse(many.begin(), many.end()); many.resize(many.size() / 2, many[0]); for (long i = 0; i < (long)many.size(); i += 1 + n / 5) use(many[(size_t)i], var[v], x); did = true; } break;
        case H_GC: { Still q; if (stateL()) { collect(stateL()); did = true; } break; }
        case H_DROPLUA: { bool any = false; for (auto &y : h) if (y) any = true; if (any) { lua.reset(); did = true; sim::count("probe.lua_object_dropped_with_handles_alive"); } break; }
      } } catch (std::exception &e) { g_quiet = true; sim::fail("unexpected-exception", "%s raised %s", HN[code], e.what()); }
      g_quiet = true; sim::end_op(); if (did) { sim::count(("kind." + std::string(HN[code])).c_str()); interesting |= code == H_USE; }
      check_dead(HN[code]); sim::advance_time(1000);
      uint64_t st = 0; for (int i = 0; i < NH; i++) st = st * 31 + (h[i] ? 1 + ho[i].kind : 0); for (int i = 0; i < NW; i++) st = st * 31 + (w[i] ? 1 : 0); st = st * 31 + g_dead.size(); sim::state(st); sim::mix(st + (uint64_t)code * 64 + (uint64_t)a * 8 + (uint64_t)b);
      if (!lua) { bool any = false; for (auto &y : h) if (y) any = true; if (!any) break; }
    }
    // every handle still denotes its object; then what is no longer held must be collectable
    try {
      for (int i = 0; i < NH; i++) if (h[i]) use(*h[i], ho[i], 3);
      for (int i = 0; i < NW; i++) if (w[i]) { double d = (*w[i])(2.0); if (d != (double)(wo[i].id * 1000 + 2)) sim::fail("wrapped-function-changed", "a std::function wrapping object %ld gave %g at the end", wo[i].id, d); }
    } catch (std::exception &e) { sim::fail("unexpected-exception", "a held handle raised %s", e.what()); }
    if (interesting) sim::nontrivial();
    if (lua_State *S = stateL()) {
      if (lua) { lua_settop(S, 0); }
      collect(S); collect(S); check_dead("final collection");
      if (lua) for (auto &kv : objs) if (!alive(kv.first) && !g_dead.count(kv.first)) sim::fail("never-released", "object %ld is denoted by no handle and no variable but cannot be collected", kv.first);
      for (auto &y : h) { if (lua || &y != &h[0]) {} }
      if (lua) { for (auto &y : h) y.reset(); for (auto &y : w) y.reset(); int r1 = registry_refs(S); if (r1 > refs0) sim::fail("reference-leak", "%d registry references remain after the last handle is gone", r1 - refs0); }
    }
    for (auto &y : h) y.reset(); for (auto &y : w) y.reset(); lua.reset();
    if (g_opened - o0 != g_closed - c0) sim::fail("interpreter-leak", "%d interpreters created, %d closed", g_opened - o0, g_closed - c0);
    if (g_bytes != bytes_start) sim::fail("memory-leak", "%ld bytes of interpreter memory were never returned", g_bytes - bytes_start);
  }
};
sim::Harness *sim_harness(const std::string &property) {
  if (property == "C11") return new Hold;
  auto *h = new Lua; h->prop = atoi(property.c_str() + 1); return h;
}
