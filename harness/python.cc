// C60: the embedded Python helpers under failing calls, raising scripts and histories of both.
#include <Python.h>
#include <ristra/ristra-config.h>
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <ristra/embedded/embed_python.h>
#include "sim.h"
using sim::Op; using sim::Program; using sim::Rng;
namespace em = ristra::embedded;
enum { K_API = sim::K_F0, K_HIT, K_HITKIND, K_STICKY };
static int g_sticky = -1, g_calls;   // repeated operations: the same call (1..5) or script step (6, 7) fails every time; -1: faults at random
static double p_api, p_hit; static bool armed; static int g_inj, g_hits, g_fired = -1; static long g_live;
// ---- seams: the C API calls made by the library can fail as they do when memory runs out ----
static bool fail_api(const char *what) { if (!armed) return false; g_calls++; if (g_sticky >= 0 ? g_sticky != g_calls : !sim::fault(K_API, p_api)) return false; g_inj++; sim::count((std::string("fault.api.") + what).c_str()); return true; }
#define W1(R, name, T1) extern "C" R __real_##name(T1); extern "C" R __wrap_##name(T1 a) { if (fail_api(#name)) { PyErr_NoMemory(); return (R)ERRV; } return __real_##name(a); }
#define ERRV nullptr
W1(PyObject *, PyUnicode_DecodeFSDefault, const char *) W1(PyObject *, PyImport_Import, PyObject *) W1(PyObject *, PyLong_FromLong, long) W1(PyObject *, PyFloat_FromDouble, double) W1(PyObject *, PyTuple_New, Py_ssize_t) W1(PyObject *, PyNumber_Long, PyObject *)
extern "C" {
PyObject *__real_PyObject_GetAttrString(PyObject *, const char *); PyObject *__wrap_PyObject_GetAttrString(PyObject *o, const char *n) { if (fail_api("PyObject_GetAttrString")) { PyErr_NoMemory(); return nullptr; } return __real_PyObject_GetAttrString(o, n); }
PyObject *__real_PyObject_CallObject(PyObject *, PyObject *); PyObject *__wrap_PyObject_CallObject(PyObject *o, PyObject *n) { if (fail_api("PyObject_CallObject")) { PyErr_NoMemory(); return nullptr; } return __real_PyObject_CallObject(o, n); }
int __real_PyList_Insert(PyObject *, Py_ssize_t, PyObject *); int __wrap_PyList_Insert(PyObject *l, Py_ssize_t i, PyObject *o) { if (fail_api("PyList_Insert")) { PyErr_NoMemory(); return -1; } return __real_PyList_Insert(l, i, o); }
PyObject *__real_PySys_GetObject(const char *); PyObject *__wrap_PySys_GetObject(const char *n) { if (fail_api("PySys_GetObject")) return nullptr; return __real_PySys_GetObject(n); }
int __real_PySys_SetObject(const char *, PyObject *); int __wrap_PySys_SetObject(const char *n, PyObject *o) { if (fail_api("PySys_SetObject")) { PyErr_NoMemory(); return -1; } return __real_PySys_SetObject(n, o); }
int __real_PyTuple_SetItem(PyObject *, Py_ssize_t, PyObject *); int __wrap_PyTuple_SetItem(PyObject *t, Py_ssize_t i, PyObject *o) { if (fail_api("PyTuple_SetItem")) { Py_XDECREF(o); PyErr_NoMemory(); return -1; } return __real_PyTuple_SetItem(t, i, o); }
PyObject *__real_PyTuple_GetItem(PyObject *, Py_ssize_t); PyObject *__wrap_PyTuple_GetItem(PyObject *t, Py_ssize_t i) { if (fail_api("PyTuple_GetItem")) { PyErr_NoMemory(); return nullptr; } return __real_PyTuple_GetItem(t, i); }
}
struct Calm { bool a; Calm() : a(armed) { armed = false; } ~Calm() { armed = a; } };
// hit(): a point inside a script where it may fail
static PyObject *hit(PyObject *, PyObject *) {
  int n = g_hits++; if (armed && (g_sticky >= 0 ? g_sticky == 6 + n : sim::fault(K_HIT, p_hit))) { g_inj++; g_fired = n; sim::count("fault.script_raises"); static PyObject **kinds[] = {&PyExc_RuntimeError, &PyExc_MemoryError, &PyExc_KeyboardInterrupt, &PyExc_ValueError, &PyExc_StopIteration, &PyExc_AttributeError, &PyExc_SystemExit}; int k = g_sticky >= 0 ? 0 : sim::choose(K_HITKIND, 7, 0.8); PyErr_SetString(*kinds[k], "injected"); return nullptr; }
  Py_RETURN_NONE;
}
static PyMethodDef hitdef = {"hit", hit, METH_NOARGS, nullptr};
static PyMemAllocatorEx g_old[2];
static void *c_malloc(void *x, size_t n) { void *p = ((PyMemAllocatorEx *)x)->malloc(((PyMemAllocatorEx *)x)->ctx, n); if (p) g_live++; return p; }
static void *c_calloc(void *x, size_t n, size_t s) { void *p = ((PyMemAllocatorEx *)x)->calloc(((PyMemAllocatorEx *)x)->ctx, n, s); if (p) g_live++; return p; }
static void *c_realloc(void *x, void *q, size_t n) { void *p = ((PyMemAllocatorEx *)x)->realloc(((PyMemAllocatorEx *)x)->ctx, q, n); if (p && !q) g_live++; return p; }
static void c_free(void *x, void *q) { if (q) g_live--; ((PyMemAllocatorEx *)x)->free(((PyMemAllocatorEx *)x)->ctx, q); }

enum T { NONE_, INT, FLT, STR, BIG, IDX, TUP, FUNC, MOD, OBJ };
struct V { T t = NONE_; long i = 0; double d = 0; std::vector<V> e; std::string s; };
static V vi(long i) { V v; v.t = INT; v.i = i; return v; } static V vf(double d) { V v; v.t = FLT; v.d = d; return v; } static V vn(T t, std::string s = "", long i = 0) { V v; v.t = t; v.s = s; v.i = i; return v; }
static bool same(PyObject *o, const V &v) { switch (v.t) { case NONE_: return o == Py_None; case INT: { if (!PyLong_Check(o)) return false; int of; long x = PyLong_AsLongAndOverflow(o, &of); return !of && x == v.i; } case FLT: return PyFloat_Check(o) && PyFloat_AS_DOUBLE(o) == v.d; case STR: return PyUnicode_Check(o) && PyUnicode_CompareWithASCIIString(o, v.s.c_str()) == 0; case BIG: { int of; if (!PyLong_Check(o)) return false; PyLong_AsLongAndOverflow(o, &of); return of != 0; } case TUP: { if (!PyTuple_Check(o) || PyTuple_GET_SIZE(o) != (long)v.e.size()) return false; for (size_t i = 0; i < v.e.size(); i++) if (!PyTuple_GET_ITEM(o, i) || !same(PyTuple_GET_ITEM(o, i), v.e[i])) return false; return true; } case FUNC: return PyCallable_Check(o); case MOD: return PyModule_Check(o); default: return true; } }
static double dval(long a, long form) { long k = form / 20 % 5; return (a + 0.25) * (k == 3 ? 1e-310 : k == 4 ? 1e290 : 1); }
static std::string pathname(long a) { a &= 15; return "p" + std::to_string(a & 7) + (a == 7 || a == 15 ? std::string(a == 7 ? 300 : 5000, 'q') : ""); }
#define LONGNAME "a_name_that_is_rather_long_as_names_go_but_not_longer_than_any_that_generated_code_contains_"
static size_t tix(const V &v, long var, long form) { return v.e.size() > 100 && form % 4 ? (size_t)(var * 11 + form % 4 * 3) % 1010 : form % 16 == 8 ? (size_t)-1 - var % 3 : (size_t)(var % 5); }
struct Hd { PyObject *o = nullptr; V v; };
// model of the functions: name, arguments wanted, hits inside
struct Fn { const char *name; int nargs; };
static const Fn FN[] = {{"f_add", 2}, {"f_rec", 1}, {"f_tup", 2}, {"f_raise", 1}, {"f_none", 0}, {"f_big", 0}, {"f_str", 0}, {"f_neg", 0}, {"f_negf", 0}, {"f_idx", 1}, {"f_half", 1}, {"f_nan", 0}, {"f_ident", 1}, {"f_chain", 3}, {"notcallable", 0}, {"f_late", 2}, {"f_huge", 1}, {"f_many", 9}, {"f_wide", 1}, {"f_vast", 0}}; const int NFN = 20;
static const char *SETUP =
  "import sys, gc, types, importlib.machinery\nclass Sink:\n  def write(self, s): return len(s)\n  def flush(self): pass\nsys.stdout = Sink()\nsys.stderr = Sink()\nlog = []\nv0 = 0\nv1 = 0\nv2 = 0\n"
  "def f_add(a, b):\n  return a + b\n"
  "def f_rec(a):\n  hit()\n  log.append(a)\n  hit()\n  return len(log)\n"
  "def f_tup(a, b):\n  hit()\n  return (a, b, a * b)\n"
  "def f_raise(a):\n  x = [a] * 50\n  raise ValueError(x)\n"
  "def f_none():\n  return None\n"
  "def f_big():\n  return 1 << 80\n"
  "def f_str():\n  return 'xyz'\n"
  "def f_neg():\n  return -1\n"
  "def f_negf():\n  return -1.0\n"
  "class Idx:\n  def __init__(self, n): self.n = n\n  def __index__(self):\n    hit()\n    return self.n\n  def __float__(self):\n    hit()\n    return self.n + 0.5\n"
  "def f_idx(a):\n  return Idx(a)\n"
  "def f_half(a):\n  return a + 0.5\n"
  "def f_nan():\n  return float('nan')\n"
  "def f_ident(a):\n  return a\n"
  "def f_chain(a, b, c):\n  try:\n    hit()\n    log.append(b)\n    return a\n  finally:\n    log.append(c)\n"
  "def f_huge(a):\n  return (1e300, 2.0 ** 63, -2.0 ** 63, 1.5e18, float('inf'))[a % 5 if isinstance(a, int) else 0]\n"
  "notcallable = 5\n"
  "def f_many(a, b, c, d, e, f, g, h, i):\n  hit()\n  log.append((a, b, c, d, e, f, g, h, i))\n  return (i, h, g, f, e, d, c, b, a)\n"
  "def f_wide(a):\n  return tuple(range(300)) + (a,) + tuple(range(700))\n"
  "def f_vast():\n  return 1 << 2000\n"
  LONGNAME "1 = 1234567\n" LONGNAME "2 = 7654321\n"
  "def f_late(a, b):\n  log.append(a)\n  log.append(b)\n  raise KeyError(b)\n"
  "class Obj:\n  good = 3\n  @property\n  def boom(self):\n    raise RuntimeError('boom')\n  @property\n  def maybe(self):\n    hit()\n    return 8\nobj = Obj()\n"
  "class Finder:\n  def find_spec(self, name, path, target=None):\n    if name in ('okmod', '" LONGNAME "m', 'bad', 'flaky', 'broken'): return importlib.machinery.ModuleSpec(name, self)\n    return None\n  def create_module(self, spec): return None\n  def exec_module(self, m):\n    if m.__name__ == 'bad': raise ValueError('bad module')\n    if m.__name__ == 'flaky': hit()\n    if m.__name__ == 'broken': exec('x = = 3')\n    m.val = 7\nsys.meta_path.insert(0, Finder())\n";
static const char *MODS[] = {"math", "okmod", "bad", "missing", "flaky", "broken", "", "__main__", "missing.sub", "okmod.sub", LONGNAME "m", LONGNAME "n"};
static const char *ATTR_MAIN[] = {"v0", "v1", "f_add", "nope", "obj", "log", "", "notcallable", LONGNAME "1", LONGNAME "2", LONGNAME "3"};
enum { O_RUN, O_IMPORT, O_PATH, O_FUNC, O_ATTR, O_CALL, O_LONG, O_DBL, O_TGET, O_TSET, O_FREE, O_PROP, N_O };
static const char *ON[] = {"run_string", "import", "add_to_path", "get_attribute (function)", "get_attribute", "call_function", "as_long", "as_double", "get_tuple_element", "set_tuple_element", "free", "get_attribute (object)"};
struct Py : sim::Harness {
  PyThreadState *ts = nullptr; PyObject *mainm = nullptr;
  void init() override {
    setenv("PYTHONHASHSEED", "0", 1); setenv("PYTHONMALLOC", "debug", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("PYTHONNOUSERSITE", "1", 1);
    em::python_set_program_name("simulated"); em::python_initialize();
    PyMemAllocatorDomain dom[2] = {PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ}; for (int i = 0; i < 2; i++) { PyMem_GetAllocator(dom[i], &g_old[i]); PyMemAllocatorEx n = {&g_old[i], c_malloc, c_calloc, c_realloc, c_free}; PyMem_SetAllocator(dom[i], &n); }
    mainm = PyImport_AddModule("__main__"); Py_INCREF(mainm); PyObject *h = PyCFunction_New(&hitdef, nullptr); PyObject *b = PyImport_ImportModule("builtins"); PyObject_SetAttrString(b, "hit", h); Py_DECREF(h); Py_DECREF(b);
    em::python_run_string(SETUP); PyRun_SimpleString("import gc, math\ngc.collect()\ngc.disable()\n"); ts = PyEval_SaveThread();
  }
  void generate(Rng &r, Program &p) override {
    p.hdr = {r.coin(0.5) ? 0 : r.range(5, 400), r.coin(0.4) ? 0 : r.range(10, 600)}; for (int i = 0; i < 2; i++) p.add(0, {O_FUNC, i, r.below(NFN), 0, 0, 0, 1});
    for (int i = r.range(3, r.coin(0.3) ? 40 : 14); i > 0; i--) { static const int w[] = {O_RUN, O_RUN, O_IMPORT, O_IMPORT, O_PATH, O_FUNC, O_FUNC, O_FUNC, O_ATTR, O_CALL, O_CALL, O_CALL, O_CALL, O_CALL, O_CALL, O_LONG, O_LONG, O_DBL, O_DBL, O_TGET, O_TSET, O_FREE, O_PROP}; p.add(0, {w[r.below(23)], r.below(5), r.below(100), r.coin(0.85) ? r.range(-3, 60) : (r.coin(0.5) ? 1 : -1) * (r.range(0, 99) + (1L << r.range(8, 45))), r.range(-3, 60), r.below(100), r.coin(0.02) ? 360 : 1}); }
  }
  std::string describe(const Program &p) override { std::string s = "per 1000: api failures " + std::to_string(p.hdr[0]) + ", script failures " + std::to_string(p.hdr[1]); for (auto &o : p.ops) { int c = o.a[0] % N_O; s += "\n  #" + std::to_string(o.id) + " " + ON[c] + " handle " + std::to_string(o.a[1] % 5) + " "; if (c == O_FUNC) s += FN[o.a[2] % NFN].name; else if (c == O_IMPORT) s += std::string("'") + MODS[o.a[2] % 12] + "'"; else s += "variant " + std::to_string(o.a[2]); s += " values " + std::to_string(o.a[3]) + " " + std::to_string(o.a[4]) + " form " + std::to_string(o.a[5]) + (o.a[6] > 1 ? " repeated " + std::to_string(o.a[6]) + " times" : ""); } return s; }
  static void settle() { Calm c; for (const char *n : {"last_exc", "last_value", "last_type", "last_traceback"}) if (PySys_GetObject(n)) PySys_SetObject(n, nullptr); }
  void run(const Program &p) override {
    struct Null : std::streambuf { int overflow(int) override { return 0; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } }; static Null nul; std::cout.rdbuf(&nul); std::cerr.rdbuf(&nul);
    p_api = p.hdr[0] / 1000.0; p_hit = p.hdr[1] / 1000.0; bool ok_any = false, bad_any = false;
    sim::run_threads(1, [&](int) {
      PyGILState_STATE gs = PyGILState_Ensure(); Hd h[5]; std::vector<V> log; long v[3] = {0, 0, 0}; std::vector<std::string> path; long path0; { PyObject *sp = PySys_GetObject("path"); path0 = PyList_GET_SIZE(sp); }
      auto drop = [&](Hd &x) { if (x.o) { em::python_free(x.o); x.o = nullptr; x.v = V(); } };
      for (auto &o : p.ops) {
        int code = o.a[0] % N_O, k = o.a[1] % 5; long var = o.a[2], A = o.a[3], B = o.a[4], form = o.a[5]; int reps = o.a[6] > 1 ? 360 : 1; Hd &H = h[k]; std::vector<long> mark; bool pure = true; std::string what = ON[code];
        if ((code == O_CALL || code == O_LONG || code == O_DBL || code == O_TGET) && !H.o) continue; if (code == O_CALL && H.v.t != FUNC && H.v.t != INT) continue;  if (code == O_FREE) reps = 1; if (code == O_FREE && !H.o) continue;
        for (int rep = 0; rep < reps; rep++) {
          if (reps == 1) g_sticky = -1; else if (rep == 0) { g_sticky = sim::choose(K_STICKY, 8, 0.6); if (g_sticky && g_sticky < 6 && p_api == 0) g_sticky = 0; if (g_sticky >= 6 && p_hit == 0) g_sticky = 0; }
          int inj0 = g_inj; g_hits = 0; g_calls = 0; g_fired = -1; PyObject *res = nullptr, *borrowed = nullptr; V want; bool must_fail = false, raised = false; long lv = 0; double dv = 0; bool path_unsure = false; std::string exmsg;
          PyObject *sp = PySys_GetObject("path"); Py_ssize_t rc_path = Py_REFCNT(sp), rc_h = H.o ? Py_REFCNT(H.o) : 0, rc_main = Py_REFCNT(mainm), rc_none = 0; (void)rc_none; PyObject *tup = nullptr; V tm; tm.t = TUP;
          if (code == O_TSET) { tup = PyTuple_New(3); for (int i = 0; i < 3; i++) { PyTuple_SET_ITEM(tup, i, PyLong_FromLong(1000 + i)); tm.e.push_back(vi(1000 + i)); } }
          std::string script; if (code == O_RUN) { std::string a = std::to_string(A), b = std::to_string(B); static const int NV = 9; switch (var % NV) { case 7: script = "v0 = 0\n"; while (script.size() < 5000 + (size_t)(form % 4) * 40000) script += "# padding, padding and more padding up to the end of the line\n"; script += "v1 = " + a + "\n"; break; case 8: script = "v2 = (0"; for (int i = 0; i < 300; i++) script += " +\n  " + std::to_string(i); script += ")\nhit()\nv0 = " + a; break; case 0: script = "v0 = " + a; break; case 1: script = "v1 = " + a + "\nhit()\nv2 = " + b; break; case 2: script = "v0 = " + a + "\nv0 = = " + b; must_fail = true; break; case 3: script = "v1 = " + a + "\nraise ValueError(1)\nv2 = " + b; must_fail = true; break; case 4: script = "log.append(" + a + ")\nhit()"; break; case 5: script = "x_undefined + 1"; must_fail = true; break; case 6: script = "for i in range(3):\n  hit()\n  v2 = " + a + " + i\n"; break; } }
          sim::begin_op(o.id); armed = true;
          try { switch (code) {
            case O_RUN: em::python_run_string(script); break;
            case O_IMPORT: res = em::python_import(MODS[var % 12]); break;
            case O_PATH: res = em::python_add_to_path(pathname(A)); break;
            case O_FUNC: res = em::python_get_attribute(mainm, FN[var % NFN].name); break;
            case O_ATTR: res = em::python_get_attribute(mainm, ATTR_MAIN[var % 11]); break;
            case O_PROP: { static const char *pa[] = {"good", "boom", "maybe", "nope"}; Calm c; PyObject *ob = PyObject_GetAttrString(mainm, "obj"); armed = true; try { res = em::python_get_attribute(ob, pa[var % 4]); } catch (...) { armed = false; Py_DECREF(ob); throw; } armed = false; Py_DECREF(ob); break; }
            case O_CALL: { int n = H.v.t == FUNC && form % 5 != 4 ? FN[H.v.i].nargs : form / 5 % 4; double da = dval(A, form); PyObject *f = H.o; int fm = form % 4; switch (n) { case 0: res = em::python_call_function(f); break; case 1: res = fm == 1 ? em::python_call_function(f, da) : fm == 2 ? em::python_call_function(f, (int)A) : em::python_call_function(f, A); break; case 2: res = fm == 1 ? em::python_call_function(f, da, B) : fm == 2 ? em::python_call_function(f, (int)A, B) : em::python_call_function(f, A, B); break; case 9: res = fm == 1 ? em::python_call_function(f, da, B, A, (int)B, 5, da, 7L, -1, 2.5) : em::python_call_function(f, A, B, A, (int)B, 5, da, 7L, -1, 2.5); break; default: res = fm == 1 ? em::python_call_function(f, da, B, A) : em::python_call_function(f, A, B, A); } break; }
            case O_LONG: lv = em::python_as_long(H.o); break;
            case O_DBL: dv = em::python_as_double(H.o); break;
            case O_TGET: borrowed = em::python_get_tuple_element(H.o, tix(H.v, var, form)); break;
            case O_TSET: { size_t i = var % 4; if (form % 3 == 0) em::python_set_tuple_element(tup, i, A); else if (form % 3 == 1) em::python_set_tuple_element(tup, i, dval(A, form)); else em::python_set_tuple_element(tup, i, (int)A); break; }
            case O_FREE: em::python_free(H.o); H.o = nullptr; break;
          } } catch (std::exception &e) { raised = true; armed = false; exmsg = e.what(); }
          armed = false; sim::end_op(); sim::Quiet q;
          bool inj = g_inj != inj0; int fired = g_fired; if (PyErr_Occurred()) sim::fail("error-left-pending", "%s %s but left a Python error pending", what.c_str(), raised ? "raised an error" : "returned");
          // ---- model ----
          switch (code) {
            case O_RUN: switch (var % 9) { case 7: if (!inj) { v[0] = 0; v[1] = A; } break; case 8: if (!inj || fired >= 0) v[2] = 299 * 150; if (!inj) v[0] = A; break; case 0: if (!inj) v[0] = A; break; case 1: v[1] = A; if (!inj) v[2] = B; break; case 2: case 5: break; case 3: v[1] = A; break; case 4: log.push_back(vi(A)); pure = false; break; case 6: for (int i = 0; i < (inj ? fired : 3); i++) v[2] = A + i; break; } break;
            case O_IMPORT: { int m = var % 12; must_fail = m == 2 || m == 3 || m == 5 || m == 6 || m == 8 || m == 9 || m == 11; want = vn(MOD, MODS[m]); break; }
            case O_PATH: pure = false; path_unsure = inj; if (!inj) path.insert(path.begin(), pathname(A)); break;
            case O_FUNC: want = var % NFN == 14 ? vi(5) : vn(FUNC, FN[var % NFN].name, var % NFN); break;
            case O_ATTR: { int m = var % 11; must_fail = m == 3 || m == 6 || m == 10; if (m < 2) want = vi(v[m]); else if (m == 2) want = vn(FUNC, "f_add", 0); else if (m == 4 || m == 5) want = vn(OBJ); else want = vi(m == 8 ? 1234567 : m == 9 ? 7654321 : 5); break; }
            case O_PROP: { int m = var % 4; must_fail = m == 1 || m == 3; want = vi(m == 0 ? 3 : 8); break; }
            case O_CALL: { if (H.v.t != FUNC) { must_fail = true; break; } int id = H.v.i, n = form % 5 != 4 ? FN[id].nargs : form / 5 % 4; if (n != FN[id].nargs) { must_fail = true; break; } int fm = form % 4; V a = fm == 1 ? vf(dval(A, form)) : fm == 2 && n < 3 ? vi((int)A) : vi(A), b = vi(B); double fa = fm == 1 ? dval(A, form) : (double)A; bool ff = fm == 1; bool entered = !inj || fired >= 0;
              switch (id) { case 0: want = ff ? vf(fa + B) : vi(a.i + B); break; case 1: pure = false; if (!inj || fired == 1) log.push_back(a); want = vi(log.size()); break; case 2: want.t = TUP; want.e = {a, b, ff ? vf(fa * B) : vi(a.i * B)}; break; case 3: must_fail = true; break; case 4: break; case 5: want = vn(BIG); break; case 6: want = vn(STR, "xyz"); break; case 7: want = vi(-1); break; case 8: want = vf(-1.0); break; case 9: want = vn(IDX, "", a.i); want.d = ff ? fa : a.i; break; case 10: want = vf((ff ? fa : a.i) + 0.5); break; case 11: want = vn(FLT); want.d = NAN; break; case 12: want = a; break; case 13: pure = false; if (!inj) log.push_back(b); if (entered) log.push_back(vi(A)); want = a; break; case 17: { pure = false; V t; t.t = TUP; t.e = {a, b, vi(A), vi(B), vi(5), vf(dval(A, form)), vi(7), vi(-1), vf(2.5)}; if (entered && !inj) log.push_back(t); want.t = TUP; want.e.assign(t.e.rbegin(), t.e.rend()); break; } case 18: want.t = TUP; for (int i = 0; i < 300; i++) want.e.push_back(vi(i)); want.e.push_back(a); for (int i = 0; i < 700; i++) want.e.push_back(vi(i)); break; case 19: want = vn(BIG, "", 1); break; case 16: { static const double hv[] = {1e300, 0x1p63, -0x1p63, 1.5e18, INFINITY}; want = vf(hv[ff ? 0 : ((a.i % 5) + 5) % 5]); break; } case 15: pure = false; must_fail = true; if (entered) { log.push_back(a); log.push_back(b); } break; } break; }
            case O_LONG: case O_DBL: { V &x = H.v; if (x.t == INT) want = code == O_LONG ? vi(x.i) : vf(x.i); else if (x.t == FLT) { if (code == O_LONG) { must_fail = !(x.d >= -0x1p63 && x.d < 0x1p63); want = vi(must_fail ? 0 : (long)x.d); } else want = vf(x.d); } else if (x.t == BIG) { if (code == O_LONG || x.i == 1) must_fail = true; else want = vf(std::ldexp(1.0, 80)); } else if (x.t == IDX) { if (code == O_LONG && x.d != x.i) must_fail = true; want = code == O_LONG ? vi(x.i) : vf(x.d + 0.5); } else must_fail = true; break; }
            case O_TGET: { size_t ti = tix(H.v, var, form); must_fail = H.v.t != TUP || ti >= H.v.e.size(); if (!must_fail) want = H.v.e[ti]; break; }
            case O_TSET: { size_t i = var % 4; must_fail = i >= 3; if (!must_fail && !inj) tm.e[i] = form % 3 == 1 ? vf(dval(A, form)) : form % 3 == 2 ? vi((int)A) : vi(A); break; }
          }
          if (raised) bad_any = true; else ok_any = true; if (raised && !inj) sim::count("probe.failed_by_itself"); if (inj) sim::count("probe.met_a_fault");
          if (!raised && (must_fail || inj)) sim::fail("failure-not-reported", "%s succeeded although %s", what.c_str(), inj ? "an operation inside it failed" : "it cannot");
          if (raised && !must_fail && !inj) sim::fail("unexpected-exception", "%s raised an error: %s", what.c_str(), exmsg.c_str());
          settle();
          if (!raised) {
            if (code == O_LONG && lv != want.i) sim::fail("wrong-value", "as_long gave %ld; expected %ld", lv, want.i);
            if (code == O_DBL && !(dv == want.d || (std::isnan(dv) && std::isnan(want.d)))) sim::fail("wrong-value", "as_double gave %g; expected %g", dv, want.d);
            if (code == O_TGET && !same(borrowed, want)) sim::fail("wrong-value", "get_tuple_element gave another element");
            if (res && code != O_PATH && !(want.t == FLT && std::isnan(want.d)) && !same(res, want)) sim::fail("wrong-value", "%s gave another object than expected", what.c_str());
            if (!res && (code == O_IMPORT || code == O_PATH || code == O_FUNC || code == O_ATTR || code == O_PROP || code == O_CALL)) sim::fail("wrong-value", "%s gave no object", what.c_str());
          }
          if (code == O_TSET) { if (!same(tup, tm)) sim::fail("wrong-value", "set_tuple_element left another tuple than expected"); if (Py_REFCNT(tup) != 1) sim::fail("reference-count", "set_tuple_element changed the reference count of its tuple to %ld", (long)Py_REFCNT(tup)); Py_DECREF(tup); }
          // ---- ownership ----
          if (code == O_FREE) { H.v = V(); }
          else {
            long extra_h = res && res == H.o ? 1 : 0, extra_m = res == mainm ? 1 : 0, extra_p = res == sp ? 1 : 0;
            if (H.o && !_Py_IsImmortal(H.o) && Py_REFCNT(H.o) != rc_h + extra_h && code != O_RUN && !(code == O_IMPORT || code == O_PATH || (code == O_CALL && !pure))) sim::fail("reference-count", "%s changed the reference count of its object by %ld", what.c_str(), (long)(Py_REFCNT(H.o) - rc_h));
            if (Py_REFCNT(mainm) != rc_main + extra_m) sim::fail("reference-count", "%s changed the reference count of the module by %ld", what.c_str(), (long)(Py_REFCNT(mainm) - rc_main));
            if (Py_REFCNT(sp) != rc_path + extra_p) sim::fail("reference-count", "%s changed the reference count of sys.path by %ld%s", what.c_str(), (long)(Py_REFCNT(sp) - rc_path), extra_p ? " (the result is to be freed)" : "");
            if (res && (code == O_PATH || rep + 1 < reps)) em::python_free(res); else if (res) { drop(H); H.o = res; H.v = want; }
            if (code == O_CALL && rep + 1 == reps && reps > 1) {}
          }
          // ---- state of the interpreter ----
          { PyObject *l = PyObject_GetAttrString(mainm, "log"); bool okl = PyList_GET_SIZE(l) == (long)log.size(); for (size_t i = 0; okl && i < log.size(); i++) okl = same(PyList_GET_ITEM(l, i), log[i]); long have = PyList_GET_SIZE(l); Py_DECREF(l); if (!okl) sim::fail("state-differs", "after %s the script state differs from what the operations so far amount to (log of %ld entries, expected %zu)", what.c_str(), have, log.size());
            for (int i = 0; i < 3; i++) { std::string n = "v" + std::to_string(i); PyObject *x = PyObject_GetAttrString(mainm, n.c_str()); bool s = x && same(x, vi(v[i])); Py_XDECREF(x); if (!s) sim::fail("state-differs", "after %s variable %s does not have the value it was last set to", what.c_str(), n.c_str()); }
            long n = PyList_GET_SIZE(sp); if (path_unsure && n == path0 + (long)path.size() + 1) path.insert(path.begin(), pathname(A)); bool okp = n == path0 + (long)path.size(); for (size_t i = 0; okp && i < path.size(); i++) okp = PyUnicode_CompareWithASCIIString(PyList_GET_ITEM(sp, i), path[i].c_str()) == 0; if (!okp || PySys_GetObject("path") != sp) sim::fail("state-differs", "after %s sys.path has %ld entries of its own; expected %zu", what.c_str(), n - path0, path.size()); }
          for (auto &x : h) if (x.o && !(x.v.t == FLT && std::isnan(x.v.d)) && !same(x.o, x.v)) sim::fail("object-changed", "after %s an object still held has changed", what.c_str());
          sim::count((std::string("kind.") + ON[code]).c_str()); sim::mix(code * 64 + raised * 32 + inj * 16 + g_hits % 16); sim::state(((uint64_t)code << 16) ^ (log.size() << 8) ^ (var % 16)); sim::advance_time(1000000);
          if (reps > 1 && pure && rep % 30 == 29) { PyGC_Enable(); PyGC_Collect(); PyGC_Disable(); long m = g_live; mark.push_back(m); if (mark.size() == 12) { sim::count("probe.repeated_without_growth"); if (mark[10] >= mark[9] + 25 && mark[11] >= mark[10] + 25 && mark[9] >= mark[8] + 25) sim::fail("leak", "%s repeated: %ld, then %ld blocks of memory more after every 30 repetitions", what.c_str(), mark[10] - mark[9], mark[11] - mark[10]); } }
          if (code == O_CALL && !H.o) break;
          if (code == O_CALL && H.v.t != FUNC && H.v.t != INT) break;
        }
      }
      for (auto &x : h) drop(x); if (PyErr_Occurred()) sim::fail("error-left-pending", "an error is pending at the end"); (void)gs;
    });
    if (ok_any && bad_any) sim::nontrivial();
  }
};
sim::Harness *sim_harness(const std::string &) { return new Py; }
