// C33: objects that each thread has for itself (interpreters, containers, timers, logs, option tables).
#include "reent.h"
#include <iostream>
#include <map>
#include <sstream>
#include <ristra/ristra-config.h>
#include <ristra/assertions/errors.h>
#include <ristra/embedded/embed_lua.h>
#include <ristra/initialization/input.h>
#include <ristra/initialization/arguments.h>
#include <ristra/utils/fixed_vector.h>
#include <ristra/utils/array_ref.h>
#include <ristra/utils/dimensioned_array.h>
#include <ristra/utils/array_view.h>
#include <ristra/math/matrix.h>
#include <ristra/io/catalyst/utils/insituTimer.hpp>
#include <ristra/io/catalyst/utils/insituLog.hpp>
using namespace ristra; using embedded::lua_t; using embedded::lua_result_t;
// one step of a history: whatever it gives, or the exception it raises, is recorded
template <class F> static void step(reent::Ctx &c, F f) {
  try { c.enter(); f(); c.leave(); }
  catch (std::exception &e) { c.leave(); c.out += std::string("!") + e.what() + " "; }
}
static const char *PRE = "a=1.5 s='text' n=7 b=true t={x=2.5,y={1,2,3},name='in',f=function(x) return x+1 end} v={4,5,6} m={{1,2},{3,4}} function id(x) return x end function two(x) return x,x*2 end function bad() error('boom') end function none() end function sum(...) local z=0 for _,k in ipairs{...} do z=z+k end return z end";
static void lua_step(reent::Ctx &c, lua_t &lua) {
  long k = c.r.range(-50, 50); double d = c.num(); std::string w = c.str("abc xyz", 30);
  switch (c.r.below(22)) {
    case 0: { double o = 0; step(c, [&] { lua.run_string("a=" + std::to_string(k)); o = lua["a"].as<double>(); }); c.put(o); break; }
    case 1: { std::string o; step(c, [&] { lua.run_string("s='" + w + "'"); o = lua["s"].as<std::string>(); }); c.put(o); break; }
    case 2: { std::vector<double> o; step(c, [&] { o = lua["v"].as<std::vector<double>>(); }); c.put(o); break; }
    case 3: { std::array<double, 3> o{}; step(c, [&] { o = lua["v"].as<std::array<double, 3>>(); }); c.arr(o, 3); break; }
    case 4: { math::matrix<double, 2, 2> o(0); step(c, [&] { auto h = lua["m"]; lua_State *L = lua.state(); o(0, 0) = h[1][1].as<double>(); o(0, 1) = h[1][2].as<double>(); o(1, 0) = h[2][1].as<double>(); o(1, 1) = h[2][2].as<double>(); }); c.put(o(0, 0)); c.put(o(0, 1)); c.put(o(1, 0)); c.put(o(1, 1)); break; }
    case 5: { double o = 0; step(c, [&] { o = lua["t"]["x"].as<double>(); }); c.put(o); break; }
    case 6: { long o = 0; int i = (int)c.r.range(0, 4); step(c, [&] { o = lua["t"]["y"][i].as<int>(); }); c.put(o); break; }
    case 7: { double o = 0; std::string nm; step(c, [&] { auto h = lua["id"](d, w, (int)k); nm = h.name(); o = h.as<double>(); }); c.put(o); c.put(nm); break; }
    case 8: { std::string o; step(c, [&] { auto h = lua["id"](w); c.put(h.name()); o = h.as<std::string>(); }); c.put(o); break; }
    case 9: { std::tuple<double, double> o{}; step(c, [&] { o = lua["two"](d).as<double, double>(); }); c.put(std::get<0>(o)); c.put(std::get<1>(o)); break; }
    case 10: step(c, [&] { lua["bad"](); }); break;
    case 11: step(c, [&] { lua["none"](); }); break;
    case 12: step(c, [&] { lua["missing"](1); }); break;
    case 13: step(c, [&] { lua.run_string("x = = 1"); }); break;
    case 14: { double o = 0; step(c, [&] { o = lua["missing"].as<double>(d); }); c.put(o); break; }
    case 15: { double o = 0; step(c, [&] { o = lua["s"].as<double>(); }); c.put(o); break; }
    case 16: { std::string nm; size_t z = 0; step(c, [&] { auto h = lua["t"]["y"]; nm = h.name(); z = h.size(); }); c.put(nm); c.put(z); break; }
    case 17: { double o = 0; step(c, [&] { auto h = lua["t"]; embedded::lua_result_t g = h["f"]; std::function<double(double)> f(embedded::Lua_Func_Wrapper<std::function<double(double)>>{g}); o = f(d); }); c.put(o); break; }
    case 18: { double o = 0; step(c, [&] { o = lua["sum"]((int)k, d, 2.0f).as<double>(); }); c.put(o); break; }
    case 19: { bool o = false; step(c, [&] { o = lua["b"].as<bool>(); lua.run_string(o ? "b=false" : "b=true"); }); c.put(o); break; }
    case 20: { double o = 0; step(c, [&] { o = lua_try_access_as(lua, "a", double); }); c.put(o); break; }
    default: { double o = 0; step(c, [&] { auto r = lua_try_access(lua, (k & 1 ? "t" : "gone")); o = r["x"].as<double>(); }); c.put(o); }
  }
}
CALL(33, lua_interpreter) {
  c.enter(); lua_t *lua = new lua_t; lua->run_string(PRE); c.leave();
  for (int i = (int)c.r.range(1, 4); i > 0; i--) lua_step(c, *lua);
  c.enter(); delete lua; c.leave();
}
CALL(33, lua_two_interpreters) {
  c.enter(); lua_t *lua[2] = {new lua_t, new lua_t}; lua[0]->run_string(PRE); lua[1]->run_string(PRE); c.leave();
  for (int i = (int)c.r.range(2, 5); i > 0; i--) lua_step(c, *lua[c.r.below(2)]);
  double o = 0; step(c, [&] { auto f = (*lua[0])["id"]; delete lua[0]; lua[0] = nullptr; o = f(2.5).as<double>(); }); c.put(o);   // the handle keeps its interpreter
  c.enter(); delete lua[0]; delete lua[1]; c.leave();
}
CALL(33, lua_reborn_interpreter) {   // a new interpreter knows nothing of an earlier one
  double o[2] = {}; for (int i = 0; i < 2; i++) { step(c, [&] { lua_t lua; if (i == 0) lua.run_string("a=3.5"); o[i] = lua["a"].as<double>(-1.0); }); c.put(o[i]); }
}
CALL(33, input_table) {
  double o = -1; std::string f; step(c, [&] { initialization::input_t in; in.register_group("g", "title"); in.register_parameter<double>("g", "x", "text", 2.5); in.register_parameter<std::string>("g", "y", "text", "abc"); f = in.filename(); in["gone"].as<double>(1.5); o = in["gone"].as<double>(1.5); }); c.put(o); c.put(f);
}
template <class T, size_t N, class Mk> static void vec_history(reent::Ctx &c, Mk mk) {
  using V = utils::fixed_vector<T, N>; c.enter(); V *v = new V, *w = new V; c.leave();
  for (int i = (int)c.r.range(3, 10); i > 0; i--) {
    T x = mk(); size_t at = c.r.below(v->size() + 1), k = c.r.below(3); int op = (int)c.r.below(12); bool room = v->size() + 3 <= N;
    c.enter();
    switch (op) {
      case 0: case 1: case 2: if (room) v->push_back(x); break;
      case 3: if (room) v->insert(v->begin() + at, x); break;
      case 4: if (room) v->insert(v->begin() + at, k, x); break;
      case 5: if (at < v->size()) v->erase(v->begin() + at); break;
      case 6: v->pop_back(); break;
      case 7: v->swap(*w); break;
      case 8: if (room) v->emplace_back(x); break;
      case 9: v->assign({x, x}); break;
      case 10: *w = *v; break;
      default: if (v->size() < N) v->resize(v->size() + 1, x); else v->clear();
    }
    c.leave();
    c.put(v->size()); for (auto &e : *v) c.put(e); c.put(*v == *w);
  }
  c.enter(); delete v; delete w; c.leave();
}
CALL(33, fixed_vector_int) { vec_history<int, 9>(c, [&] { return (int)c.r.range(-9, 9); }); }
CALL(33, fixed_vector_string) { vec_history<std::string, 7>(c, [&] { return c.str("abcdef", 40); }); }
CALL(33, fixed_vector_real) { vec_history<double, 8>(c, [&] { return c.num(); }); }
CALL(33, timers) {
  reent::clock_begin(); c.enter(); InsituTimer *t = c.r.coin(0.5) ? new InsituTimer : new InsituTimer("solve"); c.leave();
  static const char *NM[] = {"solve", "remap", "output"};
  for (int i = (int)c.r.range(2, 7); i > 0; i--) { std::string n = NM[c.r.below(3)]; int op = (int)c.r.below(3), o = 0; double d = 0; c.enter(); if (op == 0) o = t->start(n); else if (op == 1) o = t->stop(n); else d = t->getDuration(n); c.leave(); c.put(o); c.put(d); }
  c.enter(); delete t; c.leave(); reent::clock_end();
}
CALL(33, memory_log) {
  c.enter(); InsituLog *l = new InsituLog("a.log"); c.leave();
  for (int i = c.many(1, 6); i > 0; i--) { auto w = c.str("abc\n", 50); double d = c.num(); bool z = c.r.coin(0.15); c.enter(); if (z) l->clear(); else l->log << w << ' ' << d << '\n'; auto s = l->log.str(); c.leave(); c.put(s); }
  c.enter(); delete l; c.leave();
}
// command-line options: registrations of its own, then several command lines in turn, malformed ones included
CALL(33, command_line) {
  namespace in = ristra::initialization;
  c.enter(); auto *a = new in::command_line_arguments_t; c.leave();
  int reg = (int)c.r.below(16);
  c.enter(); a->register_group("main", "Main options");
  a->register_argument("main", "help,h", "show this");
  if (reg & 1) a->register_argument<int>("main", "steps,n", "number of steps");
  if (reg & 2) a->register_argument<double>("io", "cfl", "a number");
  if (reg & 4) a->register_argument<std::string>("io", "mesh,m", "a file"); c.leave();
  for (int i = (int)c.r.range(1, 3); i > 0; i--) {
    std::vector<std::string> w = {"prog"}; static const char *W[] = {"--steps", "--steps=12", "-n", "7", "--cfl", "0.5", "--cfl=x", "--mesh", "a.g", "-mb.g", "--help", "-h", "--other", "pos", "--steps=1", "--me"};
    for (int k = (int)c.r.below(5); k > 0; k--) w.push_back(W[c.r.below(16)]);
    std::vector<char *> av; for (auto &x : w) av.push_back(&x[0]); bool pr = c.r.coin(0.5);
    step(c, [&] { auto r = a->process_arguments((int)av.size(), av.data(), pr); c.put(r.error); c.put((long)r.variables.count("help")); c.put(r.variables.as<int>("steps", -1)); c.put(r.variables.as<double>("cfl", -2.5)); c.put(r.variables.as<std::string>("mesh", "none")); });
    if (c.r.coin(0.2)) { std::string o; step(c, [&] { o = a->print_missing_argument("mesh"); }); c.put(o); }
  }
  c.enter(); delete a; c.leave();
}
