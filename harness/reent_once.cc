// C70: first use of process-wide instances.
#include <iostream>
#include <ristra/ristra-config.h>
#include <ristra/initialization/input.h>
#include <ristra/initialization/input_engine.h>
#include <ristra/initialization/input_source.h>
#include <map>
#include <sstream>
#include <ristra/initialization/arguments.h>
#include "atomics/src/atomics.h"
#include <pthread.h>
#include <set>
#include "sim.h"
#include "reent_once.h"
using namespace ristra;
struct traits { using types = std::tuple<int, double, std::string, std::function<double(double)>>; };
struct eng : input_engine_t<traits> {
  using B = input_engine_t<traits>;
  // the shared registry is looked at directly where that is possible, and otherwise used through the public interface only
  template <class T, class D> static auto reg_(int) -> decltype((void *)&D::template input_registry<T>::instance()) { return &D::template input_registry<T>::instance(); }
  template <class T, class D> static void *reg_(long) { return nullptr; }
  template <class T, class D> static auto set_(int) -> decltype(&D::template input_registry<T>::instance().get_target_set()) { return &D::template input_registry<T>::instance().get_target_set(); }
  template <class T, class D> static std::set<std::string> *set_(long) { return nullptr; }
  template <class T> static void *reg() { return reg_<T, B>(0); }
  template <class T> static void add(const std::string &k) { if (auto *s = set_<T, B>(0)) s->insert(k); else { B b; b.template register_target<T>(k); } }
  template <class T> static bool has(const std::string &k) { auto *s = set_<T, B>(0); return !s || s->count(k) != 0; }
  template <class T> static size_t size() { auto *s = set_<T, B>(0); return s ? s->size() : (size_t)-1; }
};
struct hc : hard_coded_source_t {
};
namespace once {
template <class T> static void *f_reg() { return eng::reg<T>(); }
template <class T> static void a_reg(const std::string &k) { eng::add<T>(k); }
template <class T> static size_t s_reg() { return eng::size<T>(); }
static void *f_input() { return &initialization::input_t::instance(); }
static void a_input(const std::string &k) { initialization::input_t::instance().register_group(k, "t"); }
static size_t s_input() { return (size_t)-1; }
static hard_coded_source_t g_src;
static void *f_hc() { return nullptr; }
static void a_hc(const std::string &k) { hard_coded_source_t s; s.set_registry<double>({{k, 1.5}}); }
static size_t s_hc() { return (size_t)-1; }
// lock scheme: the per-type mutex is created on the first update
static atomics::atomic<double, atomics::lock> g_sum(0.0);
static void *f_lock() { g_sum += 1.0; return nullptr; }
// ... and a type nobody has used before: each thread makes its own variable of it
template <class A> static auto lock_of(int) -> decltype((void *)&A::singleton_mutex::instance()) { return &A::singleton_mutex::instance(); }
template <class A> static void *lock_of(long) { return nullptr; }
template <class T, size_t N> static void *f_lock2() { using A = atomics::atomic<T, atomics::lock, N>; A v(T(1)); v += T(1); return lock_of<A>(0); }
static void a_lock(const std::string &) { }
static size_t s_lock() { return (size_t)-1; }
static void *f_args() { return &initialization::command_line_arguments_t::instance(); }
static bool h_args(const std::string &k) { std::string a = "prog", b = "--" + k; char *v[] = {&a[0], &b[0]}; auto r = initialization::command_line_arguments_t::instance().process_arguments(2, v, false); return !r.error && r.variables.count(k) == 1; }
static void a_args(const std::string &k) { if (!h_args(k)) initialization::command_line_arguments_t::instance().register_argument("g", k, "an option"); }   // (an attempt that ran out of memory may have registered it)
static bool h_input(const std::string &k) { return true; }
Service services[] = {
  {"input_t", f_input, a_input, s_input, nullptr},
  {"registry<int>", f_reg<int>, a_reg<int>, s_reg<int>, [](const std::string &k) { return eng::has<int>(k); }},
  {"registry<double>", f_reg<double>, a_reg<double>, s_reg<double>, [](const std::string &k) { return eng::has<double>(k); }},
  {"registry<string>", f_reg<std::string>, a_reg<std::string>, s_reg<std::string>, [](const std::string &k) { return eng::has<std::string>(k); }},
  {"registry<function>", f_reg<std::function<double(double)>>, a_reg<std::function<double(double)>>, s_reg<std::function<double(double)>>, [](const std::string &k) { return eng::has<std::function<double(double)>>(k); }},
  {"hard-coded data registry", f_hc, a_hc, s_hc, [](const std::string &k) { double d = 0; hard_coded_source_t s; return s.get_value(k, d) && d == 1.5; }},
  {"command-line options", f_args, a_args, s_input, h_args},
  {"atomics lock", f_lock, a_lock, s_lock, nullptr},
  {"atomics lock of a new type", f_lock2<long, 3>, a_lock, s_lock, nullptr},
};
int n_services = sizeof services / sizeof *services;
double lock_sum() { return (double)g_sum; }
}
