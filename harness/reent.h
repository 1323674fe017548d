// Registry of library calls that must be independent of what other threads (and earlier
// calls) do. Each call builds its own inputs from a seed, enters the library between
// enter() and leave(), and serialises everything it got back.
#pragma once
#include "sim.h"
#include <cstdio>
#include <cstring>
#include <exception>
#include <string>
#include <typeinfo>
#include <vector>
namespace reent {
struct Ctx {
  sim::Rng r; std::string out; int op; bool alone;
  Ctx(uint64_t seed, int o, bool al) : r(seed), op(o), alone(al) {}
  void enter() { if (!alone) sim::begin_op(op); }
  void leave() { if (!alone) sim::end_op(); }
  void put(double d) { char b[40]; uint64_t u; memcpy(&u, &d, 8); if (d != d) u = 0x7ff8000000000000ULL; snprintf(b, 40, "%016llx(%g) ", (unsigned long long)u, d); out += b; }
  void put(float d) { put((double)d); }
  void put(long v) { out += std::to_string(v) + " "; }
  void put(int v) { put((long)v); }
  void put(unsigned v) { put((long)v); }
  void put(size_t v) { put((long)v); }
  void put(bool v) { out += v ? "T " : "F "; }
  void put(const std::string &s) { out += "\"" + s + "\" "; }
  void put(const char *s) { put(std::string(s)); }
  template <class T> void put(const std::vector<T> &v) { out += "["; for (auto const &x : v) put(x); out += "] "; }
  template <class A> void arr(const A &a, size_t n) { out += "{"; for (size_t i = 0; i < n; i++) put(a[i]); out += "} "; }
  double num() { switch (r.below(6)) { case 0: return (double)r.range(-5, 5); case 1: return r.unit(); default: return r.unit() * 20 - 10; } }
  // now and then far longer than usual: lengths past any internal buffer
  std::string str(const char *alpha, int maxlen) { if (r.below(24) == 0) maxlen = maxlen * 12 + 200; return shortstr(alpha, maxlen); }
  // a number of things: few, now and then many
  int many(int lo, int hi) { return r.below(24) == 0 ? (int)r.range(hi, hi * 12) : (int)r.range(lo, hi); }
  std::string shortstr(const char *alpha, int maxlen) { std::string s; int n = (int)r.below(maxlen + 1), k = (int)strlen(alpha); for (int i = 0; i < n; i++) s += alpha[r.below(k)]; return s; }
};
using Fn = void (*)(Ctx &);
struct Call { int prop; const char *name; Fn fn; };
std::vector<Call> &calls();
struct Reg { Reg(int p, const char *n, Fn f) { calls().push_back(Call{p, n, f}); } };
// what the calling thread printed during its current call (C32)
struct Capture;
void cap_begin();
std::string cap_end(bool *contiguous);
// while on, each thread reads a clock of its own that advances by a known amount with every reading
void clock_begin();
void clock_end();
}
#define CALL(prop, name) static void name(reent::Ctx &c); static reent::Reg reg_##name(prop, #name, name); static void name(reent::Ctx &c)
