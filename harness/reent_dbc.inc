// Contract checks of every kind under one configured action. MODE: 0 throw, 1 notify, 2 none.
#include "reent.h"
#include <iostream>
#include <limits>
#include <set>
#include <sstream>
#include <stdexcept>
#include <ristra/ristra-config.h>
#include <ristra/assertions/dbc.h>
#include <ristra/assertions/dbc_impl.cc>
#include <ristra/assertions/errors.h>
using namespace ristra;
namespace {
std::string message(reent::Ctx &c) { std::string m = "cond-" + std::to_string(c.r.below(100000)); if (c.r.below(16) == 0) m += c.str("abc d", 400) + "."; return m; }
template <class T> std::string shown(const T &v) { std::ostringstream o; o << v; return o.str(); }
long whole(reent::Ctx &c, long m) { long v = c.r.range(-m, m); if (c.r.below(10) == 0) v = v * 4294967296L + c.r.below(1000); if (c.r.below(40) == 0) v = c.r.coin(0.5) ? std::numeric_limits<long>::max() : std::numeric_limits<long>::min(); return v; }
struct Rep { bool threw = false; std::string text, type; };
// what must be in the report
struct Want { bool fails; bool enabled; int line; std::string needs[4]; bool ret = true; std::string func = {}; };
void judge(reent::Ctx &c, const char *kind, const Want &w, const Rep &r, const std::string &cap, bool contig) {
  int reports = MODE == 0 ? (r.threw ? 1 : 0) : (cap.empty() ? 0 : 1);
  int expect = w.fails && w.enabled && MODE != 2 ? 1 : 0;
  std::string text = MODE == 0 ? r.text : cap;
  if (MODE == 0 && !cap.empty()) sim::fail("contract-report-extra-output", "%s printed \"%s\" although the action is to throw", kind, cap.c_str());
  if (MODE != 0 && r.threw) sim::fail("contract-report-wrong-action", "%s threw %s (%s) although the action is not to throw", kind, r.type.c_str(), r.text.c_str());
  if (MODE == 1) { int n = 0; for (char ch : cap) n += ch == '\n'; if (n > reports) reports = n; }
  if (reports != expect) sim::fail("contract-report-count", "%s (condition %s): %d reports, expected %d: \"%s\"", kind, w.fails ? "false" : "true", reports, expect, text.c_str());
  if (expect) {
    std::string ln = ":" + std::to_string(w.line) + ":";
    if (text.find("reent_dbc.inc") == std::string::npos || text.find(ln) == std::string::npos) sim::fail("contract-report-location", "%s: report does not name its own location (line %d): \"%s\"", kind, w.line, text.c_str());
    if (text.find(w.func) == std::string::npos) sim::fail("contract-report-location", "%s: report does not name its own function (%s): \"%s\"", kind, w.func.c_str(), text.c_str());
    for (auto &n : w.needs) if (!n.empty() && text.find(n) == std::string::npos) sim::fail("contract-report-text", "%s: report lacks \"%s\": \"%s\"", kind, n.c_str(), text.c_str());
    if (!contig) sim::fail("contract-report-torn", "%s: the notice was interrupted by another thread's output: \"%s\"", kind, cap.c_str());
  }
  if (c.alone == false) { sim::count(w.fails ? "probe.contract_violated" : "probe.contract_satisfied"); }
  c.put(std::string(kind)); c.put(r.threw); c.put(r.type); c.put(text); c.put(w.ret);
}
}
#define RUNREP(expr) Rep r; bool ok = true; reent::cap_begin(); c.enter(); \
  try { expr; } catch (std::logic_error &e) { r.threw = true; r.type = "logic_error"; r.text = e.what(); } catch (std::bad_alloc &) { c.leave(); bool q; reent::cap_end(&q); throw; } \
  catch (std::exception &e) { r.threw = true; r.type = "other"; r.text = e.what(); } \
  c.leave(); bool contig; std::string cap = reent::cap_end(&contig);
#ifdef RISTRA_REQUIRE_ON
#define EN true
#else
#define EN false
#endif
#define LINEDEF int line = 0;
static void NAME(insist)(reent::Ctx &c) { bool f = c.r.coin(0.6); std::string m = message(c); int line; RUNREP(line = __LINE__; Insist(!f, m)) Want w{f, true, line, {m}}; w.func = __func__; judge(c, "Insist", w, r, cap, contig); }
static void NAME(require)(reent::Ctx &c) { bool f = c.r.coin(0.6); std::string m = message(c); int line; RUNREP(line = __LINE__; Require(!f, m)) Want w{f, EN, line, {m}}; w.func = __func__; judge(c, "Require", w, r, cap, contig); }
static void NAME(check)(reent::Ctx &c) { bool f = c.r.coin(0.6); std::string m = message(c); int line; RUNREP(line = __LINE__; Check(!f, m)) Want w{f, EN, line, {m}}; w.func = __func__; judge(c, "Check", w, r, cap, contig); }
static void NAME(ensure)(reent::Ctx &c) { bool f = c.r.coin(0.6); std::string m = message(c); int line; RUNREP(line = __LINE__; Ensure(!f, m)) Want w{f, EN, line, {m}}; w.func = __func__; judge(c, "Ensure", w, r, cap, contig); }
#line 70001 "/a/rather/long/directory/name/that/holds/the/sources/of/this/file/and/others/beside/it/reent_dbc.inc"
static void NAME(equal)(reent::Ctx &c) { bool f = c.r.coin(0.6); long lhs_value = whole(c, 1000), rhs_value = f ? (c.r.coin(0.3) ? lhs_value ^ (1L << c.r.below(63)) : lhs_value ^ 1) : lhs_value; int line; RUNREP(line = __LINE__; ok = Equal(lhs_value, rhs_value)) if (!r.threw && ok == f) sim::fail("contract-value", "Equal returned %d for a %s condition", ok, f ? "false" : "true"); Want w{f, EN, line, {"lhs_value", "rhs_value"}, ok}; w.func = __func__; judge(c, "Equal", w, r, cap, contig); }
static void NAME(not_equal)(reent::Ctx &c) { bool f = c.r.coin(0.6); std::string left_str = c.str("ab", 30), right_str = f ? left_str : left_str + "x"; int line; RUNREP(line = __LINE__; ok = NotEqual(left_str, right_str)) if (!r.threw && ok == f) sim::fail("contract-value", "NotEqual returned %d for a %s condition", ok, f ? "false" : "true"); Want w{f, EN, line, {"left_str", "right_str"}, ok}; w.func = __func__; judge(c, "NotEqual", w, r, cap, contig); }
static void NAME(in_range)(reent::Ctx &c) { long xval = whole(c, 9999), lo = c.r.coin(0.1) ? xval : whole(c, 12000), hi = c.r.coin(0.1) ? xval : whole(c, 12000); bool f = !(xval > lo && xval < hi); int line; RUNREP(line = __LINE__; ok = InOpenRange(xval, lo, hi)) if (!r.threw && ok == f) sim::fail("contract-value", "InOpenRange returned %d for a %s condition", ok, f ? "false" : "true"); Want w{f, EN, line, {"xval (" + std::to_string(xval) + ")", std::to_string(lo), std::to_string(hi)}, ok}; w.func = __func__; judge(c, "InOpenRange", w, r, cap, contig); }
static void NAME(greater)(reent::Ctx &c) { long gval = whole(c, 9999), lim = c.r.coin(0.3) ? gval : whole(c, 9999); bool f = !(gval > lim); int line; RUNREP(line = __LINE__; ok = GreaterThan(gval, lim)) if (!r.threw && ok == f) sim::fail("contract-value", "GreaterThan returned %d for a %s condition", ok, f ? "false" : "true"); Want w{f, EN, line, {"gval (" + std::to_string(gval) + ")", std::to_string(lim)}, ok}; w.func = __func__; judge(c, "GreaterThan", w, r, cap, contig); }
static void NAME(greater_eq)(reent::Ctx &c) { double geval = whole(c, 99) + 0.25, lim = c.r.coin(0.3) ? geval : whole(c, 99) + 0.75; if (c.r.below(20) == 0) geval = std::numeric_limits<double>::quiet_NaN(); if (c.r.below(12) == 0) lim = geval * (1 + 1e-15); bool f = !(geval >= lim); int line; RUNREP(line = __LINE__; ok = GreaterEqual(geval, lim)) if (!r.threw && ok == f) sim::fail("contract-value", "GreaterEqual returned %d for a %s condition", ok, f ? "false" : "true"); Want w{f, EN, line, {"geval (" + shown(geval) + ")", shown(lim)}, ok}; w.func = __func__; judge(c, "GreaterEqual", w, r, cap, contig); }
#line 1048577 "reent_dbc.inc"
static void NAME(less)(reent::Ctx &c) { int lval = (int)c.r.range(-9999, 9999), lim = c.r.coin(0.3) ? lval : (int)c.r.range(-9999, 9999); bool f = !(lval < lim); int line; RUNREP(line = __LINE__; ok = LessThan(lval, lim)) if (!r.threw && ok == f) sim::fail("contract-value", "LessThan returned %d for a %s condition", ok, f ? "false" : "true"); Want w{f, EN, line, {"lval (" + std::to_string(lval) + ")", std::to_string(lim)}, ok}; w.func = __func__; judge(c, "LessThan", w, r, cap, contig); }
static void NAME(one_of)(reent::Ctx &c) { std::set<int> members; for (int i = c.many(0, 9); i > 0; i--) members.insert((int)c.r.below(i > 12 ? 100000 : 12)); int oval = (int)c.r.below(12); bool f = !members.count(oval); int line; RUNREP(line = __LINE__; ok = OneOf(oval, members)) if (!r.threw && EN && ok == f) sim::fail("contract-value", "OneOf returned %d for a %s condition", ok, f ? "false" : "true"); Want w{f, EN, line, {"oval"}, ok}; w.func = __func__; judge(c, "OneOf", w, r, cap, contig); }
#define STR2(x) #x
#define STR1(x) STR2(x)
#define R1(n) static reent::Reg NAME(reg_##n)(32, STR1(NAME(n)), NAME(n));
R1(insist) R1(require) R1(check) R1(ensure) R1(equal) R1(not_equal) R1(in_range) R1(greater) R1(greater_eq) R1(less) R1(one_of)
