// Runtime error macros and location output.
#include "reent.h"
#include <iostream>
#include <ristra/ristra-config.h>
#include <ristra/assertions/errors.h>
#include <ristra/assertions/here.h>
using namespace ristra;
template <class F> static void raise(reent::Ctx &c, const char *kind, bool must, const std::string &msg, F f) {
  std::string type, text; reent::cap_begin(); c.enter(); int line = 0;
  try { line = f(); }
  catch (std::bad_alloc &) { c.leave(); bool q; reent::cap_end(&q); throw; }
  catch (assertions::ExceptionRunTime &e) { type = "RunTime"; text = e.what(); } catch (assertions::ExceptionLogic &e) { type = "Logic"; text = e.what(); }
  catch (assertions::ExceptionNotImplemented &e) { type = "NotImplemented"; text = e.what(); } catch (assertions::ExceptionFileError &e) { type = "File"; text = e.what(); } catch (std::exception &e) { type = "other"; text = e.what(); }
  c.leave(); bool contig; std::string cap = reent::cap_end(&contig);
  if (must == type.empty()) sim::fail("error-raised", "%s: %s", kind, must ? "no exception was raised" : "an exception was raised for a satisfied condition");
  if (must && (cap + text).find(msg) == std::string::npos) sim::fail("error-text", "%s: neither output nor exception carries \"%s\"", kind, msg.c_str());
  if (!must && !cap.empty() && std::string(kind) != "warning" && std::string(kind) != "HERE") sim::fail("error-output", "%s printed \"%s\"", kind, cap.c_str());
  c.put(kind); c.put(type); c.put(text); c.put(cap);
}
static std::string msgof(reent::Ctx &c) { std::string m = "m" + std::to_string(c.r.below(1000000)); if (c.r.below(16) == 0) m += c.str("abc d", 400) + "."; return m; }
CALL(32, throw_runtime) { auto m = msgof(c); raise(c, "THROW_RUNTIME_ERROR", true, m, [&]() -> int { THROW_RUNTIME_ERROR(m << " end"); return 0; }); }
CALL(32, throw_logic) { auto m = msgof(c); raise(c, "THROW_LOGIC_ERROR", true, m, [&]() -> int { THROW_LOGIC_ERROR("x" << m); return 0; }); }
CALL(32, throw_file) { auto m = msgof(c); raise(c, "THROW_FILE_ERROR", true, m, [&]() -> int { THROW_FILE_ERROR(m); return 0; }); }
CALL(32, throw_impl) { auto m = msgof(c); raise(c, "THROW_IMPLEMENTED_ERROR", true, m, [&]() -> int { THROW_IMPLEMENTED_ERROR(m); return 0; }); }
CALL(32, assert_true_call) { auto m = msgof(c); bool f = c.r.coin(0.5); raise(c, "assert_true", f, m, [&]() -> int { switch (c.r.below(3)) { case 0: { long v = f ? 0 : 1L << c.r.below(63); assert_true(v, m); break; } case 1: { double v = f ? 0 : 0.25; assert_true(v, m); break; } default: assert_true(!f, m); } return 0; }); }
CALL(32, warning) { auto m = msgof(c); raise(c, "warning", false, m, [&]() -> int { short_warning(m); return 0; }); if (c.out.find(m) == std::string::npos) sim::fail("warning-lost", "the warning \"%s\" was not printed", m.c_str()); }
CALL(32, here) { auto m = msgof(c); raise(c, "HERE", false, m, [&]() -> int { HERE(m); return 0; }); if (c.out.find(m) == std::string::npos) sim::fail("here-lost", "HERE(\"%s\") printed nothing", m.c_str()); }
