#include "reent.h"
#include <cassert>
#include <set>
#include <list>
#include <deque>
#include <ristra/assertions/errors.h>
#include <ristra/utils/string_utils.h>
#include <ristra/utils/trivial_string.h>
#include <ristra/utils/const_string.h>
#include <ristra/utils/algorithm.h>
#include <ristra/utils/time_utils.h>
#include <ristra/assertions/here.h>
using namespace ristra;
static const char *AB = "ab ./,;:-_c";
static const char *PATHS = "ab./._-x";
CALL(30, replace_all) { auto s = c.str("aab b", 60), f = c.str("ab ", 2), t = c.str("abX", 4); if (f.empty()) f = "a"; c.enter(); auto o = utils::replace_all(s, f, t); c.leave(); c.put(o); }
CALL(30, to_string_int) { long v = (long)c.r.next() >> c.r.below(63); c.enter(); auto o = utils::to_string(v); c.leave(); c.put(o); }
CALL(30, to_string_double) { double v = c.num(); c.enter(); auto o = utils::to_string(v); c.leave(); c.put(o); }
CALL(30, to_string_str) { auto v = c.str(AB, 70); c.enter(); auto o = utils::to_string(v); c.leave(); c.put(o); }
CALL(30, to_string_char) { char v = "abc xyz"[c.r.below(7)]; c.enter(); auto o = utils::to_string(v); c.leave(); c.put(o); }
CALL(30, to_wstring) { auto s = c.str("abcXYZ 09", 40); c.enter(); auto w = utils::to_wstring(s.c_str()); c.leave(); c.put(w.size()); for (auto x : w) c.put((long)x); }
CALL(30, basename) { auto s = c.str(PATHS, 50); c.enter(); auto o = utils::basename(s); c.leave(); c.put(o); }
CALL(30, file_extension) { auto s = c.str(PATHS, 50); c.enter(); auto o = utils::file_extension(s); c.leave(); c.put(o); }
CALL(30, remove_extension) { auto s = c.str(PATHS, 50); c.enter(); auto o = utils::remove_extension(s); c.leave(); c.put(o); }
CALL(30, split_extension) { auto s = c.str(PATHS, 50); c.enter(); auto o = utils::split_extension(s); c.leave(); c.put(o.first); c.put(o.second); }
static void split_with(reent::Ctx &c, const char *alpha, const char *delims, int maxd) {
  auto s = c.str(alpha, 40); std::vector<char> d; int n = (int)c.r.range(1, maxd), k = (int)strlen(delims); for (int i = 0; i < n; i++) d.push_back(delims[c.r.below(k)]);
  c.enter(); auto o = utils::split(s, d); c.leave(); c.put(o);
}
CALL(30, split_one) { split_with(c, "ab,;:|", ",;:|", 1); }
CALL(30, split_many) { split_with(c, "ab,;:| /", ",;:| /", 4); }
CALL(30, split_bytes) { split_with(c, "ab\xe9\xff\x80,", "\xe9\xff\x80,", 2); }
CALL(30, split_default) { auto s = c.str("ab  ,", 40); c.enter(); auto o = utils::split(s); c.leave(); c.put(o); }
CALL(30, num_digits) { unsigned v = (unsigned)(c.r.next() >> c.r.range(32, 63)); c.enter(); auto o = utils::num_digits(v); c.leave(); c.put((long)o); }
CALL(30, zero_padded) { unsigned v = (unsigned)(c.r.next() >> c.r.range(32, 63)), p = (unsigned)c.r.range(1, 12); bool d = c.r.coin(0.3); c.enter(); auto o = d ? utils::zero_padded(v) : utils::zero_padded(v, p); c.leave(); c.put(o); }
CALL(30, set_intersection) {
  std::vector<int> a, b, o; for (int i = c.many(0, 11); i > 0; i--) a.push_back((int)c.r.below(9)); for (int i = c.many(0, 11); i > 0; i--) b.push_back((int)c.r.below(9));
  c.enter(); utils::unsorted_set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o)); c.leave(); c.put(o); c.put(a); c.put(b);
}
CALL(30, set_intersection_str) {
  std::vector<std::string> a, o; std::list<std::string> b; for (int i = (int)c.r.below(7); i > 0; i--) a.push_back(c.str("ab", 2)); for (int i = (int)c.r.below(7); i > 0; i--) b.push_back(c.str("ab", 2));
  c.enter(); utils::unsorted_set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o)); c.leave(); c.put(o);
}
CALL(30, remove_duplicates) { std::vector<std::string> a; for (int i = c.many(0, 11); i > 0; i--) a.push_back(c.str("ab", 1)); c.enter(); utils::remove_duplicates(a); c.leave(); c.put(a); }
CALL(30, trivial_string) { auto s = c.shortstr(AB, 30); c.enter(); auto t = utils::to_trivial_string<32>(s); auto o = t.str(); char f = t[0]; c.leave(); c.put(o); c.put((long)f); c.put(t.c_str()); }
CALL(30, const_string_idx) { static const char k[] = "constant text"; long i = c.r.below(16); c.enter(); utils::const_string t(k); std::string o; try { o = std::string(1, t[i]); } catch (std::out_of_range &) { o = "range"; } auto n = t.size(); c.leave(); c.put(o); c.put(n); }
CALL(30, days_hours) { long long v = (long long)(c.r.next() >> c.r.range(20, 60)), d; int h, m, s; c.enter(); utils::daysHoursMinutesSeconds(v, d, h, m, s); c.leave(); c.put((long)d); c.put(h); c.put(m); c.put(s); }
CALL(30, here_str) { auto f = c.str("ab/.c", 20), n = c.str("fgh_", 12), m = c.str(AB, 40); int l = (int)c.r.below(5000); c.enter(); auto o = assertions::here_str_func(f.c_str(), n.c_str(), l, m); c.leave(); c.put(o); }
CALL(30, exception_texts) {
  auto f = c.str("ab/.c", 40); int k = (int)c.r.below(6); c.enter(); std::string o;
  switch (k) {
    case 0: { assertions::ExceptionRunTime e; o = e.what(); break; } case 1: { assertions::ExceptionLogic e; o = e.what(); break; }
    case 2: { assertions::ExceptionNotImplemented e; o = e.what(); break; } case 3: { assertions::ExceptionFileError e(f); o = e.what(); break; }
    case 4: { assertions::ExceptionConvergenceFailure e; o = e.what(); break; } default: { assertions::ExceptionFloatingPoint e; o = e.what(); } }
  c.leave(); c.put(o);
}
