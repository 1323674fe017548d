#include "reent.h"
#include <cassert>
#include <sstream>
#include <tuple>
#include <ristra/ristra-config.h>
#include <ristra/math/array.h>
#include <ristra/math/multi_array.h>
#include <ristra/math/tuple.h>
#include <ristra/utils/functional.h>
#include <ristra/geometry/point.h>
#include <ristra/geometry/space_vector.h>
using namespace ristra;
using std::size_t;
using A5 = math::array<double, 5>; using I4 = math::array<int, 4>; using M3 = math::multi_array<double, 2, 3, 2>; using M2 = math::multi_array<int, 3, 4>;
static A5 a5(reent::Ctx &c) { A5 v; for (int i = 0; i < 5; i++) v[i] = c.num(); return v; }
static I4 i4(reent::Ctx &c) { I4 v; for (int i = 0; i < 4; i++) v[i] = (int)c.r.range(0, 3); return v; }
static M3 m3(reent::Ctx &c) { M3 v; for (int i = 0; i < 12; i++) v[i] = c.num(); return v; }
template <class R> static void all(reent::Ctx &c, const R &r) { for (auto &x : r) c.put((double)x); }
CALL(31, array_access) { auto a = a5(c); size_t i = c.r.below(7); const A5 &k = a; c.enter(); double o = 0; std::string e; try { o = a.at(i) + k.at(i); } catch (std::exception &x) { e = x.what(); } auto f = k.front() + a.back(), g = a(2) + k(3); double s = 0; for (auto it = a.rbegin(); it != a.rend(); ++it) s = s * 0.5 + *it; for (auto it = k.begin(); it != k.end(); ++it) s = s * 0.5 + *it; c.leave(); c.put(o); c.put(e); c.put(f); c.put(g); c.put(s); c.put((long)A5::size()); }
CALL(31, array_modify) { auto a = a5(c), b = a5(c); double v = c.num() + 40; auto n = i4(c); c.enter(); a.swap(b); A5 d(v), e(a), f; f.fill(v); f += a; f -= 1.5; f *= b; f /= v; math::array<double, 4> w((double)n[0]); swap(a, e); A5 g; g = v; auto h = -g; c.leave(); all(c, a); all(c, b); all(c, d); all(c, e); all(c, f); all(c, w); all(c, h); }
CALL(31, array_compare) { auto a = i4(c), b = i4(c); c.enter(); long o = (a == b) | (a < b) << 1 | (a != b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5 | (a == 2) << 6; c.leave(); c.put(o); }
CALL(31, array_scalar_ops) { auto a = a5(c); double k = c.num() + 40; for (int i = 0; i < 5; i++) a[i] += 30; c.enter(); auto p = a + k; auto q = k - a; auto r = a - k; auto s = a * k; auto t = a / k; auto u = k / a; c.leave(); all(c, p); all(c, q); all(c, r); all(c, s); all(c, t); all(c, u); }
CALL(31, multi_array_access) { auto a = m3(c); const M3 &k = a; size_t i = c.r.below(3), j = c.r.below(3), l = c.r.below(2); c.enter(); double o = 0; std::string e; try { o = a.at(i, j, l) + k.at(i, j, l); } catch (std::exception &x) { e = x.what(); } double p = k(1, 2, 1) + a(0, 1, 0); double s = 0; for (auto it = k.rbegin(); it != k.rend(); ++it) s = s * 0.5 + *it; c.leave(); c.put(o); c.put(e); c.put(p); c.put(s); c.put(k.front() + k.back()); c.put((long)M3::strides()[0]); c.put((long)M3::shape()[1]); }
CALL(31, multi_array_modify) { auto a = m3(c), b = m3(c); double k = c.num() + 40; M2 n; for (int i = 0; i < 12; i++) n[i] = (int)c.r.range(0, 9); c.enter(); a.swap(b); M3 f; f.fill(k); f += a; f -= b; f += 2.5; f -= 0.25; f *= 1.5; f *= a; f /= k; auto g = -f; math::multi_array<double, 3, 4> w(n); M3 h; h.assign(a.begin(), a.end()); swap(h, b); M3 z(k); auto p = a + b; auto q = a - b; auto r = p * k; auto t = q / k; c.leave(); all(c, a); all(c, b); all(c, f); all(c, g); all(c, w); all(c, h); all(c, z); all(c, r); all(c, t); }
CALL(31, multi_array_compare) { M2 a, b; for (int i = 0; i < 12; i++) { a[i] = (int)c.r.range(0, 1); b[i] = i < 9 ? a[i] : (int)c.r.range(0, 1); } c.enter(); std::ostringstream os; os << a; long o = (a == b) | (a < b) << 1 | (a != b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5 | (a == 1) << 6; auto s = os.str(); c.leave(); c.put(o); c.put(s); }
CALL(31, math_tuple) { using T = math::tuple<double, int, float>; T a{c.num(), (int)c.r.range(1, 9), (float)c.num()}, b{c.num() + 40, (int)c.r.range(1, 9), (float)c.num() + 40}; double k = c.num() + 40; c.enter(); auto p = math::operator+(a, b); auto q = math::operator-(a, b); auto r = math::operator*(a, b); auto s = math::operator/(a, b); T f; math::fill(f, 3); math::plus_equal(f, a); math::minus_equal(f, b); math::multiplies_equal(f, b); math::divides_equal(f, b); auto u = math::operator*(a, k); c.leave(); auto pt = [&](auto &t) { c.put((double)std::get<0>(t)); c.put((long)std::get<1>(t)); c.put((double)std::get<2>(t)); }; pt(p); pt(q); pt(r); pt(s); pt(f); pt(u); }
CALL(31, functional) { double x = c.num(); int y = (int)c.r.range(1, 9); c.enter(); auto a = utils::plus(x, y), b = utils::minus(x, y), d = utils::multiplies(x, y), e = utils::divides(x, y); c.leave(); c.put(a); c.put(b); c.put(d); c.put(e); }
CALL(31, space_vector_ops) { using P = geometry::space_vector<double, 3>; P a, b; for (int i = 0; i < 3; i++) { a[i] = c.num(); b[i] = c.num() + 30; } double k = c.num() + 40; c.enter(); P d(a); d += b; d -= a; d *= k; d /= b; d += k; auto e = a + b; auto f = a - b; P g; g = k; std::ostringstream os; os << e; auto s = os.str(); c.leave(); for (int i = 0; i < 3; i++) { c.put((double)d[i]); c.put((double)e[i]); c.put((double)f[i]); c.put((double)g[i]); } c.put(s); }
