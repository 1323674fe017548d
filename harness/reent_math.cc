#include "reent.h"
#include <cassert>
#include <sstream>
#include <ristra/ristra-config.h>
#include <ristra/math/general.h>
#include <ristra/math/matrix.h>
#include <ristra/math/vector.h>
#include <ristra/math/array.h>
#include <ristra/math/tuple.h>
using namespace ristra;
using std::size_t;
template <size_t N> using V = math::vector<double, N>;
template <size_t N, size_t M> using MT = math::matrix<double, N, M>;
template <size_t N> static V<N> vec(reent::Ctx &c) { V<N> v; for (size_t i = 0; i < N; i++) v[i] = c.num(); return v; }
template <size_t N, size_t M> static MT<N, M> mat(reent::Ctx &c) { MT<N, M> m; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < M; j++) m(i, j) = c.num() + (i == j ? 25 : 0); return m; }
template <size_t N> static void pv(reent::Ctx &c, const V<N> &v) { c.arr(v, N); }
template <size_t N, size_t M> static void pm(reent::Ctx &c, const MT<N, M> &m) { for (size_t i = 0; i < N; i++) for (size_t j = 0; j < M; j++) c.put((double)m(i, j)); }
#define ON2(call) { if (c.r.coin(0.5)) { call(c, 2); } else { call(c, 3); } }
CALL(31, average_args) { auto a = vec<3>(c), b = vec<3>(c), d = vec<3>(c); double x = c.num(), y = c.num(), z = c.num(); c.enter(); auto o = math::average(a, b, d); auto s = math::average(x, y, z); auto t = math::average(x, y); c.leave(); pv<3>(c, o); c.put(s); c.put(t); }
CALL(31, average_range) { std::vector<double> a; for (int i = c.many(1, 12); i > 0; i--) a.push_back(c.num()); c.enter(); auto o = math::average(a); auto p = math::average(a.begin(), a.end()); c.leave(); c.put(o); c.put(p); }
CALL(31, minmax_element) { std::vector<double> a; for (int i = c.many(1, 12); i > 0; i--) a.push_back(c.num()); auto v = vec<4>(c); c.enter(); auto lo = *math::min_element(a), hi = *math::max_element(a); auto l2 = *math::min_element(v), h2 = *math::max_element(v); c.leave(); c.put(lo); c.put(hi); c.put(l2); c.put(h2); }
CALL(31, dot_and_magnitude) { auto a = vec<3>(c), b = vec<3>(c); std::vector<double> p(4, c.num()), q(4, c.num()); c.enter(); auto d = math::dot_product(a, b), m = math::magnitude(a), n = math::abs(b), e = math::delta_magnitude(a, b); auto f = math::dot_product(p, q), g = math::magnitude(p); c.leave(); c.put(d); c.put(m); c.put(n); c.put(e); c.put(f); c.put(g); }
CALL(31, min_max_vec) { auto a = vec<3>(c), b = vec<3>(c); c.enter(); auto lo = math::min(a, b), hi = math::max(a, b); c.leave(); pv<3>(c, lo); pv<3>(c, hi); }
CALL(31, powers) { double x = c.num(); c.enter(); auto a = math::sqr(x), b = math::cube(x); auto s = math::sgn(x); c.leave(); c.put(a); c.put(b); c.put(s); }
CALL(31, unit_vec) { auto a = vec<3>(c); a[0] += 30; auto b = vec<2>(c); b[1] += 30; c.enter(); auto u = math::unit(a); auto v = math::unit(b); c.leave(); pv<3>(c, u); pv<2>(c, v); }
CALL(31, normal_2d) { auto a = vec<2>(c), b = vec<2>(c); c.enter(); auto n = math::normal(a, b); c.leave(); pv<2>(c, n); }
CALL(31, cross) { auto a = vec<2>(c), b = vec<2>(c); auto e = vec<3>(c), f = vec<3>(c), g = vec<3>(c); c.enter(); auto x = math::cross_product(a, b); auto y = math::cross_product(e, f); auto t = math::triple_product(e, f, g); c.leave(); c.put(x); pv<3>(c, y); c.put(t); }
CALL(31, array_ops) { auto a = vec<4>(c), b = vec<4>(c); for (int i = 0; i < 4; i++) b[i] += 30; double k = c.num() + 40; c.enter(); auto s = a + b; auto d = a - b; auto m = a * b; auto q = a / b; auto e = k * a; auto f = a / k; auto g = a; g += b; g -= a; g *= b; g /= k; bool lt = a < b, eq = a == b; std::swap(a, b); c.leave(); pv<4>(c, s); pv<4>(c, d); pv<4>(c, m); pv<4>(c, q); pv<4>(c, e); pv<4>(c, f); pv<4>(c, g); pv<4>(c, a); pv<4>(c, b); c.put(lt); c.put(eq); }
CALL(31, array_print) { auto a = vec<3>(c); auto m = mat<2, 3>(c); c.enter(); std::ostringstream os; os << a << "|" << m; auto o = os.str(); c.leave(); c.put(o); }
CALL(31, outer_product2) { auto a = vec<2>(c), b = vec<2>(c); auto m = mat<2, 2>(c); double k = c.num(); c.enter(); auto o = math::outer_product(a, b); math::outer_product(a, b, m, k); c.leave(); pm<2, 2>(c, o); pm<2, 2>(c, m); }
CALL(31, outer_product3) { auto a = vec<3>(c), b = vec<3>(c); c.enter(); auto o = math::outer_product(a, b); c.leave(); pm<3, 3>(c, o); }
CALL(31, cofactor) { auto m = mat<4, 4>(c); size_t i = c.r.below(4), j = c.r.below(4); c.enter(); auto o = math::cofactor(m, i, j); c.leave(); pm<3, 3>(c, o); }
CALL(31, determinant2) { auto m = mat<2, 2>(c); c.enter(); auto o = math::determinant(m); c.leave(); c.put(o); }
CALL(31, determinant4) { auto m = mat<4, 4>(c); c.enter(); auto o = math::determinant(m); c.leave(); c.put(o); }
CALL(31, inverse1) { auto m = mat<1, 1>(c); c.enter(); auto o = math::inverse(m); c.leave(); pm<1, 1>(c, o); }
CALL(31, inverse2) { auto m = mat<2, 2>(c); c.enter(); auto o = math::inverse(m); c.leave(); pm<2, 2>(c, o); }
CALL(31, inverse3) { auto m = mat<3, 3>(c); c.enter(); auto o = math::inverse(m); c.leave(); pm<3, 3>(c, o); }
CALL(31, inverse4) { auto m = mat<4, 4>(c); c.enter(); auto o = math::inverse(m); c.leave(); pm<4, 4>(c, o); }
CALL(31, ax_plus_y) { auto m = mat<3, 3>(c); auto x = vec<3>(c), y = vec<3>(c), z = vec<3>(c); double a = c.num(), b = c.num(); c.enter(); math::ax_plus_y(m, x, y); math::matrix_vector(a, m, x, b, z); auto p = m * x; c.leave(); pv<3>(c, y); pv<3>(c, z); pv<3>(c, p); }
CALL(31, matrix_multiply) { auto a = mat<2, 3>(c); auto b = mat<3, 2>(c); auto e = mat<2, 2>(c); c.enter(); auto o = math::matrix_multiply(a, b); math::matrix_multiply(a, b, e); c.leave(); pm<2, 2>(c, o); pm<2, 2>(c, e); }
CALL(31, solve2) { auto m = mat<2, 2>(c); auto b = vec<2>(c); c.enter(); auto x = math::solve(m, b); c.leave(); pv<2>(c, x); }
CALL(31, solve3) { auto m = mat<3, 3>(c); auto b = vec<3>(c); c.enter(); auto x = math::solve(m, b); c.leave(); pv<3>(c, x); }
CALL(31, solve4) { auto m = mat<4, 4>(c); auto b = vec<4>(c); c.enter(); auto x = math::solve(m, b); c.leave(); pv<4>(c, x); }
CALL(31, rotation) { double a = c.num(); c.enter(); auto o = math::rotation_matrix<double, 2>(a); c.leave(); pm<2, 2>(c, o); }
CALL(31, reflection_projection) { auto n = vec<3>(c); c.enter(); auto r = math::reflection_matrix(n); auto p = math::projection_matrix(n); c.leave(); pm<3, 3>(c, r); pm<3, 3>(c, p); }
CALL(31, norms) { auto m = mat<3, 3>(c); c.enter(); auto a = math::infinity_norm(m), b = math::one_norm(m), d = math::two_norm(m); auto t = math::trace_matrix(m); auto i = math::identity_matrix<double, 3>(); auto dd = math::doubledot_product(m, i); c.leave(); c.put(a); c.put(b); c.put(d); c.put(t); pm<3, 3>(c, i); c.put(dd); }
CALL(31, transpose) { auto m = mat<2, 3>(c); c.enter(); auto o = math::transpose(m); c.leave(); pm<3, 2>(c, o); }
CALL(31, exponential2) { auto m = mat<2, 2>(c); m /= 20.0; c.enter(); auto o = math::exponential(m); c.leave(); pm<2, 2>(c, o); }
CALL(31, exponential3) { auto m = mat<3, 3>(c); m /= 20.0; c.enter(); auto o = math::exponential(m); c.leave(); pm<3, 3>(c, o); }
CALL(31, matrix_ops) { auto a = mat<2, 2>(c), b = mat<2, 2>(c); double k = c.num() + 50; c.enter(); auto s = a + b; auto d = a - b; auto e = k * a; auto f = a / k; auto g = a; g += b; g *= k; c.leave(); pm<2, 2>(c, s); pm<2, 2>(c, d); pm<2, 2>(c, e); pm<2, 2>(c, f); pm<2, 2>(c, g); }
