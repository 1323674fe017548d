#include "reent.h"
#include <cassert>
#include <ristra/ristra-config.h>
#include <ristra/math/vector.h>
#include <ristra/math/matrix.h>
#include <ristra/geometry/area.h>
#include <ristra/geometry/centroid.h>
#include <ristra/geometry/normal.h>
#include <ristra/geometry/shapes/hexahedron.h>
#include <ristra/geometry/shapes/quadrilateral.h>
#include <ristra/geometry/shapes/polyhedron.h>
#include <ristra/geometry/shapes/polygon.h>
#include <ristra/geometry/shapes/tetrahedron.h>
#include <ristra/geometry/shapes/triangle.h>
using namespace ristra; using namespace ristra::geometry;
namespace sh = ristra::geometry::shapes;
using P2 = math::vector<double, 2>; using P3 = math::vector<double, 3>;
static P2 p2(reent::Ctx &c) { P2 p; p[0] = c.num(); p[1] = c.num(); return p; }
static P3 p3(reent::Ctx &c) { P3 p; for (int i = 0; i < 3; i++) p[i] = c.num(); return p; }
static std::vector<P2> poly2(reent::Ctx &c) { std::vector<P2> v; int n = c.many(3, 7); for (int i = 0; i < n; i++) { P2 p; double t = 6.28 * i / n, k = 1 + c.r.unit(); p[0] = k * cos(t); p[1] = k * sin(t); v.push_back(p); } return v; }
static std::vector<P3> poly3(reent::Ctx &c) { std::vector<P3> v; auto base = poly2(c); while (base.size() < 4) base = poly2(c); for (auto &q : base) { P3 p; p[0] = q[0]; p[1] = q[1]; p[2] = c.r.unit(); v.push_back(p); } return v; }
static std::vector<P3> hex(reent::Ctx &c) { static const int o[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}; std::vector<P3> v; double s = 1 + 3 * c.r.unit(); for (auto &k : o) { P3 p; for (int i = 0; i < 3; i++) p[i] = s * (k[i] + 0.2 * c.r.unit()); v.push_back(p); } return v; }
CALL(31, g_area) { auto v = poly2(c); auto a = p2(c), b = p2(c), d = p2(c), e = p2(c); c.enter(); auto o = geometry::area(a, b, d, e); auto q = geometry::area_2d(v); c.leave(); c.put(o); c.put(q); }
CALL(31, g_centroid) { auto v = poly2(c); auto a = p2(c), b = p2(c), d = p2(c), e = p2(c); c.enter(); auto o = geometry::centroid(a, b, d, e); auto q = geometry::centroid(v); c.leave(); c.arr(o, 2); c.arr(q, 2); }
CALL(31, g_normal) { auto a = p2(c), b = p2(c); auto e = p3(c), f = p3(c); c.enter(); auto n = geometry::normal(a, b); auto m = geometry::normal(e, f); c.leave(); c.arr(n, 2); c.arr(m, 3); }
CALL(31, tri2) { auto a = p2(c), b = p2(c), d = p2(c); using S = sh::triangle<2>; c.enter(); auto x = S::centroid(a, b, d); auto m = S::midpoint(a, b, d); auto r = S::area(a, b, d); auto n = S::normal(a, b, d); c.leave(); c.arr(x, 2); c.arr(m, 2); c.put(r); c.arr(n, 2); }
CALL(31, tri3) { auto a = p3(c), b = p3(c), d = p3(c); using S = sh::triangle<3>; c.enter(); auto x = S::centroid(a, b, d); auto m = S::midpoint(a, b, d); auto r = S::area(a, b, d); auto n = S::normal(a, b, d); c.leave(); c.arr(x, 3); c.arr(m, 3); c.put(r); c.arr(n, 3); }
CALL(31, quad2) { auto a = p2(c), b = p2(c), d = p2(c), e = p2(c); using S = sh::quadrilateral<2>; c.enter(); auto x = S::centroid(a, b, d, e); auto m = S::midpoint(a, b, d, e); auto r = S::area(a, b, d, e); c.leave(); c.arr(x, 2); c.arr(m, 2); c.put(r); }
CALL(31, quad3) { auto a = p3(c), b = p3(c), d = p3(c), e = p3(c); using S = sh::quadrilateral<3>; c.enter(); auto x = S::centroid(a, b, d, e); auto m = S::midpoint(a, b, d, e); auto r = S::area(a, b, d, e); auto n = S::normal(a, b, d, e); c.leave(); c.arr(x, 3); c.arr(m, 3); c.put(r); c.arr(n, 3); }
CALL(31, polygon2) { auto v = poly2(c); auto a = p2(c), b = p2(c), d = p2(c); using S = sh::polygon<2>; c.enter(); auto x = S::centroid(v); auto m = S::midpoint(v); auto r = S::area(v); auto n = S::normal(v); auto x3 = S::centroid(a, b, d); auto m3 = S::midpoint(a, b, d); auto r3 = S::area(a, b, d); auto n3 = S::normal(a, b, d); c.leave(); c.arr(x, 2); c.arr(m, 2); c.put(r); c.arr(n, 2); c.arr(x3, 2); c.arr(m3, 2); c.put(r3); c.arr(n3, 2); }
CALL(31, polygon3) { auto v = poly3(c); auto a = p3(c), b = p3(c), d = p3(c), e = p3(c); using S = sh::polygon<3>; c.enter(); auto x = S::centroid(v); auto m = S::midpoint(v); auto r = S::area(v); auto n = S::normal(v); auto x3 = S::centroid(a, b, d, e); auto m3 = S::midpoint(a, b, d, e); auto r3 = S::area(a, b, d, e); auto n3 = S::normal(a, b, d, e); c.leave(); c.arr(x, 3); c.arr(m, 3); c.put(r); c.arr(n, 3); c.arr(x3, 3); c.arr(m3, 3); c.put(r3); c.arr(n3, 3); }
CALL(31, hexa) { auto v = hex(c); using S = sh::hexahedron; c.enter(); auto x = S::centroid(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); auto m = S::midpoint(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); auto r = S::volume(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); c.leave(); c.arr(x, 3); c.arr(m, 3); c.put(r); }
CALL(31, tetra) { auto a = p3(c), b = p3(c), d = p3(c), e = p3(c); using S = sh::tetrahedron; c.enter(); auto x = S::centroid(a, b, d, e); auto m = S::midpoint(a, b, d, e); auto r = S::volume(a, b, d, e); c.leave(); c.arr(x, 3); c.arr(m, 3); c.put(r); }
CALL(31, polyhedron) {
  auto v = hex(c); static const int f[6][4] = {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}; bool il = c.r.coin(0.5);
  c.enter(); sh::polyhedron<P3> p; for (auto &k : f) { if (il) p.insert({v[k[0]], v[k[1]], v[k[2]], v[k[3]]}); else { std::vector<P3> q; for (int i : k) q.push_back(v[i]); p.insert(q.begin(), q.end()); } }
  auto x = p.centroid(); auto m = p.midpoint(); auto r = p.volume(); c.leave(); c.arr(x, 3); c.arr(m, 3); c.put(r);
}
