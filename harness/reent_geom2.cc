#include "reent.h"
#include <ristra/ristra-config.h>
#include <ristra/geometry/point.h>
#include <ristra/geometry/space_vector.h>
using namespace ristra::geometry;
template <size_t D> static point<double, D> pt(reent::Ctx &c) { point<double, D> p; for (size_t i = 0; i < D; i++) p[i] = c.num(); return p; }
CALL(31, pt_distance) { auto a = pt<3>(c), b = pt<3>(c); c.enter(); auto d = distance(a, b); auto m = midpoint(a, b); auto x = ristra::geometry::centroid({a, b, m}); c.leave(); c.put(d); c.arr(m, 3); c.arr(x, 3); }
CALL(31, pt_centroid) { std::vector<point<double, 2>> v; for (int i = c.many(1, 6); i > 0; i--) v.push_back(pt<2>(c)); c.enter(); point<double, 2> x(0.0); for (auto &p : v) x += p; x /= v.size(); c.leave(); c.arr(x, 2); }
CALL(31, space_vec) { auto a = pt<3>(c), b = pt<3>(c); c.enter(); auto u = point_to_vector(a), v = point_to_vector(b); auto d = dot(u, v); auto m = magnitude(u); auto x = cross_magnitude(u, v); auto n = normal(u, v); auto s = u * 2.5; c.leave(); c.put(d); c.put(m); c.put(x); c.arr(n, 3); c.arr(s, 3); }
CALL(31, space_vec2) { auto a = pt<2>(c), b = pt<2>(c); c.enter(); auto u = point_to_vector(a), v = point_to_vector(b); auto x = cross_magnitude(u, v); auto n = normal(a, b); auto t = u + v; auto w = u - v; c.leave(); c.put(x); c.arr(n, 2); c.arr(t, 2); c.arr(w, 2); }
