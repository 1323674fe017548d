#include "reent.h"
#include <cmath>
#include <new>
#include <ristra/elements/elements.h>
using namespace ristra::elements;
using VV = std::vector<std::vector<double>>;
static VV verts(reent::Ctx &c, int n, int d) { VV v(n, std::vector<double>(d)); for (auto &p : v) for (auto &x : p) x = c.num(); return v; }
static std::vector<double> xi(reent::Ctx &c, int d) { std::vector<double> v(d); for (auto &x : v) x = c.r.unit() * 2 - 1; return v; }
CALL(31, line_gauss) { int p = (int)c.r.range(1, 8), m = (int)c.r.range(1, p); double x, w; c.enter(); LineGaussRuleInfo(x, w, m, p); c.leave(); c.put(x); c.put(w); }
CALL(31, line_lobatto) { int p = (int)c.r.range(2, 8), m = (int)c.r.range(1, p); double x, w; c.enter(); LineLobattoRuleInfo(x, w, m, p); c.leave(); c.put(x); c.put(w); }
CALL(31, gauss2d) { int q = (int)c.r.range(1, 5), n = q * q; VV g(n, std::vector<double>(2)), w(n, std::vector<double>(2, 1.0)); std::vector<double> t(n); c.enter(); Gauss2D(g, w, t, q); c.leave(); c.put(g); c.put(w); c.put(t); }
CALL(31, gauss3d) { int q = (int)c.r.range(1, 4), n = q * q * q; VV g(n, std::vector<double>(3)), w(n, std::vector<double>(3, 1.0)); std::vector<double> t(n); c.enter(); Gauss3D(g, w, t, q); c.leave(); c.put(g); c.put(w); c.put(t); }
CALL(31, gauss4d) { int q = (int)c.r.range(1, 3), n = q * q * q * q; VV g(n, std::vector<double>(4)), w(n, std::vector<double>(4, 1.0)); c.enter(); Gauss4D(g, w, q, 4); c.leave(); c.put(g); c.put(w); }
CALL(31, lobatto2d) { int q = (int)c.r.range(2, 5), n = q * q; VV g(n, std::vector<double>(2)), w(n, std::vector<double>(2, 1.0)); c.enter(); Lobatto2D(g, w, q); c.leave(); c.put(g); c.put(w); }
CALL(31, lobatto3d) { int q = (int)c.r.range(2, 4), n = q * q * q; VV g(n, std::vector<double>(3)), w(n, std::vector<double>(3, 1.0)); c.enter(); Lobatto3D(g, w, q); c.leave(); c.put(g); c.put(w); }
CALL(31, lobatto4d) { int q = (int)c.r.range(2, 3), n = q * q * q * q; VV g(n, std::vector<double>(4)), w(n, std::vector<double>(4, 1.0)); c.enter(); Lobatto4D(g, w, q, 4); c.leave(); c.put(g); c.put(w); }
CALL(31, jacobian23) { int d = 3; VV v = verts(c, 4, d), p = verts(c, 4, d), J(3, std::vector<double>(3)); double det = 0; c.enter(); jacobian(J, det, v, p, 4, d); c.leave(); c.put(J); c.put(det); }
CALL(31, jacobian_4d) { VV v = verts(c, 4, 4), p = verts(c, 4, 4), J(4, std::vector<double>(4)); double det = 0; c.enter(); jacobian4D(J, det, v, p, 4, 4); c.leave(); c.put(J); c.put(det); }
CALL(31, jac_inv2) { VV J = verts(c, 2, 2), I(2, std::vector<double>(2)); J[0][0] += 30; J[1][1] += 30; c.enter(); jacobian_inverse_2d(I, J); c.leave(); c.put(I); }
CALL(31, jac_inv3) { VV J = verts(c, 3, 3), I(3, std::vector<double>(3)); for (int i = 0; i < 3; i++) J[i][i] += 30; c.enter(); jacobian_inverse_3d(I, J); c.leave(); c.put(I); }
CALL(31, jac_inv4) { VV J = verts(c, 4, 4), I(4, std::vector<double>(4)); for (int i = 0; i < 4; i++) J[i][i] += 30; double d = c.num() + 20; c.enter(); jacobian_inverse_4d(I, J, d); c.leave(); c.put(I); }
// element objects live in memory that held something else before
template <class E> struct Elem { alignas(16) char b[sizeof(E)]; E *e; Elem(reent::Ctx &c) { for (auto &x : b) x = c.alone ? (char)0x3f : (char)0xC0; e = new (b) E; } ~Elem() { e->~E(); } E *operator->() { return e; } };
template <class E, int N> static void el2(reent::Ctx &c) {
  auto v = verts(c, N, 2); auto x = xi(c, 2); std::vector<double> pos(2), b(N), px(N), pe(N); Elem<E> e(c); int what = (int)c.r.below(4);
  c.enter(); if (what == 0) e->physical_position(pos, x, v); else if (what == 1) e->basis(b, x, v); else if (what == 2) e->partial_xi_shape_fcn(px, x); else e->partial_eta_shape_fcn(pe, x); c.leave();
  c.put(pos); c.put(b); c.put(px); c.put(pe);
}
template <class E, int N> static void el3(reent::Ctx &c) {
  auto v = verts(c, N, 3); auto x = xi(c, 3); std::vector<double> pos(3), b(N), px(N), pe(N), pm(N); Elem<E> e(c); int what = (int)c.r.below(5);
  c.enter(); switch (what) { case 0: e->physical_position(pos, x, v); break; case 1: e->basis(b, x, v); break; case 2: e->partial_xi_shape_fcn(px, x); break; case 3: e->partial_eta_shape_fcn(pe, x); break; default: e->partial_mu_shape_fcn(pm, x); } c.leave();
  c.put(pos); c.put(b); c.put(px); c.put(pe); c.put(pm);
}
CALL(31, quad4) { el2<Quad_4_2D, 4>(c); }
CALL(31, quad8) { el2<Quad_8_2D, 8>(c); }
CALL(31, quad12) { el2<Quad_12_2D, 12>(c); }
CALL(31, hex8) { el3<Hex8, 8>(c); }
CALL(31, hex20) { el3<Hex20, 20>(c); }
CALL(31, hex32) { el3<Hex32, 32>(c); }
CALL(31, tess16) {
  auto v = verts(c, 16, 4); auto x = xi(c, 4); std::vector<double> pos(4), p(16); Elem<Tess16> e(c); int what = (int)c.r.below(5);
  c.enter(); switch (what) { case 0: e->physical_position(pos, x, v); break; case 1: e->partial_xi_shape_fcn(p, x); break; case 2: e->partial_eta_shape_fcn(p, x); break; case 3: e->partial_mu_shape_fcn(p, x); break; default: e->partial_tau_shape_fcn(p, x); } c.leave();
  c.put(pos); c.put(p);
}
template <class E, int D> static void eln(reent::Ctx &c, int maxorder, bool corners) {
  int o = (int)c.r.range(1, maxorder), N = o + 1, tot = D == 2 ? N * N : N * N * N; Elem<E> e(c); std::vector<double> n1(N), v1(N), d1(N), basis(tot), pos(3); VV nodes(tot, std::vector<double>(D)), v2 = nodes, d2 = nodes, part = nodes, corner(D == 2 ? 4 : 8, std::vector<double>(D)); auto x = xi(c, D);
  int what = (int)c.r.below(3);
  c.enter(); e->chebyshev_nodes_1D(n1, o); if (what == 0) e->lagrange_1D(v1, d1, x[0], n1, o); else { e->basis_partials(nodes, n1, v1, d1, v2, d2, basis, part, x, o); e->physical_position(pos, nodes, basis, o); if (what == 2 && corners) e->corners(nodes, corner, o); } c.leave();
  c.put(n1); c.put(v1); c.put(d1); c.put(basis); c.put(part); c.put(pos); c.put(corner);
}
CALL(31, quadn) { eln<QuadN, 2>(c, 3, false); }
CALL(31, quadn_corners) { eln<QuadN, 2>(c, 2, true); }
CALL(31, hexn) { eln<HexN, 3>(c, 1, true); }
CALL(31, hexn2) { eln<HexN, 3>(c, 2, false); }
