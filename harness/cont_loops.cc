// C41: loop, zip and tuple helpers, from several threads, nested, with callbacks that throw.
#include "sim.h"
#include <iostream>
#include <array>
#include <deque>
#include <limits>
#include <list>
#include <new>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <ristra/utils/type_traits.h>
#include <ristra/utils/tasks.h>
#include <ristra/utils/zip.h>
#include <ristra/utils/static_for.h>
#include <ristra/utils/tuple_for_each.h>
#include <ristra/utils/tuple_visit.h>
#include <ristra/utils/tuple_zip.h>
using sim::Op; using sim::Program; using sim::Rng; namespace u = ristra::utils;
struct E { long v = 0, hits = 0; };
struct Big : E { double pad[5] = {}; };
// what callbacks throw: exceptions of several families, and things that are no std::exception
struct Stop { long at; int kind; };
struct StopR : Stop, std::runtime_error { StopR(long a) : Stop{a, 0}, std::runtime_error("stop") {} };
struct StopA : Stop, std::bad_alloc { StopA(long a) : Stop{a, 1} {} };
struct StopL : Stop, std::out_of_range { StopL(long a) : Stop{a, 2}, std::out_of_range("stop") {} };
struct StopO : Stop { StopO(long a) : Stop{a, 3} {} };
[[noreturn]] static void stop_with(int k, long at) { switch (k & 3) { case 0: throw StopR(at); case 1: throw StopA(at); case 2: throw StopL(at); default: throw StopO(at); } }
enum { K_THROW = sim::K_F0 };
enum { T1, T2, T3, T4, Z2, Z3, ZIT, FOREACH, SFOR, VISIT1, VISIT2, VISIT3, TIE, ZTWICE, ZPAIR, ARR, NL };
static const char *LN[] = {"simple_task over 1 range", "simple_task over 2 ranges", "simple_task over 3 ranges", "simple_task over 4 ranges", "for over zip of 2", "for over zip of 3", "zip iterators by hand", "tuple_for_each", "static_for", "tuple_visit of 1", "tuple_visit of 2", "tuple_visit of 3", "tuple_tie", "two walks over one zip object", "nested walk over one zip object", "simple_task over an array and a copied zip"};
static __thread int t_depth;
struct Ctx { double p; bool interesting = false; };
struct Loop {
  Ctx &c; int kind; long len; long nest; int id; long seen = 0, stop = -1, walk = 0; const char *name;
  std::vector<E> a; std::list<E> l; std::deque<E> d; std::vector<E> b; std::vector<const void *> addr[4]; int nr = 1;
  Loop(Ctx &x, int k, long n, long ne, int i) : c(x), kind(k), len(n), nest(ne), id(i), name(LN[k]) {}
  template <class R> static void fill(R &r, std::vector<const void *> &ad, long n, long base) { for (long i = 0; i < n; i++) { E e; e.v = base + i; r.push_back(e); } for (auto &e : r) ad.push_back(&e); }
  // called by the callback: element `e` of range r
  void see(int r, E &e) {
    sim::Quiet q;
    if (seen >= len) sim::fail("visited-too-often", "%s over %ld elements made more than %ld calls", name, len, len);
    if (&e != addr[r][seen]) { long at = -1; for (long i = 0; i < len; i++) if (addr[r][i] == &e) at = i; if (at >= 0) sim::fail("wrong-order", "%s: call %ld got element %ld of range %d", name, seen, at, r); sim::fail("not-the-element", "%s: call %ld got something that is not an element of range %d", name, seen, r); }
  }
  void done() {            // end of one callback
    long me = seen++;
    if (nest > 0 && me == (nest * 7 + id) % (len > 0 ? len : 1)) { Loop in(c, (kind + (int)nest * 5 + id) % NL, (len + nest) % 6, nest - 1, id + 1); in.run(true); }
    if (sim::fault(K_THROW, c.p)) { sim::count("fault.callback_threw"); stop = me; stop_with((int)me + id + kind, me); }
    sim::point();
  }
  void run(bool inner) {
    { sim::Quiet q; fill(a, addr[0], len, 100); fill(l, addr[1], len, 200); fill(d, addr[2], len, 300); fill(b, addr[3], len, 400); }
    bool threw = false; long caught = -1; int caught_kind = 0;
    std::tuple<E, E, E, E, E> ta, tb, tc; std::tuple<E> t1; std::tuple<E, Big, E, Big, Big, E, E, Big, E> t9; std::array<E, 11> ar;
    auto tup = [&](auto &t, int r) { sim::Quiet q; addr[r] = {&std::get<0>(t), &std::get<1>(t), &std::get<2>(t), &std::get<3>(t), &std::get<4>(t)}; };
    try {
      switch (kind) {
        case T1: { auto f = [&](E &x) { see(0, x); x.hits++; done(); }; u::simple_task(f, a); break; }
        case T2: { nr = 2; auto f = [&](E &x, E &y) { see(0, x); see(1, y); x.hits++; y.hits++; done(); }; u::simple_task(f, a, l); break; }
        case T3: { nr = 3; auto f = [&](E &x, E &y, E &z) { see(0, x); see(1, y); see(2, z); x.hits++; y.hits++; z.hits++; done(); }; u::simple_task(f, a, l, d); break; }
        case T4: { nr = 4; auto f = [&](E &x, E &y, E &z, auto &w) { see(0, x); see(1, y); see(2, z); see(3, w); x.hits++; y.hits++; z.hits++; w.hits++; done(); }; u::simple_task(f, a, l, d, b); break; }
        case Z2: { nr = 2; for (auto t : u::zip(a, l)) { see(0, std::get<0>(t)); see(1, std::get<1>(t)); std::get<0>(t).hits++; std::get<1>(t).hits++; done(); } break; }
        case Z3: { nr = 3; for (auto t : u::zip(a, l, d)) { see(0, std::get<0>(t)); see(1, std::get<1>(t)); see(2, std::get<2>(t)); std::get<0>(t).hits++; std::get<1>(t).hits++; std::get<2>(t).hits++; done(); } break; }
        case ZIT: { nr = 2; auto z = u::zip(a, l); auto e = z.end(); auto i = z.begin(), first = z.begin(); if (!(i == first)) sim::fail("iterators", "a zip iterator differs from its copy"); while (i != e) { auto old = i++; if (len > 0 && old == i) sim::fail("iterators", "post-increment did not move the iterator"); auto t = *old; see(0, std::get<0>(t)); see(1, std::get<1>(t)); std::get<0>(t).hits++; std::get<1>(t).hits++; done(); } auto j = z.begin(); if (len > 0 && !(j == first)) sim::fail("iterators", "begin() of a zipped range moved"); break; }
        case FOREACH: if (len % 3 == 1) { len = 1; std::get<0>(t1).v = 1; { sim::Quiet q; addr[0] = {&std::get<0>(t1)}; } u::tuple_for_each(t1, [&](E &x) { see(0, x); x.hits++; done(); }); break; } else if (len % 3 == 2) { len = 9; { sim::Quiet q; addr[0].clear(); std::apply([&](auto &...x) { (addr[0].push_back((const void *)(const E *)&x), ...); }, t9); } u::tuple_for_each(t9, [&](auto &x) { see(0, x); x.hits++; done(); }); break; } else { len = 5; tup(ta, 0); u::tuple_for_each(ta, [&](E &x) { see(0, x); x.hits++; done(); }); break; }
        case SFOR: { long n = len % 4 == 0 ? 7 : len % 4 == 1 ? 1 : len % 4 == 2 ? 33 : 2; len = n; { sim::Quiet q; a.clear(); addr[0].clear(); fill(a, addr[0], n, 100); } auto f = [&](auto i) { see(0, a[(size_t)i]); a[(size_t)i].hits++; done(); }; if (n == 7) u::static_for<7>(f); else if (n == 1) u::static_for<1>(f); else if (n == 33) u::static_for<33>(f); else u::static_for<2>(f); break; }
        case VISIT1: { len = 5; tup(ta, 0); u::tuple_visit([&](E &x) { see(0, x); x.hits++; done(); }, ta); break; }
        case VISIT2: { len = 5; nr = 2; tup(ta, 0); tup(tb, 1); u::tuple_visit([&](E &x, E &y) { see(0, x); see(1, y); x.hits++; y.hits++; done(); }, ta, tb); break; }
        case VISIT3: { len = 5; nr = 3; tup(ta, 0); tup(tb, 1); tup(tc, 2); u::tuple_visit([&](E &x, E &y, E &z) { see(0, x); see(1, y); see(2, z); x.hits++; y.hits++; z.hits++; done(); }, ta, tb, tc); break; }
        case TIE: { len = 5; nr = 2; tup(ta, 0); tup(tb, 1); auto t = u::tuple_tie(ta, tb); u::tuple_for_each(t, [&](auto &pr) { see(0, std::get<0>(pr)); see(1, std::get<1>(pr)); std::get<0>(pr).hits++; std::get<1>(pr).hits++; done(); }); break; }
        case ZTWICE: {   // two iterators over the same zip object, moved in turn: each sees every element
          nr = 2; auto z = u::zip(a, l); auto i = z.begin(), j = z.begin(); auto e = z.end(); long k = 0;
          while (i != e) { auto t = *i; see(0, std::get<0>(t)); see(1, std::get<1>(t)); std::get<0>(t).hits++; std::get<1>(t).hits++; done(); ++i; if (k % 3 != 1) { if (&std::get<0>(*j) != addr[0][walk] || &std::get<1>(*j) != addr[1][walk]) sim::fail("not-the-element", "%s: the second iterator is not at element %ld", name, walk); ++j; walk++; } k++; }
          while (j != e) { if (walk >= len) sim::fail("visited-too-often", "%s: the second iterator runs past the end", name); if (&std::get<0>(*j) != addr[0][walk]) sim::fail("not-the-element", "%s: the second iterator is not at element %ld", name, walk); ++j; walk++; }
          if (walk != len) sim::fail("elements-skipped", "%s: the second iterator saw %ld of %ld elements", name, walk, len); break; }
        case ZPAIR: {    // for every element a complete inner loop over the same zip object
          nr = 3; auto z = u::zip(a, l, d); for (auto t : z) { see(0, std::get<0>(t)); see(1, std::get<1>(t)); see(2, std::get<2>(t)); std::get<0>(t).hits++; std::get<1>(t).hits++; std::get<2>(t).hits++; if (len <= 40) { long k = 0; for (auto x : z) { if (k >= len || &std::get<2>(x) != addr[2][k]) sim::fail("not-the-element", "%s: inner call %ld", name, k); k++; } if (k != len) sim::fail("elements-skipped", "%s: the inner loop made %ld of %ld calls", name, k, len); } done(); } break; }
        case ARR: { len = 11; nr = 2; { sim::Quiet q; a.clear(); addr[0].clear(); fill(a, addr[0], 11, 100); addr[1].clear(); for (auto &x : ar) addr[1].push_back(&x); } auto z = u::zip(a, ar); auto z2 = z; if (id % 2) { for (auto t : z2) { see(0, std::get<0>(t)); see(1, std::get<1>(t)); std::get<0>(t).hits++; std::get<1>(t).hits++; done(); } } else { auto f = [&](E &x, E &y) { see(0, x); see(1, y); x.hits++; y.hits++; done(); }; u::simple_task(f, a, ar); } break; }
      }
    } catch (Stop &s) { threw = true; caught = s.at; caught_kind = s.kind; if (stop < 0) { /* thrown by a loop nested in the last callback */ stop = seen - 1; if (!inner) {} } }
    sim::Quiet q;
    if (!threw && stop >= 0) sim::fail("exception-lost", "%s swallowed the exception of callback %ld", name, stop);
    long want = threw ? stop + 1 : len;
    if (seen != want) sim::fail(seen < want ? "elements-skipped" : "visited-too-often", "%s made %ld calls; expected %ld", name, seen, want);
    auto chk = [&](int r, auto &range) { long i = 0; for (auto &e : range) { long h = i < want ? 1 : 0; if (e.hits != h) sim::fail("element-hits", "%s: element %ld of range %d was processed %ld times; expected %ld", name, i, r, e.hits, h); i++; } if (i != len) sim::fail("element-hits", "%s changed the length of a range", name); };
    if (kind < FOREACH || kind == SFOR || kind > TIE) { chk(0, a); if (nr > 1) { if (kind == ARR) chk(1, ar); else chk(1, l); } if (nr > 2) chk(2, d); if (nr > 3) chk(3, b); }
    else for (int r = 0; r < nr; r++) for (long i = 0; i < len; i++) { const E *e = (const E *)addr[r][i]; if (e->hits != (i < want)) sim::fail("element-hits", "%s: element %ld of tuple %d was processed %ld times", name, i, r, e->hits); }
    sim::count((std::string("kind.") + name).c_str()); if (threw) sim::count("probe.loop_left_by_exception"); if (inner) sim::count("probe.nested_loop");
    sim::mix(kind * 1000 + seen * 10 + threw); sim::state(kind * 100 + seen); c.interesting = true;
    if (threw && inner) { stop_with(caught_kind, caught); }
  }
};
struct Loops : sim::Harness {
  void generate(Rng &r, Program &p) override {
    int nt = r.range(1, 3); p.hdr = {nt, r.coin(0.5) ? 0 : r.range(10, 200)}; int focus = r.coin(0.6) ? r.below(NL) : -1;
    for (int t = 0; t < nt; t++) for (int i = r.range(1, 3); i > 0; i--) p.add(t, {focus >= 0 && r.coin(0.8) ? focus : r.below(NL), r.range(0, r.coin(0.2) ? 14 : r.coin(0.04) ? 300 : r.coin(0.008) ? 3000 : 6), r.coin(0.5) ? 0 : r.range(1, 2)});
  }
  std::string describe(const Program &p) override { std::string s = "callbacks throw " + std::to_string(p.hdr[1]) + " per 1000"; for (auto &o : p.ops) s += "\n  thread " + std::to_string(o.thr) + " #" + std::to_string(o.id) + " " + LN[o.a[0] % NL] + " length " + std::to_string(o.a[1]) + " nesting " + std::to_string(o.a[2]); return s; }
  void run(const Program &p) override {
    Ctx c; c.p = p.hdr[1] / 1000.0;
    sim::run_threads(p.hdr[0], [&](int t) { for (auto &o : p.ops) if (o.thr == t) { sim::begin_op(o.id); { Loop l(c, o.a[0] % NL, o.a[0] % NL == ZPAIR && o.a[1] > 300 ? o.a[1] % 300 : o.a[1], o.a[2], o.id); try { l.run(false); } catch (Stop &) { sim::Quiet q; sim::fail("stray-exception", "an exception left its loop"); } } sim::end_op(); sim::advance_time(1000); } });
    if (c.interesting) sim::nontrivial();
  }
};
sim::Harness *loops_harness() { return new Loops; }
