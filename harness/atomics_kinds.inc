// Included by each atomics_k_*.cc (compiled with memory-access instrumentation).
#include <iostream>
#include "atomics/src/atomics.h"
#include "atomics_kinds.h"
#include <sstream>
#include <type_traits>
namespace ra = ristra::atomics;

// ---- user-defined element types ----
template <int N> struct Tup {
  int e[N];
  Tup() = default;
  Tup(int v) { for (int i = 0; i < N; i++) e[i] = v + i; }
#define TUPOP(o) template <class X> Tup &operator o(const X &x) { for (int i = 0; i < N; i++) e[i] o get(x, i); return *this; }
  static int get(const Tup &t, int i) { return t.e[i]; }
  static int get(int x, int) { return x; }
  static int get(double x, int) { return (int)x; }
  TUPOP(+=) TUPOP(-=) TUPOP(*=) TUPOP(/=) TUPOP(%=) TUPOP(<<=) TUPOP(>>=) TUPOP(&=) TUPOP(|=) TUPOP(^=)
  Tup &operator++() { for (int i = 0; i < N; i++) e[i] += 1; return *this; }
  Tup operator++(int) { Tup o = *this; ++*this; return o; }
  Tup &operator--() { for (int i = 0; i < N; i++) e[i] -= 1; return *this; }
  Tup operator--(int) { Tup o = *this; --*this; return o; }
  friend bool operator<(const Tup &a, const Tup &b) { return a.e[0] < b.e[0]; }
};
typedef Tup<2> Duo; typedef Tup<3> Trio;
template <class T> struct is_tup : std::false_type {};
template <int N> struct is_tup<Tup<N>> : std::true_type {};
inline int g_parr[8192];

template <class T> Val to_val(const T &t) { Val v; memset(&v, 0, sizeof v); memcpy(v.b, &t, std::is_same<T, long double>::value ? 10 : sizeof(T)); return v; }
template <class T> T from_val(const Val &v) { T t; memset((void *)&t, 0, sizeof t); memcpy((void *)&t, v.b, std::is_same<T, long double>::value ? 10 : sizeof(T)); return t; }
template <class T> T make(long v) {
  if constexpr (std::is_pointer<T>::value) return g_parr + 4096 + v;
  else if constexpr (is_tup<T>::value) return T((int)v);
  else return (T)v;
}
template <class T> std::string show_val(const Val &v) {
  T t = from_val<T>(v); std::ostringstream o;
  if constexpr (std::is_pointer<T>::value) o << "base" << std::showpos << (t - (g_parr + 4096));
  else if constexpr (is_tup<T>::value) { o << "("; for (int x : t.e) o << x << " "; o << ")"; }
  else if constexpr (sizeof(T) == 1) o << (int)t; else o << t;
  return o.str();
}
template <class T> constexpr bool arith() { return std::is_arithmetic<T>::value || is_tup<T>::value; }
template <class T> constexpr bool bits() { return std::is_integral<T>::value || is_tup<T>::value; }
template <class T> constexpr bool supports(int op) {
  switch (op) {
    case O_MUL: case O_DIV: return arith<T>();
    case O_MOD: case O_LSH: case O_RSH: case O_AND: case O_OR: case O_XOR: return bits<T>();
    default: return true;
  }
}
template <class T> constexpr bool cpp_ok(int op) {
  if (!(std::is_integral<T>::value || std::is_pointer<T>::value)) return false;
  switch (op) {
    case O_ADD: case O_SUB: case O_INC: case O_PREINC: case O_POSTINC: case O_DEC: case O_PREDEC: case O_POSTDEC: case O_LOAD: case O_STORE: case O_EXCH: return true;
    case O_AND: case O_OR: case O_XOR: return std::is_integral<T>::value;
    default: return false;
  }
}
constexpr bool unary(int op) { return op >= O_INC && op <= O_POSTDEC; }
template <class S> struct schid { static const int v = SCH_OWN; };
template <> struct schid<ra::strong> { static const int v = SCH_STRONG; };
template <> struct schid<ra::weak> { static const int v = SCH_WEAK; };
template <> struct schid<ra::strong::pun> { static const int v = SCH_SPUN; };
template <> struct schid<ra::weak::pun> { static const int v = SCH_WPUN; };
template <> struct schid<ra::cpp> { static const int v = SCH_CPP; };
template <class S> constexpr bool is_cas_v = std::is_same<S, ra::strong>::value || std::is_same<S, ra::weak>::value || std::is_same<S, ra::strong::pun>::value || std::is_same<S, ra::weak::pun>::value;
template <class S> constexpr bool is_pun_v = std::is_same<S, ra::strong::pun>::value || std::is_same<S, ra::weak::pun>::value;
template <class T> constexpr bool punnable = sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8;

static const std::memory_order MO[6] = {std::memory_order_relaxed, std::memory_order_consume, std::memory_order_acquire, std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst};
static const std::memory_order FMO[6] = {std::memory_order_relaxed, std::memory_order_consume, std::memory_order_acquire, std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_seq_cst};

// operand conversion used for T = pointer (offsets) and others
template <class T> using offs_t = typename std::conditional<std::is_pointer<T>::value, long, T>::type;

// ---- one call, all argument shapes ----
// E = effective scheme, S = override template argument (char: none)
#define BIN_BODY(fun, optok) \
  if (o.form == 0) { \
    if (o.okind == 0) { if constexpr (std::is_same<S, char>::value) return ra::fun(a, x); else return ra::fun<S>(a, x); } \
    if constexpr (CASE || CPPE) if (o.okind == 1) { if constexpr (std::is_same<S, char>::value) return ra::fun(a, x, MO[o.so]); else return ra::fun<S>(a, x, MO[o.so]); } \
    if constexpr (CASE) if (o.okind == 2) { if constexpr (std::is_same<S, char>::value) return ra::fun(a, x, MO[o.so], FMO[o.fo]); else return ra::fun<S>(a, x, MO[o.so], FMO[o.fo]); } \
  } else { \
    if (o.okind == 0) { if constexpr (std::is_same<S, char>::value) return a.fun(x); else return a.template fun<S>(x); } \
    if constexpr (CASE || CPPE) if (o.okind == 1) { if constexpr (std::is_same<S, char>::value) return a.fun(x, MO[o.so]); else return a.template fun<S>(x, MO[o.so]); } \
    if constexpr (CASE) if (o.okind == 2) { if constexpr (std::is_same<S, char>::value) return a.fun(x, MO[o.so], FMO[o.fo]); else return a.template fun<S>(x, MO[o.so], FMO[o.fo]); } \
  } __builtin_abort();
#define UN_BODY(fun) \
  if (o.form == 0) { \
    if (o.okind == 0) { if constexpr (std::is_same<S, char>::value) return ra::fun(a); else return ra::fun<S>(a); } \
    if constexpr (CASE) if (o.okind == 1) { if constexpr (std::is_same<S, char>::value) return ra::fun(a, MO[o.so]); else return ra::fun<S>(a, MO[o.so]); } \
    if constexpr (CASE) if (o.okind == 2) { if constexpr (std::is_same<S, char>::value) return ra::fun(a, MO[o.so], FMO[o.fo]); else return ra::fun<S>(a, MO[o.so], FMO[o.fo]); } \
  } else { \
    if (o.okind == 0) { if constexpr (std::is_same<S, char>::value) return a.fun(); else return a.template fun<S>(); } \
    if constexpr (CASE) if (o.okind == 1) { if constexpr (std::is_same<S, char>::value) return a.fun(MO[o.so]); else return a.template fun<S>(MO[o.so]); } \
    if constexpr (CASE) if (o.okind == 2) { if constexpr (std::is_same<S, char>::value) return a.fun(MO[o.so], FMO[o.fo]); else return a.template fun<S>(MO[o.so], FMO[o.fo]); } \
  } __builtin_abort();

template <class T, class E, class S, class A, class X> T call_bin(A &a, X x, const AOp &o) {
  constexpr bool CASE = is_cas_v<E>, CPPE = std::is_same<E, ra::cpp>::value;
  if constexpr (std::is_same<S, char>::value) if (o.form == 2) {
    switch (o.op) {
      case O_ADD: return a += x;
      case O_SUB: return a -= x;
      case O_MUL: if constexpr (supports<T>(O_MUL) && !CPPE) return a *= x; break;
      case O_DIV: if constexpr (supports<T>(O_DIV) && !CPPE) return a /= x; break;
      case O_MOD: if constexpr (supports<T>(O_MOD) && !CPPE && !std::is_floating_point<X>::value) return a %= x; break;
      case O_LSH: if constexpr (supports<T>(O_LSH) && !CPPE && !std::is_floating_point<X>::value) return a <<= x; break;
      case O_RSH: if constexpr (supports<T>(O_RSH) && !CPPE && !std::is_floating_point<X>::value) return a >>= x; break;
      case O_AND: if constexpr (supports<T>(O_AND) && !std::is_floating_point<X>::value && (!CPPE || cpp_ok<T>(O_AND))) return a &= x; break;
      case O_OR: if constexpr (supports<T>(O_OR) && !std::is_floating_point<X>::value && (!CPPE || cpp_ok<T>(O_AND))) return a |= x; break;
      case O_XOR: if constexpr (supports<T>(O_XOR) && !std::is_floating_point<X>::value && (!CPPE || cpp_ok<T>(O_AND))) return a ^= x; break;
    }
    __builtin_abort();
  }
  switch (o.op) {
    case O_ADD: { BIN_BODY(add, +=) }
    case O_SUB: { BIN_BODY(sub, -=) }
    case O_MUL: if constexpr (supports<T>(O_MUL) && !CPPE) { BIN_BODY(mul, *=) } break;
    case O_DIV: if constexpr (supports<T>(O_DIV) && !CPPE) { BIN_BODY(div, /=) } break;
    case O_MOD: if constexpr (supports<T>(O_MOD) && !CPPE && !std::is_floating_point<X>::value) { BIN_BODY(mod, %=) } break;
    case O_LSH: if constexpr (supports<T>(O_LSH) && !CPPE && !std::is_floating_point<X>::value) { BIN_BODY(lshift, <<=) } break;
    case O_RSH: if constexpr (supports<T>(O_RSH) && !CPPE && !std::is_floating_point<X>::value) { BIN_BODY(rshift, >>=) } break;
    case O_AND: if constexpr (supports<T>(O_AND) && !std::is_floating_point<X>::value && (!CPPE || cpp_ok<T>(O_AND))) { BIN_BODY(andeq, &=) } break;
    case O_OR: if constexpr (supports<T>(O_OR) && !std::is_floating_point<X>::value && (!CPPE || cpp_ok<T>(O_AND))) { BIN_BODY(oreq, |=) } break;
    case O_XOR: if constexpr (supports<T>(O_XOR) && !std::is_floating_point<X>::value && (!CPPE || cpp_ok<T>(O_AND))) { BIN_BODY(xoreq, ^=) } break;
  }
  __builtin_abort();
}
template <class T, class E, class S, class A, class X> T call_minmax(A &a, X x, const AOp &o) {
  constexpr bool CASE = is_cas_v<E>, CPPE = std::is_same<E, ra::cpp>::value;
  if constexpr (!CPPE) {
    if (o.op == O_MIN) { BIN_BODY(min, +=) } else { BIN_BODY(max, +=) }
  }
  __builtin_abort();
}
template <class T, class E, class S, class A> T call_un(A &a, const AOp &o) {
  constexpr bool CASE = is_cas_v<E>;
  if constexpr (std::is_same<S, char>::value) if (o.form == 2) {
    switch (o.op) {
      case O_INC: case O_PREINC: return ++a;
      case O_POSTINC: return a++;
      case O_DEC: case O_PREDEC: return --a;
      case O_POSTDEC: return a--;
    }
    __builtin_abort();
  }
  switch (o.op) {
    case O_INC: { UN_BODY(inc) }
    case O_PREINC: { UN_BODY(preinc) }
    case O_POSTINC: { UN_BODY(postinc) }
    case O_DEC: { UN_BODY(dec) }
    case O_PREDEC: { UN_BODY(predec) }
    case O_POSTDEC: { UN_BODY(postdec) }
  }
  __builtin_abort();
}
template <class T, class E, class S, bool FULL, class A> T call_s(A &a, const AOp &o) {
  if (unary(o.op)) return call_un<T, E, S>(a, o);
  if (o.op == O_MIN || o.op == O_MAX) {
    if constexpr (FULL && std::is_same<S, char>::value && !std::is_pointer<T>::value) if (o.xk == 1) return call_minmax<T, E, S>(a, (int)o.arg, o);
    return call_minmax<T, E, S>(a, make<T>(o.arg), o);
  }
  if constexpr (FULL && std::is_same<S, char>::value && !std::is_pointer<T>::value) {
    if (o.xk == 1) return call_bin<T, E, S>(a, (int)o.arg, o);
    if constexpr (is_cas_v<E>) if (o.xk == 2 && o.op <= O_DIV) return call_bin<T, E, S>(a, (double)o.arg, o);
  }
  return call_bin<T, E, S>(a, make<offs_t<T>>(o.arg), o);
}
template <class T, class SC, std::size_t NM, bool FULL> struct KindImpl {
  typedef ra::atomic<T, SC, NM> A;
  static void construct(void *m, long init) { new (m) A(make<T>(init)); }
  static Val peek(const void *c) { return to_val<T>(T(*(const A *)c)); }
  static void normalise(AOp &o) {
    auto mod = [](long v, long n) { long r = v % n; return (int)(r < 0 ? r + n : r); };
    o.op = mod(o.op, O_NOPS); o.form = mod(o.form, 3); o.vol = mod(o.vol, 2); o.okind = mod(o.okind, 3); o.so = mod(o.so, 6); o.fo = mod(o.fo, 6); o.sch = mod(o.sch, SCH_N); o.xk = mod(o.xk, 3);
    if (!supports<T>(o.op)) o.op = O_ADD;
    if (is_cas_v<SC>) { if (o.sch == SCH_CPP && !(cpp_ok<T>(o.op) && FULL)) o.sch = SCH_OWN; }
    else if (std::is_same<SC, ra::cpp>::value) { if (o.sch == SCH_CPP) o.sch = SCH_OWN; if (!cpp_ok<T>(o.op) && o.sch == SCH_OWN) { if (FULL) o.sch = SCH_STRONG; else o.op = O_ADD; } }
    else { o.sch = SCH_OWN; if (o.op >= O_LOAD) o.op = O_ADD; }   // lock: every access through the lock
    if (!punnable<T> && (o.sch == SCH_SPUN || o.sch == SCH_WPUN)) o.sch = SCH_STRONG;
    if (!FULL && o.sch != SCH_OWN) o.sch = SCH_OWN;
    if (o.sch != SCH_OWN && o.form == 2) o.form = 1;
    if (!FULL && o.vol && o.form != 1) o.vol = 0;
    bool cas = o.sch == SCH_OWN ? is_cas_v<SC> : o.sch != SCH_CPP;
    bool cpp = o.sch == SCH_CPP || (o.sch == SCH_OWN && std::is_same<SC, ra::cpp>::value);
    if (o.form == 2) { o.okind = 0; if (o.op == O_MIN || o.op == O_MAX) o.form = 1; }
    if (cpp) { if (o.okind == 2) o.okind = 1; if (unary(o.op)) o.okind = 0; }
    if (!cas && !cpp) o.okind = 0;
    if (cpp) o.xk = 0;
    if (!FULL || o.sch != SCH_OWN || std::is_pointer<T>::value || is_tup<T>::value) o.xk = 0;
    if (o.xk == 2 && (!is_cas_v<SC> || o.op > O_DIV)) o.xk = 0;
    if (o.vol && is_tup<T>::value && false) o.vol = 0;
    long v = o.arg; if (v < 0) v = -v;
    switch (o.op) {
      case O_DIV: o.arg = 1 + v % 5; break;
      case O_MOD: o.arg = 2 + v % 30; break;
      case O_LSH: case O_RSH: o.arg = v % 3; break;
      case O_MUL: o.arg = 1 + v % 3; break;
      case O_AND: case O_OR: case O_XOR: o.arg = v % 128; break;
      case O_ADD: case O_SUB: o.arg = v % 40; break;
      default: o.arg = o.arg % 100;
    }
    if (is_tup<T>::value && (o.op == O_LSH || o.op == O_RSH)) o.arg = 0 + o.arg % 2;
  }
  template <class AA> static T call_a(AA &a, const AOp &o) {
    switch (o.op) {
      case O_LOAD: return T(a);
      case O_STORE: return a = make<T>(o.arg);
      case O_EXCH: return a.base().exchange(make<T>(o.arg));
    }
    switch (o.sch) {
      case SCH_OWN: return call_s<T, SC, char, FULL>(a, o);
      case SCH_STRONG: if constexpr (FULL && !std::is_same<SC, ra::lock>::value) return call_s<T, ra::strong, ra::strong, FULL>(a, o); break;
      case SCH_WEAK: if constexpr (FULL && !std::is_same<SC, ra::lock>::value) return call_s<T, ra::weak, ra::weak, FULL>(a, o); break;
      case SCH_SPUN: if constexpr (FULL && !std::is_same<SC, ra::lock>::value && punnable<T>) return call_s<T, ra::strong::pun, ra::strong::pun, FULL>(a, o); break;
      case SCH_WPUN: if constexpr (FULL && !std::is_same<SC, ra::lock>::value && punnable<T>) return call_s<T, ra::weak::pun, ra::weak::pun, FULL>(a, o); break;
      case SCH_CPP: if constexpr (FULL && !std::is_same<SC, ra::lock>::value && cpp_ok<T>(O_ADD)) return call_s<T, ra::cpp, ra::cpp, FULL>(a, o); break;
    }
    __builtin_abort();
  }
  static Val call(void *c, const AOp &o) {
    A &a = *(A *)c;
    if constexpr (std::is_same<SC, ra::lock>::value && is_tup<T>::value) return to_val<T>(call_a(a, o));
    else {
      if (o.vol) { volatile A &va = a; return to_val<T>(call_a(va, o)); }
      return to_val<T>(call_a(a, o));
    }
  }
  // ---- reference model (not instrumented semantics: plain C++ on a local value) ----
  template <class X> static void m_bin(T &v, X x, int op) {
    if constexpr (is_tup<T>::value) {
      for (int i = 0; i < (int)(sizeof(v.e) / sizeof(int)); i++) {
        int y; if constexpr (is_tup<X>::value) y = x.e[i]; else y = (int)x;
        int &e = v.e[i];
        switch (op) { case O_ADD: e = e + y; break; case O_SUB: e = e - y; break; case O_MUL: e = e * y; break; case O_DIV: e = e / y; break; case O_MOD: e = e % y; break;
          case O_LSH: e = e << y; break; case O_RSH: e = e >> y; break; case O_AND: e = e & y; break; case O_OR: e = e | y; break; case O_XOR: e = e ^ y; break; }
      }
    } else {
      switch (op) {
        case O_ADD: v = (T)(v + x); break;
        case O_SUB: v = (T)(v - x); break;
        case O_MUL: if constexpr (arith<T>()) v = (T)(v * x); break;
        case O_DIV: if constexpr (arith<T>()) v = (T)(v / x); break;
        default:
          if constexpr (bits<T>() && !std::is_floating_point<X>::value) switch (op) {
            case O_MOD: v = (T)(v % x); break; case O_LSH: v = (T)(v << x); break; case O_RSH: v = (T)(v >> x); break;
            case O_AND: v = (T)(v & x); break; case O_OR: v = (T)(v | x); break; case O_XOR: v = (T)(v ^ x); break;
          }
      }
    }
  }
  static void model(Val &st, const AOp &o, Val &ret) {
    T v = from_val<T>(st), r = v;
    switch (o.op) {
      case O_LOAD: break;
      case O_STORE: v = make<T>(o.arg); r = v; break;
      case O_EXCH: r = v; v = make<T>(o.arg); break;
      case O_INC: case O_PREINC: ++v; r = v; break;
      case O_DEC: case O_PREDEC: --v; r = v; break;
      case O_POSTINC: r = v; ++v; break;
      case O_POSTDEC: r = v; --v; break;
      case O_MIN: { T x = make<T>(o.arg); if (x < v) v = x; r = v; break; }
      case O_MAX: { T x = make<T>(o.arg); if (v < x) v = x; r = v; break; }
      default:
        if constexpr (!std::is_pointer<T>::value && !is_tup<T>::value) {
          if (o.xk == 1) { m_bin(v, (int)o.arg, o.op); r = v; break; }
          if (o.xk == 2) { m_bin(v, (double)o.arg, o.op); r = v; break; }
        }
        m_bin(v, make<offs_t<T>>(o.arg), o.op); r = v;
    }
    st = to_val<T>(v); ret = to_val<T>(r);
  }
};
template <class T, class SC, std::size_t NM, bool FULL> CellKind mk(const std::string &n) {
  typedef KindImpl<T, SC, NM, FULL> K; CellKind k; k.name = n; k.size = sizeof(typename K::A); k.align = alignof(typename K::A);
  k.is_cas = is_cas_v<SC>; k.is_cpp = std::is_same<SC, ra::cpp>::value; k.is_lock = std::is_same<SC, ra::lock>::value; k.pun = is_pun_v<SC>; k.nmux = (int)NM; k.full = FULL;
  k.construct = K::construct; k.normalise = K::normalise; k.call = K::call; k.model = K::model; k.peek = K::peek; k.show = show_val<T>;
  return k;
}
#define KIND(T, SC, NM, FULL) static RegisterKind CAT(reg_, __COUNTER__)(mk<T, ra::SC, NM, FULL>("atomic<" #T "," #SC "," #NM ">"));
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
