// Type-erased access to every calling form of ristra::atomics, plus an independent
// sequential reference model of each operation.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

struct Val { unsigned char b[16]; bool operator==(const Val &o) const { return !memcmp(b, o.b, 16); } bool operator!=(const Val &o) const { return !(*this == o); } bool operator<(const Val &o) const { return memcmp(b, o.b, 16) < 0; } };

enum AOpc { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_LSH, O_RSH, O_AND, O_OR, O_XOR, O_MIN, O_MAX,
            O_INC, O_PREINC, O_POSTINC, O_DEC, O_PREDEC, O_POSTDEC, O_LOAD, O_STORE, O_EXCH, O_NOPS };
extern const char *const AOP_NAME[O_NOPS];
enum { SCH_OWN, SCH_STRONG, SCH_WEAK, SCH_SPUN, SCH_WPUN, SCH_CPP, SCH_N };
extern const char *const SCH_NAME[SCH_N];

struct AOp {      // decoded call
  int op;         // AOpc
  long arg;       // operand, interpreted per op
  int form;       // 0 free function, 1 member, 2 operator
  int vol;        // through a volatile reference
  int okind;      // 0 no order, 1 sync, 2 success+failure
  int so, fo;     // memory orders
  int sch;        // scheme override
  int xk;         // operand type: 0 T, 1 int, 2 double
};
struct CellKind {
  std::string name;
  int size, align;
  bool is_cas, is_cpp, is_lock, pun;
  int nmux;
  bool full;                                       // all forms instantiated
  void (*construct)(void *mem, long init);
  void (*normalise)(AOp &);                        // maps any AOp to a supported one
  Val (*call)(void *cell, const AOp &);            // the code under test
  void (*model)(Val &state, const AOp &, Val &ret);
  Val (*peek)(const void *cell);                   // final value, no concurrency
  std::string (*show)(const Val &);
};
std::vector<CellKind> &kinds();
struct RegisterKind { RegisterKind(const CellKind &k) { kinds().push_back(k); } };
