// Deterministic simulator core: one process, one running thread at a time, every
// scheduling decision and every fault is a recorded choice drawn from one seed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---- deterministic PRNG (splitmix64) --------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  long below(long n) { return n <= 1 ? 0 : (long)(next() % (uint64_t)n); }
  long range(long a, long b) { return a + below(b - a + 1); }  // inclusive
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool coin(double p) { return unit() < p; }
};

// ---- programs --------------------------------------------------------------
struct Op {
  int id = 0;   // stable across minimisation
  int thr = 0;  // simulated caller thread
  std::vector<long> a;
};
struct Program {
  std::vector<long> hdr;
  std::vector<Op> ops;
  void add(int thr, std::vector<long> a) {
    Op o; o.id = (int)ops.size(); o.thr = thr; o.a = std::move(a); ops.push_back(std::move(o));
  }
};

// ---- choices ---------------------------------------------------------------
// Every decision that differs from the default (0: keep running, no fault) is
// recorded under (thread, op, kind, n-th decision of that kind in the op).
enum Kind : int {
  K_SCHED = 0,   // preempt the running thread: 1+target
  K_NEXT = 1,    // who runs when the current thread blocks/ends: 1+target
  K_SPUR = 2,    // weak compare-and-swap fails spuriously
  K_STALE = 3,   // atomic load returns an older store the memory model allows
  K_STALL = 4,   // thread is suspended at this point
  K_ALLOC = 5,   // allocation fails
  K_F0 = 8       // first harness-defined kind; harness kinds are 8..63
};
const int NKINDS = 64;
struct Choice { int tid, op, kind, seq, val; };

// Returns 0 (default) or 1..n-1; p = probability of a non-default value when searching.
int choose(int kind, int n, double p);
inline bool fault(int kind, double p) { return choose(kind, 2, p) != 0; }

// ---- reporting -------------------------------------------------------------
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const char *name, long n = 1);   // probe / fault counters for evidence
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // human trace of this run
void nontrivial();                          // marks the run non-trivial
void mix(uint64_t v);                       // adds to the run's event hash
void state(uint64_t h);                     // a distinct-state measure (hash of an abstract state)
void advance_time(long ns);                 // simulated time bookkeeping
bool verbose();

// ---- execution -------------------------------------------------------------
// Runs f(0..n-1) as simulated threads; returns when all are done.
void run_threads(int n, const std::function<void(int)> &f);
void begin_op(int id);   // from here the calling thread is inside the code under test
void end_op();
struct InOp { InOp(int id) { begin_op(id); } ~InOp() { end_op(); } };
uint64_t tick();         // global event sequence number
int self();              // simulated thread id, -1 outside
void point();            // explicit scheduling point (harness or callback code)
struct Quiet { bool saved; Quiet(); ~Quiet(); };   // no scheduling/faults while alive
void set_step_cap(long);
void set_weak_memory(bool);
void set_stall(double p, bool forever);   // thread-suspension faults
void set_stall_mask(unsigned m);          // which threads may be suspended
void set_spurious(double p, int max_burst_log2 = 2);   // bursts of up to 2^(max-1) failures
void set_starve(int victim);   // from now on others complete operations before each compare-and-swap of this thread
void set_alloc_fail(double p);
long alloc_faults();                      // injected so far in this run
void set_spin_limit(long n);
void set_horizon(long n);                 // expected steps per run (preemption points are spread over up to that many)
// Runs f in a copy of this process (no threads, no faults) and returns its result.
std::string alone(const std::function<std::string()> &f);
void set_sched(bool func_points);         // function entry/exit are scheduling points
long op_steps();                          // own steps of the calling thread in the current op
bool any_stalled();
void scrub_stack();

// happens-before queries on harness data (weak memory mode)
void data_write(int id);
bool data_written(int id);
bool data_read_ok(int id);  // false: the last write does not happen before this read

// ---- harness interface -----------------------------------------------------
struct Harness {
  virtual ~Harness() {}
  virtual void init() {}                                   // once in the zygote
  virtual void generate(Rng &r, Program &p) = 0;           // program + per-run knobs
  virtual void run(const Program &p) = 0;                  // executes, calls fail()
  virtual std::string describe(const Program &p) = 0;      // for samples / replay files
  virtual void simplify(Program &, std::vector<Program> &) {}  // smaller variants for minimisation
};
}  // namespace sim
// Provided by each harness binary:
sim::Harness *sim_harness(const std::string &property);
