#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <new>
#include <set>
#include <unordered_map>

namespace sim {
// ============================================================================
// shared result area (survives a crash of the simulated process)
// ============================================================================
enum { MAXCH = 60000, MAXCTR = 96 };
struct Ctr { char name[56]; long n; };
struct Shared {
  int status;  // 0 running, 1 ok, 2 violation
  char cls[96];
  char msg[6000];
  uint64_t hash, st_hash;
  long steps, switches, simtime;
  int nontriv;
  int nch, overflow;
  int nstates;
  Choice ch[MAXCH];
  Ctr ctr[MAXCTR];
  uint64_t states[512];
  char trace[60000];
  int ntrace;
};
static Shared *S;
static bool g_verbose = false;

// ============================================================================
// per-run state
// ============================================================================
const int MAXT = 12;
struct VC { uint32_t c[MAXT]; };
const int MAXLOC = 64;
struct View { uint16_t v[MAXLOC]; };
enum TState { T_RUN, T_BLOCK, T_STALL, T_DONE };
struct Thr {
  pthread_t th;
  int id = -1;
  volatile int go = 0;
  TState st = T_RUN;
  bool in_op = false, in_rt = false;
  int op = -1;
  int seq[NKINDS];
  long opsteps = 0, run_len = 0, solo = 0;
  int prio = 0;
  int spur_run = 0, spur_left = 0, nops = 0;
  char *lo = nullptr, *hi = nullptr;
  const void *waiting = nullptr;
  VC vc; View view, relview, pend; VC relvc, pendvc; bool hasrel = false;
};
static Thr g_thr[MAXT];
static int g_nthr = 0;
static Thr g_main;                 // single-threaded use
static __thread Thr *t_self = nullptr;
static bool g_running = false;     // run_threads in progress
static volatile int g_done_flag = 0;
static uint64_t g_tick = 0;
static long g_cap = 400000, g_spin_limit = 3000;
static bool g_weak = false, g_func_points = true;
static double g_stall_p = 0; static bool g_stall_forever = false;
static unsigned g_stall_mask = ~0u;
void set_stall_mask(unsigned m) { g_stall_mask = m; }
enum { SPUR_PER_OP = 150 };
static int g_spur_e = 2, g_victim = 0;
static double g_spur_p = 0, g_alloc_p = 0;
static bool g_explicit = false;    // replay/minimise mode
struct CKey { int tid, op, kind, seq; bool operator<(const CKey &o) const {
  if (tid != o.tid) return tid < o.tid;
  if (op != o.op) return op < o.op;
  if (kind != o.kind) return kind < o.kind;
  return seq < o.seq; } };
static std::map<CKey, int> *g_explicit_ch;
static Rng g_rng;                  // schedule/fault stream
// strategy
enum Strat { ST_RANDOM, ST_PCT, ST_FEW, ST_STARVE, ST_NONE };
static int g_strat = ST_RANDOM;
static double g_switch_p = 0.2;
static std::vector<long> *g_chg;   // PCT change points / FEW preemption points (global step numbers)
static long g_chg_i = 0;

static void rt_exit() { _exit(0); }

void fail(const char *cls, const char *fmt, ...) {
  if (t_self) t_self->in_rt = true;
  va_list ap; va_start(ap, fmt);
  snprintf(S->cls, sizeof S->cls, "%s", cls);
  vsnprintf(S->msg, sizeof S->msg, fmt, ap);
  va_end(ap);
  S->status = 2;
  rt_exit();
  __builtin_unreachable();
}
void count(const char *name, long n) {
  for (int i = 0; i < MAXCTR; i++) {
    if (!S->ctr[i].name[0]) snprintf(S->ctr[i].name, sizeof S->ctr[i].name, "%s", name);
    if (!strcmp(S->ctr[i].name, name)) { S->ctr[i].n += n; return; }
  }
}
void note(const char *fmt, ...) {
  if (!g_verbose) return;
  bool sv = false; if (t_self) { sv = t_self->in_rt; t_self->in_rt = true; }
  va_list ap; va_start(ap, fmt);
  int room = (int)sizeof S->trace - S->ntrace - 2;
  if (room > 80) {
    int n = snprintf(S->trace + S->ntrace, room, "[%llu t%d] ", (unsigned long long)g_tick, self());
    int m = vsnprintf(S->trace + S->ntrace + n, room - n, fmt, ap);
    n += m < room - n ? m : room - n - 1;
    S->trace[S->ntrace + n] = '\n'; S->ntrace += n + 1; S->trace[S->ntrace] = 0;
  }
  va_end(ap);
  if (t_self) t_self->in_rt = sv;
}
bool verbose() { return g_verbose; }
void nontrivial() { S->nontriv = 1; }
void mix(uint64_t v) {
  uint64_t h = S->hash ^ (v + 0x9e3779b97f4a7c15ULL + (S->hash << 6) + (S->hash >> 2));
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; S->hash = h;
}
void state(uint64_t h) { if (S->nstates < 512) S->states[S->nstates++] = h; }
void advance_time(long ns) { S->simtime += ns; }
void set_step_cap(long n) { g_cap = n; }
void set_weak_memory(bool b) { g_weak = b; }
void set_stall(double p, bool forever) { g_stall_p = p; g_stall_forever = forever; }
void set_starve(int victim) { if (!g_explicit && g_strat != ST_NONE) { g_strat = ST_STARVE; g_victim = victim; } }
void set_spurious(double p, int e) { g_spur_p = p; g_spur_e = e; }
void set_alloc_fail(double p) { g_alloc_p = p; }
static long g_alloc_faults;
long alloc_faults() { return g_alloc_faults; }
void set_spin_limit(long n) { g_spin_limit = n; }
void set_sched(bool f) { g_func_points = f; }
uint64_t tick() { return ++g_tick; }
int self() { return t_self ? t_self->id : -1; }
Quiet::Quiet() : saved(true) { if (t_self) { saved = t_self->in_rt; t_self->in_rt = true; } }
Quiet::~Quiet() { if (t_self) t_self->in_rt = saved; }

int choose(int kind, int n, double p) {
  Thr *t = t_self ? t_self : &g_main;
  int seq = t->seq[kind]++;
  int v = 0;
  if (g_explicit) {
    auto it = g_explicit_ch->find(CKey{t->id, t->op, kind, seq});
    if (it != g_explicit_ch->end()) { v = it->second; if (v >= n) v = n - 1; }
  } else if (n > 1 && p > 0 && g_rng.unit() < p) {
    v = 1 + (int)g_rng.below(n - 1);
  }
  if (v > 0) {
    if (S->nch < MAXCH) S->ch[S->nch++] = Choice{t->id, t->op, kind, seq, v}; else S->overflow = 1;
  }
  return v;
}
// record a decision made by a strategy (search mode) or look it up (explicit mode)
static int decide(int kind, int v, Thr *t) {
  int seq = t->seq[kind]++;
  if (g_explicit) {
    v = 0;
    auto it = g_explicit_ch->find(CKey{t->id, t->op, kind, seq});
    if (it != g_explicit_ch->end()) v = it->second;
  }
  if (v > 0) {
    if (S->nch < MAXCH) S->ch[S->nch++] = Choice{t->id, t->op, kind, seq, v}; else S->overflow = 1;
  }
  return v;
}

// ============================================================================
// baton
// ============================================================================
static long fx(volatile int *a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }
static void wait_turn(Thr *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) fx(&t->go, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void give(Thr *t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  fx(&t->go, FUTEX_WAKE_PRIVATE, 1);
}
static bool runnable(int i) { return i >= 0 && i < g_nthr && g_thr[i].st == T_RUN; }
static int n_runnable_other(Thr *t) {
  int n = 0; for (int i = 0; i < g_nthr; i++) if (i != t->id && runnable(i)) n++; return n;
}
static int pick_other(Thr *t) {  // random other runnable
  int n = n_runnable_other(t); if (!n) return -1;
  int k = (int)g_rng.below(n);
  for (int i = 0; i < g_nthr; i++) if (i != t->id && runnable(i) && k-- == 0) return i;
  return -1;
}
static int top_prio(int except) {
  int b = -1; for (int i = 0; i < g_nthr; i++) if (i != except && runnable(i) && (b < 0 || g_thr[i].prio > g_thr[b].prio)) b = i;
  return b;
}
static void switch_to(Thr *t, int k) {
  S->switches++;
  t->run_len = 0;
  mix(0x5157ULL * 1000 + k);
  give(&g_thr[k]);
  wait_turn(t);
}
// current thread cannot continue: hand over to someone; `ended`: it is finished
static void hand_over(Thr *t, bool ended) {
  t->in_rt = true;
  int n = 0, def = -1;
  for (int d = 1; d <= g_nthr; d++) { int i = (t->id + d) % g_nthr; if (i != t->id && runnable(i)) { n++; if (def < 0) def = i; } }
  if (!n) {
    // nobody runnable: release suspended threads
    bool stalled = false, blocked = false;
    for (int i = 0; i < g_nthr; i++) { if (g_thr[i].st == T_STALL) stalled = true; if (g_thr[i].st == T_BLOCK) blocked = true; }
    if (stalled && blocked && g_stall_forever)
      fail("blocked-by-suspended-thread", "a thread waits for a thread that is suspended in the middle of its own operation");
    if (stalled) {
      for (int i = 0; i < g_nthr; i++) if (g_thr[i].st == T_STALL) g_thr[i].st = T_RUN;
      g_stall_p = 0;
      for (int d = 0; d < g_nthr; d++) { int i = (t->id + d) % g_nthr; if (runnable(i) && !(ended && i == t->id)) { def = i; break; } }
      n = def >= 0;
    }
    if (!n) {
      if (blocked) fail("deadlock", "all unfinished threads are blocked (thread %d last)", t->id);
      // all done
      __atomic_store_n(&g_done_flag, 1, __ATOMIC_RELEASE);
      fx(&g_done_flag, FUTEX_WAKE_PRIVATE, 1);
      return;
    }
  }
  int k = def;
  if (n > 1) {
    int want = def;
    if (!g_explicit) {
      if (g_strat == ST_PCT) want = top_prio(t->id);
      else if (g_strat != ST_NONE) { int o = pick_other(t); if (o >= 0) want = o; }
    }
    int v = decide(K_NEXT, want == def ? 0 : want + 1, t);
    if (v > 0 && runnable(v - 1) && v - 1 != t->id) k = v - 1;
  }
  if (k == t->id) { t->in_rt = false; return; }
  S->switches++;
  t->run_len = 0;
  mix(0x4e58ULL * 1000 + k);
  give(&g_thr[k]);
  if (!ended) { wait_turn(t); t->in_rt = false; }
}

static std::unordered_map<const void *, int> *g_ids;
static int objid(const void *a) {
  auto it = g_ids->find(a);
  if (it != g_ids->end()) return it->second;
  int n = (int)g_ids->size(); (*g_ids)[a] = n; return n;
}

// a scheduling point before an access
static void spoint(int kind, const void *addr) {
  Thr *t = t_self;
  if (!t || !t->in_op || t->in_rt || !g_running) return;
  if ((char *)addr >= t->lo && (char *)addr < t->hi) return;
  t->in_rt = true;
  ++g_tick; S->steps++; t->opsteps++; t->run_len++;
  mix(((uint64_t)t->id << 40) | ((uint64_t)kind << 32) | (addr ? objid(addr) : 0));
  if (S->steps > g_cap) fail("no-progress", "step cap %ld reached: threads keep running without completing their operations", g_cap);
  if (g_stall_forever && n_runnable_other(t) == 0 && any_stalled()) {
    if (++t->solo > 4000) fail("waits-for-suspended-thread", "operation %d of thread %d made %ld steps alone without completing while another thread is suspended inside its operation", t->op, t->id, t->solo);
  }
  // suspension fault
  if (g_stall_p > 0 && (g_stall_mask >> t->id & 1) && n_runnable_other(t) > 0) {
    int v = choose(K_STALL, 2, g_stall_p);
    if (v) { count("fault.thread_suspended_mid_operation"); t->st = T_STALL; hand_over(t, false); t->in_rt = true; }
  }
  int want = -1;
  if (!g_explicit && n_runnable_other(t) > 0) {
    switch (g_strat) {
      case ST_RANDOM: if (g_rng.unit() < g_switch_p) want = pick_other(t); break;
      case ST_PCT:
        while (g_chg_i < (long)g_chg->size() && S->steps >= (*g_chg)[g_chg_i]) { g_chg_i++; t->prio = -1 - (int)g_chg_i; }
        { int b = top_prio(-1); if (b >= 0 && g_thr[b].prio > t->prio) want = b; } break;
      case ST_FEW:
        if (g_chg_i < (long)g_chg->size() && S->steps >= (*g_chg)[g_chg_i]) { g_chg_i++; want = pick_other(t); } break;
      case ST_STARVE:  // the victim keeps losing: somebody else completes an operation before each of its compare-and-swaps
        if (t->id == g_victim) { if (g_rng.unit() < (kind == 5 ? 0.93 : 0.15)) want = pick_other(t); }
        else if (t->opsteps == 1 && t->nops > 1 && runnable(g_victim) && g_rng.unit() < 0.85) want = g_victim;
        break;
      default: break;
    }
  }
  int v = decide(K_SCHED, want >= 0 ? want + 1 : 0, t);
  if (v > 0 && runnable(v - 1) && v - 1 != t->id) {
    count("sched.preemption_inside_operation");
    switch_to(t, v - 1);
  } else if (t->run_len > g_spin_limit && n_runnable_other(t) > 0) {
    for (int d = 1; d < g_nthr; d++) { int i = (t->id + d) % g_nthr; if (runnable(i)) { switch_to(t, i); break; } }
  }
  t->in_rt = false;
}
void point() { spoint(9, nullptr); }

static void block_on(const void *obj) {
  Thr *t = t_self;
  t->st = T_BLOCK; t->waiting = obj;
  hand_over(t, false);
}
static void wake_all(const void *obj) {
  for (int i = 0; i < g_nthr; i++) if (g_thr[i].st == T_BLOCK && g_thr[i].waiting == obj) { g_thr[i].st = T_RUN; g_thr[i].waiting = nullptr; }
}

void begin_op(int id) {
  Thr *t = t_self ? t_self : &g_main;
  t->op = id; t->nops++; memset(t->seq, 0, sizeof t->seq); t->opsteps = 0; t->spur_run = t->spur_left = 0; t->solo = 0;
  mix(0xB0000000ULL + (uint64_t)t->id * 4096 + id);
  ++g_tick;
  t->in_op = true; t->in_rt = false;
  spoint(8, nullptr);
}
void end_op() {
  Thr *t = t_self ? t_self : &g_main;
  t->in_op = false; ++g_tick;
  mix(0xE0000000ULL + (uint64_t)t->id * 4096 + t->op);
}
long op_steps() { return t_self ? t_self->opsteps : 0; }
bool any_stalled() { for (int i = 0; i < g_nthr; i++) if (g_thr[i].st == T_STALL) return true; return false; }
void __attribute__((noinline)) scrub_stack() {
  volatile char b[16384]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)0xA5;
}

static char *g_stacks; enum { STK = 512 * 1024 };
static const std::function<void(int)> *g_body;
static int g_exit_turn;
static void *thr_main(void *p) {
  Thr *t = (Thr *)p;
  t_self = t;
  wait_turn(t);
  t->in_rt = false;
  (*g_body)(t->id);
  t->in_op = false; t->in_rt = true;
  t->st = T_DONE;
  t->op = -1;
  hand_over(t, true);
  // real thread exit (thread-local destructors, allocator caches) happens in a fixed order at the end
  while (__atomic_load_n(&g_exit_turn, __ATOMIC_ACQUIRE) != t->id + 1) { int v = __atomic_load_n(&g_exit_turn, __ATOMIC_ACQUIRE); if (v != t->id + 1) fx(&g_exit_turn, FUTEX_WAIT_PRIVATE, v); }
  return nullptr;
}
void run_threads(int n, const std::function<void(int)> &f) {
  if (n > MAXT) n = MAXT;
  g_nthr = n; g_body = &f; g_done_flag = 0;
  for (int i = 0; i < n; i++) {
    Thr *t = &g_thr[i];
    *t = Thr(); t->id = i; memset(t->seq, 0, sizeof t->seq);
    memset(&t->vc, 0, sizeof t->vc); memset(&t->view, 0, sizeof t->view);
    memset(&t->relview, 0, sizeof t->relview); memset(&t->pend, 0, sizeof t->pend);
    memset(&t->relvc, 0, sizeof t->relvc); memset(&t->pendvc, 0, sizeof t->pendvc);
    t->vc.c[i] = 1;
    t->lo = g_stacks + (size_t)i * STK; t->hi = t->lo + STK;
    t->in_rt = true;
  }
  if (!g_explicit && g_strat == ST_PCT)
    for (int i = 0; i < n; i++) { g_thr[i].prio = 100 + i; }
  if (!g_explicit && g_strat == ST_PCT)
    for (int i = n - 1; i > 0; i--) { int j = (int)g_rng.below(i + 1); std::swap(g_thr[i].prio, g_thr[j].prio); }
  g_running = true;
  for (int i = 0; i < n; i++) {
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, g_thr[i].lo, STK);
    int rc = pthread_create(&g_thr[i].th, &at, thr_main, &g_thr[i]);
    if (rc) { S->status = 3; _exit(9); }
    pthread_attr_destroy(&at);
  }
  g_main.op = -1; memset(g_main.seq, 0, sizeof g_main.seq); g_main.id = MAXT;
  int first = 0;
  if (!g_explicit) first = g_strat == ST_PCT ? top_prio(-1) : (g_strat == ST_NONE ? 0 : (int)g_rng.below(n));
  first = decide(K_NEXT, first, &g_main);
  if (first >= n) first = 0;
  give(&g_thr[first]);
  while (!__atomic_load_n(&g_done_flag, __ATOMIC_ACQUIRE)) fx(&g_done_flag, FUTEX_WAIT_PRIVATE, 0);
  for (int i = 0; i < n; i++) { __atomic_store_n(&g_exit_turn, i + 1, __ATOMIC_RELEASE); fx(&g_exit_turn, FUTEX_WAKE_PRIVATE, 64); pthread_join(g_thr[i].th, nullptr); }
  g_exit_turn = 0;
  g_running = false;
}

// ============================================================================
// memory model
// ============================================================================
struct Store { unsigned char v[16]; View view; VC vc; bool sc; };
struct Loc { int idx; int size; std::vector<Store> h; int lastsc; };
static std::unordered_map<const void *, Loc *> *g_locs;
static int g_nloc;
struct Sync { VC vc; View view; };
static std::unordered_map<const void *, Sync> *g_sync;
static VC g_scvc; static View g_scview;
static void jvc(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void jv(View &a, const View &b) { for (int i = 0; i < MAXLOC; i++) if (b.v[i] > a.v[i]) a.v[i] = b.v[i]; }
static bool is_acq(int m) { return m == 1 || m == 2 || m == 4 || m == 5; }
static bool is_rel(int m) { return m == 3 || m == 4 || m == 5; }

static Loc *loc_of(void *a, int size) {
  auto it = g_locs->find(a);
  Loc *l;
  if (it == g_locs->end()) {
    if (g_nloc >= MAXLOC) return nullptr;
    l = new Loc; l->idx = g_nloc++; l->size = size; l->lastsc = 0;
    Store s; memset(&s, 0, sizeof s); memcpy(s.v, a, size); l->h.push_back(s);
    (*g_locs)[a] = l;
  } else {
    l = it->second;
    if (memcmp(l->h.back().v, a, size < l->size ? size : l->size) && l->h.size() < 60000) {
      // modified by a plain store: append it as an unordered store
      Store s; memset(&s, 0, sizeof s); memcpy(s.v, a, l->size); l->h.push_back(s);
    }
  }
  return l;
}
static void acq_from(Thr *t, const Store &s, int mo) {
  if (is_acq(mo)) { jvc(t->vc, s.vc); jv(t->view, s.view); }
  else { jvc(t->pendvc, s.vc); jv(t->pend, s.view); }
}
static void push_store(Thr *t, Loc *l, const void *val, int size, int mo, const Store *rmw_of) {
  Store s; memset(&s, 0, sizeof s);
  memcpy(s.v, val, size);
  t->view.v[l->idx] = (uint16_t)l->h.size();
  if (is_rel(mo)) { s.vc = t->vc; s.view = t->view; t->vc.c[t->id]++; }
  else if (t->hasrel) { s.vc = t->relvc; s.view = t->relview; }
  if (rmw_of) { jvc(s.vc, rmw_of->vc); jv(s.view, rmw_of->view); }
  if (s.view.v[l->idx] < l->h.size()) s.view.v[l->idx] = (uint16_t)l->h.size();
  s.sc = mo == 5;
  if (s.sc) l->lastsc = (int)l->h.size();
  l->h.push_back(s);
}
static bool wm() { return g_weak && t_self && g_running && t_self->in_op && !t_self->in_rt; }

static void a_load(void *a, void *out, int size, int mo) {
  spoint(2, a);
  if (wm()) {
    Thr *t = t_self; bool sv = t->in_rt; t->in_rt = true;
    Loc *l = loc_of(a, size);
    if (l) {
      int last = (int)l->h.size() - 1, lb = t->view.v[l->idx];
      if (mo == 5 && l->lastsc > lb) lb = l->lastsc;
      int k = choose(K_STALE, last - lb + 1, 0.35);
      if (k) count("fault.stale_load");
      const Store s = l->h[last - k];
      if (t->view.v[l->idx] < last - k) t->view.v[l->idx] = (uint16_t)(last - k);
      acq_from(t, s, mo);
      memcpy(out, s.v, size);
      t->in_rt = sv; return;
    }
    t->in_rt = sv;
  }
  memcpy(out, a, size);
}
static void a_store(void *a, const void *val, int size, int mo) {
  spoint(3, a);
  if (wm()) {
    Thr *t = t_self; bool sv = t->in_rt; t->in_rt = true;
    Loc *l = loc_of(a, size);
    if (l) push_store(t, l, val, size, mo, nullptr);
    t->in_rt = sv;
  }
  memcpy(a, val, size);
}
template <class F> static void a_rmw(void *a, void *old, int size, int mo, F f) {
  spoint(4, a);
  unsigned char cur[16]; memcpy(cur, a, size); memcpy(old, cur, size);
  unsigned char neu[16]; f(cur, neu);
  if (wm()) {
    Thr *t = t_self; bool sv = t->in_rt; t->in_rt = true;
    Loc *l = loc_of(a, size);
    if (l) { Store s = l->h.back(); acq_from(t, s, mo); push_store(t, l, neu, size, mo, &s); }
    t->in_rt = sv;
  }
  memcpy(a, neu, size);
}
static bool a_cas(void *a, void *expected, const void *desired, int size, bool weak, int mo, int fmo) {
  spoint(5, a);
  Thr *t = t_self;
  unsigned char cur[64];
  if (size > (int)sizeof cur) size = sizeof cur;
  memcpy(cur, a, size);
  bool eq = !memcmp(cur, expected, size);
  if (t && t->in_op && !t->in_rt && g_running) {
    t->in_rt = true;
    if (weak && eq && g_spur_p > 0 && t->spur_run < SPUR_PER_OP) {
      // one decision is a burst of 1, 2, 4, ... failures in a row
      if (t->spur_left > 0) t->spur_left--;
      else if (int v = choose(K_SPUR, 1 + g_spur_e, g_spur_p)) { t->spur_left = (1 << (v - 1)) - 1; if (v > 4) count("fault.spurious_cas_failure_storm"); }
      else t->spur_left = -1;
      if (t->spur_left >= 0) { t->spur_run++; count("fault.spurious_cas_failure"); t->in_rt = false;
        if (wm()) { Loc *l = loc_of(a, size); if (l) acq_from(t, l->h.back(), fmo); }
        return false; }
      t->spur_left = 0;
    }
    t->in_rt = false;
    if (!eq) count("probe.cas_lost_race");
  }
  if (wm() && size <= 16) {
    bool sv = t->in_rt; t->in_rt = true;
    Loc *l = loc_of(a, size);
    if (l) {
      Store s = l->h.back();
      if (eq) { acq_from(t, s, mo); push_store(t, l, desired, size, mo, &s); }
      else {
        int last = (int)l->h.size() - 1;
        if (t->view.v[l->idx] < last) t->view.v[l->idx] = (uint16_t)last;
        acq_from(t, s, fmo);
      }
    }
    t->in_rt = sv;
  }
  if (eq) { memcpy(a, desired, size); return true; }
  memcpy(expected, cur, size);
  return false;
}
static void a_fence(int mo) {
  spoint(6, nullptr);
  if (!wm()) return;
  Thr *t = t_self;
  if (is_acq(mo)) { jvc(t->vc, t->pendvc); jv(t->view, t->pend); }
  if (mo == 5) { jvc(t->vc, g_scvc); jv(t->view, g_scview); g_scvc = t->vc; g_scview = t->view; }
  if (is_rel(mo)) { t->relvc = t->vc; t->relview = t->view; t->hasrel = true; t->vc.c[t->id]++; }
}
static void sync_acq(const void *o) {
  if (!t_self || !g_running) return;
  auto it = g_sync->find(o); if (it == g_sync->end()) return;
  jvc(t_self->vc, it->second.vc); jv(t_self->view, it->second.view);
}
static void sync_rel(const void *o) {
  if (!t_self || !g_running) return;
  auto &s = (*g_sync)[o]; jvc(s.vc, t_self->vc); jv(s.view, t_self->view); t_self->vc.c[t_self->id]++;
}
struct DW { int tid; uint32_t c; };
static std::map<int, DW> *g_data;
void data_write(int id) { Quiet q; (*g_data)[id] = DW{t_self->id, t_self->vc.c[t_self->id]}; }
bool data_written(int id) { Quiet q; return g_data->count(id) != 0; }
bool data_read_ok(int id) {
  Quiet q; auto it = g_data->find(id); if (it == g_data->end()) return true;
  return it->second.c <= t_self->vc.c[it->second.tid];
}

// ============================================================================
// simulated synchronisation objects
// ============================================================================
struct Mx { int owner = -1; int depth = 0; int readers = 0; };
static std::unordered_map<const void *, Mx> *g_mx;
static bool simulated() { return t_self && g_running && !t_self->in_rt; }
static int mx_lock(const void *m, bool tryonly, bool recursive_ok) {
  Thr *t = t_self;
  spoint(10, m);
  t->in_rt = true;
  for (;;) {
    Mx &x = (*g_mx)[m];
    if (x.owner < 0 && x.readers == 0) { x.owner = t->id; x.depth = 1; break; }
    if (x.owner == t->id && recursive_ok) { x.depth++; break; }
    if (tryonly) { t->in_rt = false; return EBUSY; }
    if (x.owner == t->id) fail("deadlock", "thread %d locks a mutex it already holds", t->id);
    count("probe.lock_contended");
    block_on(m);
    t->in_rt = true;
  }
  sync_acq(m);
  t->in_rt = false;
  return 0;
}
static int mx_unlock(const void *m) {
  Thr *t = t_self;
  spoint(11, m);
  t->in_rt = true;
  Mx &x = (*g_mx)[m];
  if (x.readers > 0 && x.owner < 0) { x.readers--; }
  else if (x.owner == t->id) { if (--x.depth == 0) x.owner = -1; }
  sync_rel(m);
  if (x.owner < 0) wake_all(m);
  t->in_rt = false;
  spoint(12, m);
  return 0;
}
}  // namespace sim

using namespace sim;
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__) = real<ret (*)(__VA_ARGS__)>(name)

extern "C" {
// ---- compiler instrumentation ----------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) { if (g_func_points) spoint(7, nullptr); }
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *a) { spoint(0, a); } \
  void __tsan_write##n(void *a) { spoint(1, a); } \
  void __tsan_unaligned_read##n(void *a) { spoint(0, a); } \
  void __tsan_unaligned_write##n(void *a) { spoint(1, a); } \
  void __tsan_volatile_read##n(void *a) { spoint(0, a); } \
  void __tsan_volatile_write##n(void *a) { spoint(1, a); } \
  void __tsan_unaligned_volatile_read##n(void *a) { spoint(0, a); } \
  void __tsan_unaligned_volatile_write##n(void *a) { spoint(1, a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t) { spoint(0, a); }
void __tsan_write_range(void *a, size_t) { spoint(1, a); }
void __tsan_vptr_update(void **a, void *) { spoint(1, a); }
void __tsan_vptr_read(void **a) { spoint(0, a); }
typedef unsigned __int128 u128;
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) { T v; a_load((void *)a, &v, sizeof v, mo); return v; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { a_store((void *)a, &v, sizeof v, mo); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { T o; a_rmw((void *)a, &o, sizeof o, mo, [&](unsigned char *, unsigned char *n) { memcpy(n, &v, sizeof v); }); return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { T o; a_rmw((void *)a, &o, sizeof o, mo, [&](unsigned char *c, unsigned char *n) { T x; memcpy(&x, c, sizeof x); x = (T)(x + v); memcpy(n, &x, sizeof x); }); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { T o; a_rmw((void *)a, &o, sizeof o, mo, [&](unsigned char *c, unsigned char *n) { T x; memcpy(&x, c, sizeof x); x = (T)(x - v); memcpy(n, &x, sizeof x); }); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { T o; a_rmw((void *)a, &o, sizeof o, mo, [&](unsigned char *c, unsigned char *n) { T x; memcpy(&x, c, sizeof x); x = (T)(x & v); memcpy(n, &x, sizeof x); }); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { T o; a_rmw((void *)a, &o, sizeof o, mo, [&](unsigned char *c, unsigned char *n) { T x; memcpy(&x, c, sizeof x); x = (T)(x | v); memcpy(n, &x, sizeof x); }); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { T o; a_rmw((void *)a, &o, sizeof o, mo, [&](unsigned char *c, unsigned char *n) { T x; memcpy(&x, c, sizeof x); x = (T)(x ^ v); memcpy(n, &x, sizeof x); }); return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { T o; a_rmw((void *)a, &o, sizeof o, mo, [&](unsigned char *c, unsigned char *n) { T x; memcpy(&x, c, sizeof x); x = (T)~(x & v); memcpy(n, &x, sizeof x); }); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T d, int mo, int fmo) { return a_cas((void *)a, e, &d, sizeof d, false, mo, fmo); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T d, int mo, int fmo) { return a_cas((void *)a, e, &d, sizeof d, true, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T d, int mo, int fmo) { a_cas((void *)a, &e, &d, sizeof d, false, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128)
void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
void __tsan_atomic_signal_fence(int) {}
// generic (any size) libatomic entry points
void sim_atomic_load(size_t n, const volatile void *a, void *out, int mo) __asm__("__atomic_load");
void sim_atomic_load(size_t n, const volatile void *a, void *out, int mo) {
  if (n <= 16) { a_load((void *)a, out, (int)n, mo); return; }
  spoint(2, (void *)a); memcpy(out, (void *)a, n);
}
void sim_atomic_store(size_t n, volatile void *a, const void *v, int mo) __asm__("__atomic_store");
void sim_atomic_store(size_t n, volatile void *a, const void *v, int mo) {
  if (n <= 16) { a_store((void *)a, v, (int)n, mo); return; }
  spoint(3, (void *)a); memcpy((void *)a, v, n);
}
void sim_atomic_exchange(size_t n, volatile void *a, const void *v, void *out, int mo) __asm__("__atomic_exchange");
void sim_atomic_exchange(size_t n, volatile void *a, const void *v, void *out, int) {
  spoint(4, (void *)a); unsigned char tmp[256]; memcpy(tmp, v, n); memcpy(out, (void *)a, n); memcpy((void *)a, tmp, n);
}
bool sim_atomic_cas(size_t n, volatile void *a, void *e, const void *d, int mo, int fmo) __asm__("__atomic_compare_exchange");
bool sim_atomic_cas(size_t n, volatile void *a, void *e, const void *d, int mo, int fmo) {
  // std::atomic reaches this for sizes without a native instruction; weakness is not passed on
  return a_cas((void *)a, e, d, (int)n, false, mo, fmo);
}

// ---- synchronisation ---------------------------------------------------------
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!simulated()) { REAL(int, "pthread_mutex_lock", pthread_mutex_t *); return r(m); }
  return mx_lock(m, false, false);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!simulated()) { REAL(int, "pthread_mutex_trylock", pthread_mutex_t *); return r(m); }
  return mx_lock(m, true, false);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!simulated()) { REAL(int, "pthread_mutex_unlock", pthread_mutex_t *); return r(m); }
  return mx_unlock(m);
}
int pthread_spin_lock(pthread_spinlock_t *m) { if (!simulated()) { REAL(int, "pthread_spin_lock", pthread_spinlock_t *); return r(m); } return mx_lock((void *)m, false, false); }
int pthread_spin_unlock(pthread_spinlock_t *m) { if (!simulated()) { REAL(int, "pthread_spin_unlock", pthread_spinlock_t *); return r(m); } return mx_unlock((void *)m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!simulated()) { REAL(int, "pthread_rwlock_wrlock", pthread_rwlock_t *); return r(m); } return mx_lock(m, false, false); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!simulated()) { REAL(int, "pthread_rwlock_rdlock", pthread_rwlock_t *); return r(m); }
  Thr *t = t_self; spoint(10, m); t->in_rt = true;
  while ((*g_mx)[m].owner >= 0) { block_on(m); t->in_rt = true; }
  (*g_mx)[m].readers++; sync_acq(m); t->in_rt = false; return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!simulated()) { REAL(int, "pthread_rwlock_unlock", pthread_rwlock_t *); return r(m); } return mx_unlock(m); }
int pthread_once(pthread_once_t *o, void (*f)()) {
  if (!simulated()) { REAL(int, "pthread_once", pthread_once_t *, void (*)()); return r(o, f); }
  // *o: 0 = never run, 2 = done (glibc's value), state while running is kept in the lock table
  Thr *t = t_self; spoint(10, o);
  for (;;) {
    if (*(volatile int *)o == 2) { t->in_rt = true; sync_acq(o); t->in_rt = false; return 0; }
    t->in_rt = true;
    Mx &x = (*g_mx)[o];
    if (x.owner < 0) { x.owner = t->id; t->in_rt = false; f(); t->in_rt = true; *(volatile int *)o = 2; (*g_mx)[o].owner = -1; sync_rel(o); wake_all(o); t->in_rt = false; return 0; }
    block_on(o); t->in_rt = false;
  }
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!simulated()) { REAL(int, "pthread_cond_wait", pthread_cond_t *, pthread_mutex_t *); return r(c, m); }
  mx_unlock(m);
  Thr *t = t_self; t->in_rt = true; block_on(c); t->in_rt = false;
  return mx_lock(m, false, false);
}
int pthread_cond_signal(pthread_cond_t *c) { if (!simulated()) { REAL(int, "pthread_cond_signal", pthread_cond_t *); return r(c); } t_self->in_rt = true; wake_all(c); t_self->in_rt = false; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!simulated()) { REAL(int, "pthread_cond_broadcast", pthread_cond_t *); return r(c); } t_self->in_rt = true; wake_all(c); t_self->in_rt = false; return 0; }
int sched_yield() {
  if (!simulated()) return (int)syscall(SYS_sched_yield);
  Thr *t = t_self; spoint(9, nullptr); t->in_rt = true;
  for (int d = 1; d < g_nthr; d++) { int i = (t->id + d) % g_nthr; if (runnable(i)) { switch_to(t, i); break; } }
  t->in_rt = false; return 0;
}
// function-local statics
static Mx &guard_state(void *g) { return (*g_mx)[g]; }
int __cxa_guard_acquire(long long *g) {
  if (*(volatile char *)g) return 0;
  if (!simulated()) {
    if (((char *)g)[1]) { Thr *t = t_self; if (!t) return 0; }
    ((char *)g)[1] = 1; return 1;
  }
  Thr *t = t_self; spoint(10, g); t->in_rt = true;
  for (;;) {
    if (*(volatile char *)g) { sync_acq(g); t->in_rt = false; return 0; }
    if (guard_state(g).owner < 0) { guard_state(g).owner = t->id; t->in_rt = false; count("probe.static_initialised_in_simulation"); return 1; }
    if (guard_state(g).owner == t->id) fail("deadlock", "recursive initialisation of a local static");
    count("probe.static_init_contended");
    block_on(g); t->in_rt = true;
  }
}
void __cxa_guard_release(long long *g) {
  *(volatile char *)g = 1; ((char *)g)[1] = 0;
  if (!simulated()) return;
  Thr *t = t_self; t->in_rt = true; guard_state(g).owner = -1; sync_rel(g); wake_all(g); t->in_rt = false; spoint(11, g);
}
void __cxa_guard_abort(long long *g) {
  ((char *)g)[1] = 0;
  if (!simulated()) return;
  Thr *t = t_self; t->in_rt = true; guard_state(g).owner = -1; wake_all(g); t->in_rt = false;
}
}  // extern "C"

// allocation seam
static void *sim_new(size_t n, bool nothrow) {
  Thr *t = t_self;
  if (t && t->in_op && !t->in_rt) {
    if (g_running) spoint(13, nullptr);
    if (g_alloc_p > 0) {
      t->in_rt = true; bool f = choose(K_ALLOC, 2, g_alloc_p); t->in_rt = false;
      if (f) { g_alloc_faults++; count("fault.allocation_failed"); if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
  }
  void *p = malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  if (p) memset(p, 0xCD, n);          // stale memory never looks like a value
  return p;
}
static void sim_delete(void *p) {
  if (!p) return;
  memset(p, 0xDD, malloc_usable_size(p));
  free(p);
}
void *operator new(size_t n) { return sim_new(n, false); }
void *operator new[](size_t n) { return sim_new(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_new(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_new(n, true); }
void operator delete(void *p) noexcept { sim_delete(p); }
void operator delete[](void *p) noexcept { sim_delete(p); }
void operator delete(void *p, size_t) noexcept { sim_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p); }

// ============================================================================
// zygote: one fork per simulated run
// ============================================================================
namespace sim {
struct Result { int status; std::string cls, msg; uint64_t hash; long steps, switches; std::vector<Choice> ch; };
static Harness *H;
static uint64_t g_seed;
static bool g_generic_main = false;
static int g_cpu_limit = 20;

static long g_horizon = 640;
void set_horizon(long n) { g_horizon = n; }
static long horizon() { long L = 20; int k = 0; while ((L << k) < g_horizon) k++; return 20L << g_rng.below(k + 1); }
static void setup_strategy(uint64_t seed) {
  g_rng = Rng(seed ^ 0xC0FFEE123456789ULL);
  g_chg = new std::vector<long>; g_chg_i = 0;
  int k = (int)g_rng.below(10);
  if (k < 5) { g_strat = ST_RANDOM; static const double ps[] = {0.02, 0.05, 0.1, 0.2, 0.35, 0.5, 0.7}; g_switch_p = ps[g_rng.below(7)]; }
  else if (k < 8) { g_strat = ST_PCT; int d = 1 + (int)g_rng.below(5); long L = horizon(); for (int i = 0; i < d; i++) g_chg->push_back(1 + g_rng.below(L)); std::sort(g_chg->begin(), g_chg->end()); }
  else { g_strat = ST_FEW; int d = 1 + (int)g_rng.below(4); long L = horizon(); for (int i = 0; i < d; i++) g_chg->push_back(1 + g_rng.below(L)); std::sort(g_chg->begin(), g_chg->end()); }
}
static void child(const Program &p, bool expl, const std::vector<Choice> *ch, uint64_t seed) {
  struct rlimit rl = {(rlim_t)g_cpu_limit, (rlim_t)g_cpu_limit + 5}; setrlimit(RLIMIT_CPU, &rl);
  alarm(600);
  on_exit([](int st, void *) { _exit(st); }, nullptr);   // code that ends the process must not write out the simulator's own buffers
  g_ids = new std::unordered_map<const void *, int>; g_mx = new std::unordered_map<const void *, Mx>;
  g_locs = new std::unordered_map<const void *, Loc *>; g_sync = new std::unordered_map<const void *, Sync>;
  g_data = new std::map<int, DW>; g_explicit_ch = new std::map<CKey, int>;
  memset(&g_scvc, 0, sizeof g_scvc); memset(&g_scview, 0, sizeof g_scview);
  g_main.id = MAXT; g_main.op = -1; memset(g_main.seq, 0, sizeof g_main.seq);
  g_explicit = expl;
  setup_strategy(seed);
  if (expl && ch) for (auto &c : *ch) (*g_explicit_ch)[CKey{c.tid, c.op, c.kind, c.seq}] = c.val;
  t_self = &g_main; g_main.in_op = false; g_main.in_rt = false;
  H->run(p);
  S->status = 1;
  _exit(0);
}
// ---- reference executions: the call alone, in a copy of the process as it is now ----
struct AloneBuf { volatile int done; size_t n; char d[1 << 16]; };
static AloneBuf *g_alone;
std::string alone(const std::function<std::string()> &f) {
  if (!g_alone) g_alone = (AloneBuf *)mmap(nullptr, sizeof(AloneBuf), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_alone->done = 0; g_alone->n = 0;
  pid_t pid = fork();
  if (pid < 0) { S->status = 3; _exit(9); }
  if (pid == 0) {
    Shared *p = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    S = p; g_running = false; g_alloc_p = 0; g_explicit = true; g_explicit_ch->clear();
    std::string r = f();
    g_alone->n = std::min(r.size(), sizeof g_alone->d); memcpy(g_alone->d, r.data(), g_alone->n);
    g_alone->done = 1; _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!g_alone->done) return "<ended by " + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit") + ">";
  return std::string(g_alone->d, g_alone->n);
}
static Result exec(const Program &p, bool expl, const std::vector<Choice> *ch, uint64_t seed) {
  S->status = 0; S->cls[0] = S->msg[0] = 0; S->hash = 0x1234567; S->steps = S->switches = S->simtime = 0;
  S->nontriv = 0; S->nch = 0; S->overflow = 0; S->nstates = 0; S->ntrace = 0; S->trace[0] = 0;
  memset(S->ctr, 0, sizeof S->ctr);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(4); }
  if (pid == 0) {
    child(p, expl, ch, seed);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Result r; r.status = S->status; r.hash = S->hash; r.steps = S->steps; r.switches = S->switches;
  if (WIFSIGNALED(st)) {
    int sig = WTERMSIG(st);
    if (sig == SIGALRM) { fprintf(stderr, "wall-clock limit hit; giving up\n"); exit(4); }
    if (sig == SIGKILL) { fprintf(stderr, "run killed from outside; giving up\n"); exit(4); }
    r.status = 2;
    r.cls = sig == SIGXCPU ? "hang" : std::string("crash-") + (sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segv" : sig == SIGFPE ? "fpe" : sig == SIGBUS ? "bus" : std::to_string(sig));
    if (sig == SIGXCPU) r.hash = 0x4841ULL;   // where the limit strikes is not reproducible, that it strikes is
    r.msg = sig == SIGXCPU ? "the simulated process used its CPU limit without finishing" : "the simulated process was ended by signal " + std::to_string(sig);
  } else if (r.status == 2) { r.cls = S->cls; r.msg = S->msg; }
  else if (r.status == 3) { fprintf(stderr, "simulator resource failure\n"); exit(4); }
  else if (r.status == 0) { r.status = 2; r.cls = "exit-" + std::to_string(WEXITSTATUS(st)); r.msg = "the simulated process exited by itself"; }
  r.ch.assign(S->ch, S->ch + S->nch);
  return r;
}

// ---- replay files ------------------------------------------------------------
static std::string jesc(const std::string &s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static std::string prog_json(const Program &p) {
  std::string o = "{\"hdr\":[";
  for (size_t i = 0; i < p.hdr.size(); i++) { if (i) o += ","; o += std::to_string(p.hdr[i]); }
  o += "],\"ops\":[";
  for (size_t i = 0; i < p.ops.size(); i++) {
    if (i) o += ","; o += "[" + std::to_string(p.ops[i].id) + "," + std::to_string(p.ops[i].thr);
    for (long x : p.ops[i].a) o += "," + std::to_string(x);
    o += "]";
  }
  return o + "]}";
}
static std::string ch_json(const std::vector<Choice> &c) {
  std::string o = "[";
  for (size_t i = 0; i < c.size(); i++) { if (i) o += ","; char b[96]; snprintf(b, 96, "[%d,%d,%d,%d,%d]", c[i].tid, c[i].op, c[i].kind, c[i].seq, c[i].val); o += b; }
  return o + "]";
}
// minimal reader: finds "key": and parses nested integer arrays
static const char *find_key(const std::string &s, const char *k) {
  std::string q = std::string("\"") + k + "\""; size_t i = s.find(q); if (i == std::string::npos) return nullptr;
  i = s.find(':', i + q.size()); return s.c_str() + i + 1;
}
static std::vector<std::vector<long>> parse_arrs(const char *c) {
  std::vector<std::vector<long>> out; while (*c && *c != '[') c++; c++;
  int depth = 0; std::vector<long> cur;
  for (; *c; ) {
    if (*c == '[') { depth++; cur.clear(); c++; }
    else if (*c == ']') { if (depth == 0) break; depth--; out.push_back(cur); c++; }
    else if (*c == '-' || (*c >= '0' && *c <= '9')) { char *e; long v = strtol(c, &e, 10); if (depth == 0) { out.push_back({v}); } else cur.push_back(v); c = e; }
    else c++;
  }
  return out;
}
static std::string parse_str(const std::string &s, const char *k) {
  const char *c = find_key(s, k); if (!c) return ""; while (*c && *c != '"') c++; std::string o; c++;
  while (*c && *c != '"') { if (*c == '\\') c++; o += *c++; } return o;
}
static std::string slurp(const char *f) { FILE *fp = fopen(f, "r"); if (!fp) return ""; std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n); fclose(fp); return s; }

static void write_replay(const char *path, const char *prop, const Program &p, const std::vector<Choice> &ch, const Result &r, uint64_t seed, long index, size_t ops0, size_t ch0) {
  FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(4); }
  fprintf(f, "{\n \"property\": \"%s\",\n \"class\": \"%s\",\n \"message\": \"%s\",\n \"seed\": %llu,\n \"index\": %ld,\n \"hash\": \"%016llx\",\n \"minimised_from\": {\"n_ops\": %zu, \"n_choices\": %zu},\n \"readable\": \"%s\",\n",
          prop, jesc(r.cls).c_str(), jesc(r.msg).c_str(), (unsigned long long)seed, index, (unsigned long long)r.hash, ops0, ch0, jesc(H->describe(p)).c_str());
  fprintf(f, " \"choice_format\": \"[thread, op id, kind, n-th decision of that kind in the op, value]; kinds 0 preempt(1+thread) 1 next thread 2 spurious CAS 3 stale load 4 suspend 5 allocation failure 8+ harness faults\",\n");
  fprintf(f, " \"program\": %s,\n \"choices\": %s,\n", prog_json(p).c_str(), ch_json(ch).c_str());
  fprintf(f, " \"trace\": \"%s\"\n}\n", jesc(std::string(S->trace, S->ntrace > 12000 ? 12000 : S->ntrace)).c_str());
  fclose(f);
}

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---- minimisation ---------------------------------------------------------------
static void minimise(Program &p, std::vector<Choice> &ch, const std::string &cls, uint64_t seed, double budget) {
  double t0 = now_s();
  auto bad = [&](const Program &q, const std::vector<Choice> &c) {
    if (now_s() - t0 > budget) return false;
    Result r = exec(q, true, &c, seed); return r.status == 2 && r.cls == cls; };
  bool progress = true;
  for (int round = 0; round < 4 && progress && now_s() - t0 < budget; round++) {
    progress = false;
    // choices: ddmin
    for (size_t chunk = std::max<size_t>(1, ch.size() / 2); !ch.empty(); chunk = chunk / 2) {
      for (size_t i = 0; i < ch.size();) {
        std::vector<Choice> c(ch.begin(), ch.begin() + i); size_t e = std::min(ch.size(), i + chunk); c.insert(c.end(), ch.begin() + e, ch.end());
        if (bad(p, c)) { ch = c; progress = true; } else i += chunk;
        if (now_s() - t0 > budget) break;
      }
      if (chunk <= 1) break;
    }
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); p.ops.size() > 1; chunk = chunk / 2) {
      for (size_t i = 0; i < p.ops.size();) {
        Program q = p; size_t e = std::min(q.ops.size(), i + chunk); q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
        if (!q.ops.empty() && bad(q, ch)) { p = q; progress = true; } else i += chunk;
        if (now_s() - t0 > budget) break;
      }
      if (chunk <= 1) break;
    }
    // generic argument simplification, then harness-specific
    for (size_t i = 0; i < p.ops.size(); i++)
      for (size_t j = 1; j < p.ops[i].a.size(); j++) {
        if (p.ops[i].a[j] == 0) continue;
        for (long v : {0L, 1L, p.ops[i].a[j] / 2}) {
          if (v == p.ops[i].a[j]) continue;
          Program q = p; q.ops[i].a[j] = v; if (bad(q, ch)) { p = q; progress = true; break; }
        }
        if (now_s() - t0 > budget) break;
      }
  }
  std::vector<Program> alt; H->simplify(p, alt);
  for (auto &q : alt) if (bad(q, ch)) p = q;
}

}  // namespace sim

static int usage() { fprintf(stderr, "usage: harness --property ID --seed N --first I --stride K --runs N --max-seconds T --out F [--hashes F] [--replay-out F] [--known K]... | --replay F\n"); return 4; }

int main(int argc, char **argv) {
  // fixed addresses where the kernel lets us (results never depend on them)
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int cur = personality(0xffffffff);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string prop, out, hashes, replay_out, replay; uint64_t seed = 1; long first = 0, stride = 1, runs = 1000; double maxs = 60, minb = 60; int pin = -1; bool dump = false;
  std::set<std::string> known; int det_every = 40;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> const char * { if (i + 1 >= argc) exit(usage()); return argv[++i]; };
    if (a == "--property") prop = nx(); else if (a == "--seed") seed = strtoull(nx(), 0, 10); else if (a == "--first") first = atol(nx());
    else if (a == "--stride") stride = atol(nx()); else if (a == "--runs") runs = atol(nx()); else if (a == "--max-seconds") maxs = atof(nx());
    else if (a == "--out") out = nx(); else if (a == "--hashes") hashes = nx(); else if (a == "--replay-out") replay_out = nx();
    else if (a == "--replay") replay = nx(); else if (a == "--known") known.insert(nx()); else if (a == "--pin") pin = atoi(nx());
    else if (a == "--min-seconds") minb = atof(nx()); else if (a == "--dump") dump = true; else if (a == "--det-every") det_every = atoi(nx());
    else return usage();
  }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_stacks = (char *)mmap(nullptr, (size_t)MAXT * STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || g_stacks == MAP_FAILED) { perror("mmap"); return 4; }
  { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); }
  if (pin < 0) pin = (int)first;
  { cpu_set_t all; CPU_ZERO(&all); if (!sched_getaffinity(0, sizeof all, &all)) { int n = CPU_COUNT(&all), want = pin % (n ? n : 1), k = 0; for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && k++ == want) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; } } }
  if (!getenv("SIM_STDERR")) { int fd = open("/dev/null", O_RDWR); (void)fd; }
  std::string rs;
  if (!replay.empty()) { rs = slurp(replay.c_str()); if (rs.empty()) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 4; } prop = parse_str(rs, "property"); }
  H = sim_harness(prop);
  if (!H) { fprintf(stderr, "no harness for property %s\n", prop.c_str()); return 4; }
  H->init();
  if (!replay.empty()) {
    Program p; std::vector<Choice> ch;
    for (auto &v : parse_arrs(find_key(rs, "hdr"))) p.hdr.push_back(v[0]);
    for (auto &v : parse_arrs(find_key(rs, "ops"))) { Op o; o.id = (int)v[0]; o.thr = (int)v[1]; o.a.assign(v.begin() + 2, v.end()); p.ops.push_back(o); }
    for (auto &v : parse_arrs(find_key(rs, "choices"))) ch.push_back(Choice{(int)v[0], (int)v[1], (int)v[2], (int)v[3], (int)v[4]});
    uint64_t sd = strtoull(find_key(rs, "seed"), 0, 10);
    std::string want = parse_str(rs, "class"), wh = parse_str(rs, "hash");
    g_verbose = true;
    Result r = exec(p, true, &ch, sd);
    char hb[20]; snprintf(hb, 20, "%016llx", (unsigned long long)r.hash);
    printf("%s\nresult: status=%d class=%s hash=%s (recorded class=%s hash=%s)\n%s\n", S->trace, r.status, r.cls.c_str(), hb, want.c_str(), wh.c_str(), r.msg.c_str());
    if (r.status == 2 && r.cls == want && wh == hb) { printf("REPRODUCED\n"); return 1; }
    if (r.status == 2) { printf("DIFFERENT\n"); return 5; }
    printf("NOT REPRODUCED\n"); return 0;
  }
  FILE *hf = hashes.empty() ? nullptr : fopen(hashes.c_str(), "wb");
  double t0 = now_s(); long done = 0, nontriv = 0, steps = 0, switches = 0, simtime = 0, det = 0, knownhits = 0; 
  std::map<std::string, long> ctr, ctr_runs; std::map<std::string, std::string> knownmsg; std::vector<std::string> samples;
  int rc = 0; std::string vcls, vmsg; bool timed_out = false;
  long idx = first; int flaky = 0;
  for (long n = 0; n < runs; n++, idx += stride) {
    if (now_s() - t0 > maxs) { timed_out = true; break; }
    Rng mixr(seed * 0x9E3779B97F4A7C15ULL + (uint64_t)idx * 0xD1342543DE82EF95ULL); uint64_t rseed = mixr.next();
    rseed >>= 1;
    Rng gr(rseed); Program p; H->generate(gr, p);
    if (dump) g_verbose = true;
    Result r = exec(p, false, nullptr, rseed);
    if (dump) printf("--- idx %ld seed %llu\n%s\n%s status=%d %s %s hash=%016llx steps=%ld ch=%zu\n", idx, (unsigned long long)rseed, H->describe(p).c_str(), S->trace, r.status, r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash, r.steps, r.ch.size());
    done++; steps += r.steps; switches += r.switches; simtime += S->simtime; nontriv += S->nontriv;
    for (int i = 0; i < MAXCTR && S->ctr[i].name[0]; i++) { ctr[S->ctr[i].name] += S->ctr[i].n; if (S->ctr[i].n) ctr_runs[S->ctr[i].name]++; }
    if (hf) { uint64_t rec[2] = {r.hash, (uint64_t)S->nontriv | ((uint64_t)S->nstates << 8)}; fwrite(rec, 16, 1, hf); fwrite(S->states, 8, S->nstates, hf); }
    if (samples.size() < 2 && S->nontriv && (n % 7) == 0) samples.push_back("run " + std::to_string(idx) + ": " + H->describe(p) + " || choices " + ch_json(std::vector<Choice>(r.ch.begin(), r.ch.begin() + std::min<size_t>(r.ch.size(), 24))));
    if (S->overflow && r.status != 2) { fprintf(stderr, "choice log overflow at index %ld\n", idx); return 4; }
    if (det_every && r.status != 2 && n % det_every == 0) {
      Result r2 = exec(p, false, nullptr, rseed); det++;
      if (r2.hash != r.hash || r2.status != r.status) { fprintf(stderr, "NONDETERMINISM property %s index %ld: %016llx/%d vs %016llx/%d\n", prop.c_str(), idx, (unsigned long long)r.hash, r.status, (unsigned long long)r2.hash, r2.status); if (++flaky > 20) return 3; }
    }
    if (r.status == 2) {
      // gate: same seed again, then the explicit choice list must give the same violation
      Result r2 = exec(p, false, nullptr, rseed);
      if (r2.status != 2 || r2.cls != r.cls || r2.hash != r.hash) { fprintf(stderr, "NONDETERMINISM at index %ld: violation %s (%s) did not repeat (%d %s)\n", idx, r.cls.c_str(), r.msg.c_str(), r2.status, r2.cls.c_str()); if (++flaky > 20) return 3; continue; }
      if (known.count(r.cls)) { knownhits++; knownmsg[r.cls] = r.msg; continue; }
      std::vector<Choice> ch = r.ch;
      Result r3 = exec(p, true, &ch, rseed);
      if (r3.status != 2 || r3.cls != r.cls) { fprintf(stderr, "REPLAY-MISMATCH at index %ld: %s (%s) -> %d %s %s\n", idx, r.cls.c_str(), r.msg.c_str(), r3.status, r3.cls.c_str(), r3.msg.c_str()); if (++flaky > 20) return 3; continue; }
      const Program p0 = p; const std::vector<Choice> chf = ch;
      size_t o0 = p.ops.size(), c0 = ch.size();
      minimise(p, ch, r.cls, rseed, minb);
      g_verbose = true;
      Result rf = exec(p, true, &ch, rseed);
      if (rf.status != 2 || rf.cls != r.cls) { p = p0; ch = chf; rf = exec(p, true, &ch, rseed); }   // the run as found
      if (rf.status != 2 || rf.cls != r.cls) { if (!replay_out.empty()) write_replay(replay_out.c_str(), prop.c_str(), p, ch, rf, rseed, idx, o0, c0); fprintf(stderr, "minimised run does not fail\n"); return 3; }
      if (!replay_out.empty()) write_replay(replay_out.c_str(), prop.c_str(), p, ch, rf, rseed, idx, o0, c0);
      vcls = rf.cls; vmsg = rf.msg; rc = 1; break;
    }
  }
  if (!rc && flaky) { fprintf(stderr, "%d runs did not repeat\n", flaky); return 3; }
  double wall = now_s() - t0;
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w"); if (!f) { perror("out"); return 4; }
  fprintf(f, "{\"runs\":%ld,\"nontrivial\":%ld,\"steps\":%ld,\"switches\":%ld,\"simtime_ns\":%ld,\"det_checked\":%ld,\"wall_s\":%.3f,\"timed_out\":%s,\"known_hits\":%ld,", done, nontriv, steps, switches, simtime, det, wall, timed_out ? "true" : "false", knownhits);
  fprintf(f, "\"counters\":{"); bool c1 = false; for (auto &c : ctr) { fprintf(f, "%s\"%s\":[%ld,%ld]", c1 ? "," : "", jesc(c.first).c_str(), c.second, ctr_runs[c.first]); c1 = true; }
  fprintf(f, "},\"known\":{"); c1 = false; for (auto &c : knownmsg) { fprintf(f, "%s\"%s\":\"%s\"", c1 ? "," : "", jesc(c.first).c_str(), jesc(c.second).c_str()); c1 = true; }
  fprintf(f, "},\"samples\":["); c1 = false; for (auto &s : samples) { fprintf(f, "%s\"%s\"", c1 ? "," : "", jesc(s).c_str()); c1 = true; }
  fprintf(f, "],\"violation\":"); if (rc) fprintf(f, "{\"class\":\"%s\",\"message\":\"%s\",\"index\":%ld,\"replay\":\"%s\"}", jesc(vcls).c_str(), jesc(vmsg).c_str(), idx, jesc(replay_out).c_str()); else fprintf(f, "null");
  fprintf(f, "}\n"); if (f != stdout) fclose(f);
  if (hf) fclose(hf);
  return rc;
}
