// Deterministic simulation core: one PRNG decides everything that happens in a
// run; every decision is recorded on a tape, and a run is a pure function of
// its tape and of the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- tape
// Decisions are split in streams so that dropping one (say, a preemption) while
// minimising leaves the others aligned.
enum Stream { S_CFG, S_PROB, S_OPS, S_FAULT, S_SCHED, S_DATA, NSTREAM };
extern const char *const stream_names[NSTREAM];

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};

struct Tape {
  std::vector<uint32_t> v[NSTREAM];
  size_t pos[NSTREAM] = {};
  Rng rng[NSTREAM];
  bool replaying = false;
  // simplest value is always 0
  uint32_t choose(Stream s, uint32_t n);
  void rewind() { memset(pos, 0, sizeof pos); }
  void trim(); // forget what the run did not consume
};

// ---------------------------------------------------------------- violations
struct Violation {
  std::string cls;    // stable: what minimisation preserves
  std::string detail; // human readable
};

// ---------------------------------------------------------------- faults
enum FaultKind {
  F_NONE,
  F_EXC_RUNTIME,  // std::runtime_error-derived, thrown by a user function
  F_EXC_OTHER,    // exception not derived from std::exception
  F_EXC_LOGIC,    // std::exception-derived but not a runtime_error
  F_NAN,          // user function returns NaN
  F_INF,          // user function returns +/-inf
  F_NAN_ONE,      // one entry of the output is NaN
  F_CB_THROW,     // a callback throws
  F_ALLOC,        // an allocation fails
  F_SINK,         // a write to the output stream fails
  F_ABANDON,      // the solver is destroyed / re-setup mid-history
  F_PREEMPT,      // the running task is preempted
  F_DIRTY_HEAP,   // fresh memory holds garbage
  F_REENTER,      // a user function / callback runs another solver (nesting)
  F_LIE,          // user function returns finite garbage
  NFAULT
};
extern const char *const fault_names[NFAULT];

enum Site {
  SITE_COST_CALL,
  SITE_COST_GRAD,
  SITE_COST_HESS,
  SITE_FN_CALL,
  SITE_FN_JAC,
  SITE_FN_VHP,
  SITE_INTEGRATE,
  SITE_DIFFERENCE,
  SITE_CALLBACK,
  SITE_SET,
  SITE_OTHER,
  NSITE
};
extern const char *const site_names[NSITE];

struct Fault {
  FaultKind kind = F_NONE;
  long at = -1;     // index in the task's sequence of evaluations (any site)
  long repeat = 1;  // fires on this many consecutive evaluations
  uint32_t arg = 0; // which entry, sign...
  bool fired = false;
};

// exceptions injected by the simulator carry an id so that the oracle can tell
// that exactly this object came out of the library
struct InjRuntime : std::runtime_error {
  int id;
  explicit InjRuntime(int id)
      : std::runtime_error("injected runtime_error"), id(id) {}
};
struct InjLogic : std::logic_error {
  int id;
  explicit InjLogic(int id)
      : std::logic_error("injected logic_error"), id(id) {}
};
struct InjOther {
  int id;
};

// ---------------------------------------------------------------- tasks
struct Task {
  int id = 0;
  long evals = 0; // seams crossed so far
  long site_count[NSITE] = {};
  std::vector<Fault> faults;
  std::vector<uint8_t> history; // site of each evaluation (bounded)
  bool record_sites = false;
  // hook called at every seam (nested workload, extra invariants)
  std::function<void(Site, long)> on_seam;
  // hook called when a fault is about to hit that seam
  std::function<void(Site, long, const Fault &)> on_fault;
  const double *sx = nullptr; // the point the user function is evaluated at
  long sn = 0;
};

// What a user function must do at this evaluation.
struct Action {
  FaultKind kind = F_NONE;
  uint32_t arg = 0;
};

Task *cur_task();
void set_cur_task(Task *);

// Cross a seam: counts the evaluation, may yield to another task, may throw an
// injected exception; returns a value fault for the caller to apply.
Action seam(Site s, const double *x = nullptr, long n = 0);

// ---------------------------------------------------------------- scheduler
// Client tasks are real threads, parked and released one at a time. The tape
// decides who runs and for how many basic blocks of the code under test.
struct Sched {
  struct Impl;
  std::unique_ptr<Impl> impl;
  Sched();
  ~Sched();
  Task &spawn(std::function<void()> body);
  void run(); // to completion of every task; rethrows nothing
  size_t switches() const;
  std::exception_ptr error(size_t i) const;
};

// ---------------------------------------------------------------- allocator
struct AllocScope { // allocations made by this thread are counted/tracked
  AllocScope();
  ~AllocScope();
  long count() const; // allocations so far in the scope
  long live() const;  // still not released
  // fail the k-th (0-based) allocation in the scope; k<0: none.
  void fail_at(long k, long repeat = 1);
  bool fired() const;
  void pause();
  void resume();
};
struct AllocPause { // harness bookkeeping is not part of the workload
  bool was;
  AllocPause();
  ~AllocPause();
};
void set_heap_fill(int byte); // -1: leave alone

// ---------------------------------------------------------------- stdout sink
struct Sink {
  FILE *saved = nullptr, *mine = nullptr;
  std::string data;
  long writes = 0;
  long fail_at = -1; // index of the write that fails
  long fail_repeat = 1;
  bool fired = false;
  Sink();
  ~Sink();
};

// ---------------------------------------------------------------- run context
struct Ctx {
  uint64_t seed = 0;
  std::string prop;
  bool thorough = false;
  Tape tape;
  uint64_t hash = 1469598103934665603ull; // event log digest
  uint64_t shape = 1469598103934665603ull; // digest of decisions that matter
  bool tracing = false;
  std::vector<std::string> trace;
  std::vector<uint64_t> after; // seeds run earlier in this process
  bool nontrivial = false;
  uint64_t ticks0 = 0;

  uint32_t choose(Stream s, uint32_t n) { return tape.choose(s, n); }
  // true with probability num/den, "false" being the simple outcome
  bool chance(Stream s, uint32_t num, uint32_t den) {
    return choose(s, den) >= den - num;
  }
  int range(Stream s, int lo, int hi) { // lo is the simple value
    return lo + (int)choose(s, (uint32_t)(hi - lo + 1));
  }
  // value on a grid in [-lim, lim]; 0 is the simple value
  double real(Stream s, double lim);
  double pos(Stream s, double lo, double hi);

  void h(uint64_t x) {
    for (int i = 0; i < 8; i++) {
      hash ^= (x >> (8 * i)) & 0xff;
      hash *= 1099511628211ull;
    }
  }
  void hd(double x) {
    uint64_t u;
    if (x != x)
      u = 0x7ff8000000000000ull; // NaN payloads are not observable
    else
      memcpy(&u, &x, 8);
    h(u);
  }
  void hs(const std::string &s) {
    for (char c : s)
      h((unsigned char)c);
  }
  void sh(uint64_t x) {
    shape ^= x + 0x9e3779b97f4a7c15ull + (shape << 6) + (shape >> 2);
  }
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const std::string &cls, const char *fmt, ...)
      __attribute__((format(printf, 3, 4)));
};
extern Ctx *g;

// ---------------------------------------------------------------- statistics
// in memory shared by the processes that execute runs
struct Stats {
  long fault_fired[NFAULT];
  long site[NSITE];
  struct {
    char name[56];
    long n;
  } probe[96];
  uint64_t ticks;
  long switches;
};
extern Stats &stats;
void probe(const char *name, long by = 1);
void fired(FaultKind k);
uint64_t ticks();
long edges_hit();
long edges_total();

// a scenario: runs once, throws Violation when the property is broken
using Scenario = void (*)(Ctx &);
struct Registered {
  const char *prop;
  Scenario fn;
  const char *rule;
  // every run in a process in which nothing ran before, at a cost; otherwise
  // processes execute a batch of runs after a warm-up
  bool pristine = false;
};
extern Registered the_scenario; // each binary holds one property

// Runs f in a forked copy of this process and returns what it returned; f must
// not consume the tape.
std::string isolated(const std::function<std::string()> &f);

int sim_main(int argc, char **argv);

// sensible comparison of doubles for bitwise-equality oracles
inline bool same_bits(double a, double b) {
  if (a != a && b != b)
    return true;
  uint64_t x, y;
  memcpy(&x, &a, 8);
  memcpy(&y, &b, 8);
  return x == y;
}
} // namespace sim
