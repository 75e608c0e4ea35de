#include "core.hpp"
#include <atomic>
#include <cerrno>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstdlib>
#include <mutex>
#include <new>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real___cxa_guard_acquire(void *);
void __real___cxa_guard_release(void *);
void __real___cxa_guard_abort(void *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
}

namespace sim {

const char *const stream_names[NSTREAM] = {"cfg",   "prob",  "ops",
                                           "fault", "sched", "data"};
const char *const fault_names[NFAULT] = {
    "none",           "user_throws_runtime_error", "user_throws_foreign_type",
    "user_throws_logic_error", "user_returns_nan", "user_returns_inf",
    "user_returns_one_nan",    "callback_throws",  "allocation_fails",
    "output_write_fails",      "solve_abandoned",  "task_preempted",
    "dirty_heap",              "reentrant_solve", "user_returns_garbage"};
const char *const site_names[NSITE] = {
    "cost_value", "cost_gradient", "cost_hessian", "fn_value",
    "fn_jacobian", "fn_vhp",       "integrate",    "difference",
    "callback",  "constraint_set", "other"};

Ctx *g = nullptr;
template <class T> static T *shared_new() {
  void *p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
    abort();
  return (T *)p;
}
Stats &stats = *shared_new<Stats>();

void probe(const char *name, long by) {
  for (auto &q : stats.probe) {
    if (!q.name[0])
      strncpy(q.name, name, sizeof q.name - 1);
    if (!strncmp(q.name, name, sizeof q.name - 1)) {
      q.n += by;
      return;
    }
  }
}
void fired(FaultKind k) { stats.fault_fired[k]++; }

// ------------------------------------------------------------------- tape
uint32_t Tape::choose(Stream s, uint32_t n) {
  AllocPause p;
  if (n <= 1)
    return 0;
  auto &t = v[s];
  size_t &i = pos[s];
  uint32_t r;
  if (i < t.size()) {
    r = t[i] % n;
  } else if (replaying) {
    r = 0;
    t.push_back(0);
  } else {
    r = (uint32_t)((rng[s].next() >> 11) % n);
    t.push_back(r);
  }
  i++;
  return r;
}
void Tape::trim() {
  for (int s = 0; s < NSTREAM; s++)
    v[s].resize(pos[s]);
}

double Ctx::real(Stream s, double lim) {
  // 0, small multiples of lim/8, then a fine grid; both signs
  uint32_t k = choose(s, 4);
  if (k == 0) {
    int q = (int)choose(s, 17);
    int z = (q + 1) / 2 * ((q & 1) ? 1 : -1);
    return lim * z / 8.;
  }
  uint32_t a = choose(s, 1u << 20);
  double u = a / double(1u << 20);
  return (choose(s, 2) ? -u : u) * lim;
}
double Ctx::pos(Stream s, double lo, double hi) {
  uint32_t a = choose(s, 1u << 12);
  return lo + (hi - lo) * (a / double((1u << 12) - 1));
}

void Ctx::log(const char *fmt, ...) {
  AllocPause p;
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  for (char *c = buf; *c; c++) {
    hash ^= (unsigned char)*c;
    hash *= 1099511628211ull;
  }
  if (tracing && trace.size() < 4000)
    trace.emplace_back(buf);
}
void Ctx::fail(const std::string &cls, const char *fmt, ...) {
  AllocPause p;
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Violation{cls, buf};
}

// ------------------------------------------------------------------- ticks
static uint64_t g_ticks = 0, g_tick_limit = 0;
static uint32_t g_nguards = 0;
static uint8_t *g_edge = nullptr;
uint64_t ticks() { return g_ticks; }
long edges_hit() {
  long n = 0;
  for (uint32_t i = 1; i <= g_nguards; i++)
    n += g_edge[i];
  return n;
}
long edges_total() { return g_nguards; }

static thread_local Task *tl_task = nullptr;
Task *cur_task() { return tl_task; }
void set_cur_task(Task *t) { tl_task = t; }

struct TaskImpl;
static thread_local TaskImpl *tl_impl = nullptr;
static thread_local long tl_slice = 0;   // basic blocks left before preemption
static thread_local int tl_nopreempt = 0; // inside guarded regions
static void do_yield();
static void hang_exit();

// ------------------------------------------------------------- allocations
struct PtrSet { // open addressing, memory from the real malloc
  void **tab = nullptr;
  size_t cap = 0, n = 0, used = 0;
  static size_t hsh(void *p) {
    uint64_t x = (uint64_t)p;
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdull;
    x ^= x >> 33;
    return x;
  }
  static void *tomb() { return (void *)1; }
  void grow() {
    size_t nc = cap ? cap * 2 : 1024;
    void **nt = (void **)__real_calloc(nc, sizeof(void *));
    for (size_t i = 0; i < cap; i++)
      if (tab[i] > tomb()) {
        size_t j = hsh(tab[i]) & (nc - 1);
        while (nt[j])
          j = (j + 1) & (nc - 1);
        nt[j] = tab[i];
      }
    __real_free(tab);
    tab = nt;
    cap = nc;
    used = n;
  }
  void insert(void *p) {
    if ((used + 1) * 2 > cap)
      grow();
    size_t j = hsh(p) & (cap - 1);
    while (tab[j] > tomb())
      j = (j + 1) & (cap - 1);
    if (!tab[j])
      used++;
    tab[j] = p;
    n++;
  }
  bool erase(void *p) {
    if (!n)
      return false;
    size_t j = hsh(p) & (cap - 1);
    while (tab[j]) {
      if (tab[j] == p) {
        tab[j] = tomb();
        n--;
        return true;
      }
      j = (j + 1) & (cap - 1);
    }
    return false;
  }
  void clear() {
    __real_free(tab);
    tab = nullptr;
    cap = n = used = 0;
  }
};

struct AllocState {
  bool active = false, paused = false, fired = false;
  long count = 0, fail_at = -1, fail_repeat = 0;
  PtrSet live;
};
static AllocState A; // tasks are serialised: one scope at a time
static pthread_t A_owner;
static int g_fill = -1;
void set_heap_fill(int b) { g_fill = b; }

static inline bool alloc_event() { // true: this allocation must fail
  if (A.active && !A.paused && pthread_equal(A_owner, pthread_self())) {
    long k = A.count++;
    if (A.fail_at >= 0 && k >= A.fail_at && k < A.fail_at + A.fail_repeat) {
      A.fired = true;
      stats.fault_fired[F_ALLOC]++;
      return true;
    }
  }
  return false;
}
static inline void alloc_done(void *p, size_t n) {
  if (!p)
    return;
  if (g_fill >= 0)
    memset(p, g_fill, n > 65536 ? 65536 : n);
  if (A.active && !A.paused && pthread_equal(A_owner, pthread_self()))
    A.live.insert(p);
}
static inline void free_event(void *p) {
  if (p && A.live.n)
    A.live.erase(p);
}

AllocScope::AllocScope() {
  A.live.clear();
  A.count = 0;
  A.fail_at = -1;
  A.fired = false;
  A.paused = false;
  A_owner = pthread_self();
  A.active = true;
}
AllocScope::~AllocScope() {
  A.active = false;
  A.live.clear();
}
long AllocScope::count() const { return A.count; }
long AllocScope::live() const { return (long)A.live.n; }
void AllocScope::fail_at(long k, long rep) {
  A.fail_at = k < 0 ? -1 : A.count + k;
  A.fail_repeat = rep;
  A.fired = false;
}
bool AllocScope::fired() const { return A.fired; }
void AllocScope::pause() { A.paused = true; }
void AllocScope::resume() { A.paused = false; }
AllocPause::AllocPause() : was(A.paused) { A.paused = true; }
AllocPause::~AllocPause() { A.paused = was; }

// -------------------------------------------------------------- scheduler
struct TaskImpl {
  Task task;
  std::function<void()> body;
  std::thread th;
  std::condition_variable cv;
  bool go = false, done = false;
  std::exception_ptr err;
  Sched::Impl *owner = nullptr;
  long slice = 0;
};
struct Sched::Impl {
  std::mutex m;
  std::condition_variable main_cv;
  bool main_go = false;
  std::vector<std::unique_ptr<TaskImpl>> tasks;
  size_t nswitch = 0;
};
Sched::Sched() : impl(new Impl) {}
Sched::~Sched() {}
size_t Sched::switches() const { return impl->nswitch; }
std::exception_ptr Sched::error(size_t i) const { return impl->tasks[i]->err; }

Task &Sched::spawn(std::function<void()> body) {
  impl->tasks.emplace_back(new TaskImpl);
  TaskImpl &t = *impl->tasks.back();
  t.task.id = (int)impl->tasks.size() - 1;
  t.body = std::move(body);
  t.owner = impl.get();
  return t.task;
}

// control goes back to the simulator, which decides who runs next
static void do_yield() {
  TaskImpl *t = tl_impl;
  tl_nopreempt++;
  {
    std::unique_lock<std::mutex> lk(t->owner->m);
    t->go = false;
    t->owner->main_go = true;
    t->owner->main_cv.notify_one();
    t->cv.wait(lk, [&] { return t->go; });
    tl_slice = t->slice;
  }
  tl_nopreempt--;
}

void Sched::run() {
  Impl &im = *impl;
  for (auto &up : im.tasks) {
    TaskImpl *t = up.get();
    t->th = std::thread([t] {
      tl_nopreempt++;
      {
        std::unique_lock<std::mutex> lk(t->owner->m);
        t->cv.wait(lk, [&] { return t->go; });
        tl_slice = t->slice;
      }
      tl_impl = t;
      tl_task = &t->task;
      tl_nopreempt--;
      try {
        t->body();
      } catch (...) {
        t->err = std::current_exception();
      }
      tl_nopreempt++;
      tl_impl = nullptr;
      std::unique_lock<std::mutex> lk(t->owner->m);
      t->done = true;
      t->owner->main_go = true;
      t->owner->main_cv.notify_one();
    });
  }
  int last = -1;
  for (;;) {
    std::vector<TaskImpl *> ready;
    for (auto &t : im.tasks)
      if (!t->done)
        ready.push_back(t.get());
    if (ready.empty())
      break;
    // who: 0 keeps the current task running if it can
    TaskImpl *t = nullptr;
    uint32_t k = g->choose(S_SCHED, (uint32_t)ready.size());
    size_t base = 0;
    for (size_t i = 0; i < ready.size(); i++)
      if (ready[i]->task.id == last)
        base = i;
    t = ready[(base + k) % ready.size()];
    // how long: 0 runs to completion
    uint32_t mag = im.nswitch > 300 ? 0 : g->choose(S_SCHED, 18);
    long slice = 0;
    if (mag > 0 && ready.size() > 1)
      slice = 1 + (long)g->choose(S_SCHED, 1u << mag);
    t->slice = slice;
    if (last >= 0 && last != t->task.id) {
      im.nswitch++;
      stats.switches++;
      stats.fault_fired[F_PREEMPT]++;
    }
    g->sh(t->task.id * 1000003ull + (uint64_t)t->task.evals);
    last = t->task.id;
    {
      std::unique_lock<std::mutex> lk(im.m);
      im.main_go = false;
      t->go = true;
      t->cv.notify_one();
      im.main_cv.wait(lk, [&] { return im.main_go; });
    }
  }
  for (auto &t : im.tasks)
    t->th.join();
}

// ------------------------------------------------------------------- seam
Action seam(Site s, const double *x, long n) {
  Task *t = tl_task;
  if (!t)
    return {};
  AllocPause p;
  t->sx = x;
  t->sn = n;
  long k = t->evals++;
  t->site_count[s]++;
  stats.site[s]++;
  if (t->record_sites && t->history.size() < 200000)
    t->history.push_back((uint8_t)s);
  if (t->on_seam) {
    auto f = t->on_seam;
    f(s, k);
  }
  for (Fault &f : t->faults) {
    if (f.kind == F_NONE || k < f.at || k >= f.at + f.repeat)
      continue;
    bool cb = (s == SITE_CALLBACK);
    if (t->on_fault && !(cb && (f.kind == F_NAN || f.kind == F_INF ||
                                f.kind == F_NAN_ONE || f.kind == F_LIE)) &&
        !(!cb && f.kind == F_CB_THROW))
      t->on_fault(s, k, f);
    switch (f.kind) {
    case F_CB_THROW:
      if (!cb)
        continue;
      f.fired = true;
      fired(F_CB_THROW);
      g->log("fault cb_throw task %d eval %ld", t->id, k);
      throw InjRuntime((int)f.arg);
    case F_EXC_RUNTIME:
      f.fired = true;
      fired(cb ? F_CB_THROW : f.kind);
      g->log("fault runtime_error task %d eval %ld %s", t->id, k,
             site_names[s]);
      throw InjRuntime((int)f.arg);
    case F_EXC_LOGIC:
      f.fired = true;
      fired(cb ? F_CB_THROW : f.kind);
      g->log("fault logic_error task %d eval %ld %s", t->id, k, site_names[s]);
      throw InjLogic((int)f.arg);
    case F_EXC_OTHER:
      f.fired = true;
      fired(cb ? F_CB_THROW : f.kind);
      g->log("fault foreign task %d eval %ld %s", t->id, k, site_names[s]);
      throw InjOther{(int)f.arg};
    case F_NAN:
    case F_INF:
    case F_NAN_ONE:
    case F_LIE:
      if (cb)
        continue;
      f.fired = true;
      fired(f.kind);
      g->log("fault %s task %d eval %ld %s", fault_names[f.kind], t->id, k,
             site_names[s]);
      if (f.kind == F_LIE) // a different lie every time
        return {f.kind, ((f.arg * 2654435761u ^ (uint32_t)k * 2246822519u) &
                         0x07ffffffu) |
                            (f.arg & 0xf8000000u)}; // the size is kept
      return {f.kind, f.arg};
    default:
      continue;
    }
  }
  return {};
}

// ------------------------------------------------------------------- sink
static ssize_t sink_write(void *c, const char *buf, size_t n) {
  Sink *s = (Sink *)c;
  AllocPause p;
  long k = s->writes++;
  if (s->fail_at >= 0 && k >= s->fail_at && k < s->fail_at + s->fail_repeat) {
    s->fired = true;
    fired(F_SINK);
    errno = ENOSPC;
    return 0;
  }
  // the stream is locked: nobody else may run until it is released
  tl_nopreempt++;
  s->data.append(buf, n);
  tl_nopreempt--;
  return (ssize_t)n;
}
Sink::Sink() {
  AllocPause p;
  cookie_io_functions_t io{};
  io.write = sink_write;
  saved = stdout;
  mine = fopencookie(this, "w", io);
  setvbuf(mine, nullptr, _IONBF, 0);
  stdout = mine;
}
Sink::~Sink() {
  AllocPause p;
  stdout = saved;
  fclose(mine);
}

// -------------------------------------------------------------- processes
static std::string g_crash_file; // where a dying run leaves its tape
static char g_crash_cls[64] = "crash";
static int g_dump_fd = -1;

static void wr(int fd, const char *s) {
  ssize_t r = write(fd, s, strlen(s));
  (void)r;
}
static void wr_num(int fd, uint64_t x) {
  char b[24];
  int i = 24;
  b[--i] = 0;
  do {
    b[--i] = char('0' + x % 10);
    x /= 10;
  } while (x);
  wr(fd, b + i);
}
static void dump_tape(int fd, const Tape &t) {
  for (int s = 0; s < NSTREAM; s++) {
    wr(fd, "stream ");
    wr(fd, stream_names[s]);
    for (size_t i = 0; i < t.pos[s] && i < t.v[s].size(); i++) {
      wr(fd, " ");
      wr_num(fd, t.v[s][i]);
    }
    wr(fd, "\n");
  }
}
static void dump_violation(int fd, const Ctx &c, const char *cls,
                           const char *detail) {
  wr(fd, "property ");
  wr(fd, c.prop.c_str());
  wr(fd, "\nseed ");
  wr_num(fd, c.seed);
  wr(fd, "\nthorough ");
  wr_num(fd, c.thorough);
  wr(fd, "\nclass ");
  wr(fd, cls);
  wr(fd, "\nhash ");
  wr_num(fd, c.hash);
  if (!c.after.empty()) {
    wr(fd, "\nafter");
    for (uint64_t s : c.after) {
      wr(fd, " ");
      wr_num(fd, s);
    }
  }
  wr(fd, "\n");
  dump_tape(fd, c.tape);
  wr(fd, "detail ");
  // one line
  std::string d(detail);
  for (char &ch : d)
    if (ch == '\n')
      ch = ' ';
  wr(fd, d.c_str());
  wr(fd, "\n");
  for (auto &l : c.trace) {
    wr(fd, "trace ");
    std::string t = l;
    for (char &ch : t)
      if (ch == '\n')
        ch = ' ';
    wr(fd, t.c_str());
    wr(fd, "\n");
  }
}
static void on_death() {
  static bool once = false;
  if (once)
    return;
  once = true;
  A.paused = true;
  A.active = false;
  if (g && !g_crash_file.empty()) {
    int fd = open(g_crash_file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) {
      dump_violation(fd, *g, g_crash_cls, "the process died (see stderr)");
      close(fd);
    }
  }
}
static void on_abort(int) {
  if (!strcmp(g_crash_cls, "crash"))
    strcpy(g_crash_cls, "crash/abort");
  on_death();
  _exit(98);
}
static void on_hang(int) {
  strcpy(g_crash_cls, "hang");
  on_death();
  _exit(98);
}
static void on_terminate() {
  strcpy(g_crash_cls, "crash/terminate");
  abort();
}
static void hang_exit() {
  strcpy(g_crash_cls, "hang");
  on_death();
  fprintf(stderr, "simulated step budget exceeded\n");
  _exit(97);
}

static uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ull + b * 0xbf58476d1ce4e5b9ull + 12345);
  r.next();
  return r.next();
}

static void seed_tape(Ctx &c, uint64_t seed) {
  c.seed = seed;
  for (int s = 0; s < NSTREAM; s++)
    c.tape.rng[s] = Rng(mix(c.seed, (uint64_t)s + 77));
}

static void seed_tape(Ctx &c, uint64_t vseed, uint64_t index) {
  uint64_t p = 0;
  for (char ch : c.prop)
    p = p * 131 + (unsigned char)ch;
  seed_tape(c, mix(mix(vseed, p), index));
}

struct RunResult {
  bool violated = false;
  Violation v;
};

static RunResult run_once(Ctx &c) {
  RunResult r;
  g = &c;
  c.tape.rewind();
  Task main_task;
  main_task.id = 1000;
  tl_task = &main_task;
  tl_nopreempt = 0;
  tl_slice = 0;
  g_fill = 0;
  g_ticks = 0;
  g_tick_limit = 600000000ull;
  c.ticks0 = 0;
  try {
    the_scenario.fn(c);
  } catch (Violation &v) {
    r.violated = true;
    r.v = v;
  } catch (std::exception &e) {
    r.violated = true;
    r.v = {"harness/unexpected-exception", e.what()};
  }
  A.active = false;
  A.paused = false;
  A.live.clear();
  g_fill = -1;
  tl_task = nullptr;
  stats.ticks += g_ticks;
  c.tape.trim();
  return r;
}

// Puts a fresh process in the state in which a run starts: lazily initialised
// statics of the standard library and fmt, and whatever runs came earlier.
static void prepare(const Ctx &c) {
  if (the_scenario.pristine)
    return;
  std::string keep = g_crash_file;
  Stats saved = stats;
  {
    Ctx w;
    w.prop = c.prop;
    w.tape.replaying = true;
    run_once(w);
  }
  for (uint64_t s : c.after) {
    Ctx w;
    w.prop = c.prop;
    w.thorough = c.thorough;
    seed_tape(w, s);
    run_once(w);
  }
  stats = saved;
  g = nullptr;
}

static bool load_replay(const char *path, Ctx &c, std::string &cls,
                        uint64_t &hash) {
  FILE *f = fopen(path, "r");
  if (!f)
    return false;
  char *line = nullptr;
  size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    std::string s(line);
    while (!s.empty() && (s.back() == '\n'))
      s.pop_back();
    size_t sp = s.find(' ');
    if (sp == std::string::npos)
      continue;
    std::string k = s.substr(0, sp), v = s.substr(sp + 1);
    if (k == "property")
      c.prop = v;
    else if (k == "seed")
      c.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "thorough")
      c.thorough = atoi(v.c_str());
    else if (k == "class")
      cls = v;
    else if (k == "hash")
      hash = strtoull(v.c_str(), nullptr, 10);
    else if (k == "after") {
      char *q = v.data(), *e;
      for (;; q = e) {
        unsigned long long x = strtoull(q, &e, 10);
        if (e == q)
          break;
        c.after.push_back(x);
      }
    } else if (k == "stream") {
      char *p = v.data();
      char *q = strchr(p, ' ');
      std::string name = q ? std::string(p, q) : std::string(p);
      for (int i = 0; i < NSTREAM; i++)
        if (name == stream_names[i]) {
          c.tape.v[i].clear();
          while (q) {
            char *e;
            unsigned long x = strtoul(q, &e, 10);
            if (e == q)
              break;
            c.tape.v[i].push_back((uint32_t)x);
            q = e;
          }
        }
    }
  }
  free(line);
  fclose(f);
  c.tape.replaying = true;
  return true;
}

std::string isolated(const std::function<std::string()> &f) {
  AllocPause ap;
  int fd[2];
  if (pipe(fd))
    abort();
  pid_t pid = fork();
  if (pid < 0)
    abort();
  if (pid == 0) {
    close(fd[0]);
    alarm(60);
    std::string out = f();
    stats.ticks += g_ticks;
    for (size_t o = 0; o < out.size();) {
      ssize_t r = write(fd[1], out.data() + o, out.size() - o);
      if (r <= 0)
        _exit(1);
      o += (size_t)r;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string in;
  char buf[8192];
  ssize_t r;
  while ((r = read(fd[0], buf, sizeof buf)) > 0)
    in.append(buf, (size_t)r);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    if (WIFSIGNALED(st)) {
      strcpy(g_crash_cls, "crash/signal");
      on_death();
    }
    _exit(98); // the child has left its tape
  }
  return in;
}

// run the tape in a child; returns the class it ends with ("" = no violation)
struct Trial {
  std::string cls;
  uint64_t hash = 0;
  std::vector<uint32_t> v[NSTREAM];
};
static Trial trial(const Ctx &proto, const std::string &tmp, bool trace,
                   const char *out) {
  unlink(tmp.c_str());
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    if (!trace) {
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      dup2(dn, 2);
    }
    alarm(60);
    prepare(proto);
    g_crash_file = tmp;
    Ctx c = proto;
    c.tracing = trace;
    c.hash = Ctx().hash;
    c.trace.clear();
    RunResult r = run_once(c);
    int fd = open(tmp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dump_violation(fd, c, r.violated ? r.v.cls.c_str() : "-",
                   r.v.detail.c_str());
    close(fd);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Trial t;
  Ctx c;
  std::string cls;
  uint64_t h = 0;
  if (load_replay(tmp.c_str(), c, cls, h)) {
    t.cls = cls == "-" ? "" : cls;
    t.hash = h;
    for (int s = 0; s < NSTREAM; s++)
      t.v[s] = c.tape.v[s];
    if (out)
      rename(tmp.c_str(), out);
  } else {
    t.cls = WIFSIGNALED(st) ? "crash/signal" : "crash/unknown";
  }
  unlink(tmp.c_str());
  return t;
}

static double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

static int minimise(const char *in, const char *out, double budget) {
  Ctx c;
  std::string cls;
  uint64_t h;
  if (!load_replay(in, c, cls, h))
    return 2;
  std::string tmp = std::string(out) + ".trial";
  double t0 = now();
  Trial t = trial(c, tmp, false, nullptr);
  if (t.cls != cls) {
    fprintf(stderr, "minimise: does not reproduce (%s vs %s)\n", t.cls.c_str(),
            cls.c_str());
    return 2;
  }
  auto attempt = [&](Ctx &cand) {
    Trial r = trial(cand, tmp, false, nullptr);
    if (r.cls != cls)
      return false;
    // keep what was consumed
    size_t a = 0, b = 0;
    for (int s = 0; s < NSTREAM; s++) {
      a += r.v[s].size();
      b += c.tape.v[s].size();
    }
    c = cand;
    if (r.hash != 0)
      for (int s = 0; s < NSTREAM; s++)
        c.tape.v[s] = r.v[s];
    return true;
  };
  if (!c.after.empty()) { // does it matter what ran before in the process?
    Ctx cand = c;
    cand.after.clear();
    attempt(cand);
  }
  for (size_t i = 0; i < c.after.size();) {
    Ctx cand = c;
    cand.after.erase(cand.after.begin() + (long)i);
    if (!attempt(cand))
      i++;
  }
  auto out_of_time = [&] { return now() - t0 > budget; };
  bool progress = true;
  int rounds = 0;
  while (progress && !out_of_time() && rounds++ < 6) {
    progress = false;
    const int order[] = {S_FAULT, S_SCHED, S_OPS, S_CFG, S_PROB, S_DATA};
    for (int s : order) {
      // drop trailing zeros: implicit
      for (size_t chunk = std::max<size_t>(c.tape.v[s].size() / 2, 1);
           chunk >= 1 && !out_of_time(); chunk /= 2) {
        for (size_t i = 0; i < c.tape.v[s].size() && !out_of_time();) {
          size_t e = std::min(i + chunk, c.tape.v[s].size());
          bool allzero = true;
          for (size_t k = i; k < e; k++)
            allzero &= c.tape.v[s][k] == 0;
          if (!allzero) { // set to the simple outcome
            Ctx cand = c;
            for (size_t k = i; k < e; k++)
              cand.tape.v[s][k] = 0;
            if (attempt(cand)) {
              progress = true;
              i = e;
              continue;
            }
          }
          if (s == S_OPS || s == S_SCHED || s == S_FAULT) { // delete
            Ctx cand = c;
            cand.tape.v[s].erase(cand.tape.v[s].begin() + (long)i,
                                 cand.tape.v[s].begin() + (long)e);
            size_t before = c.tape.v[s].size();
            if (attempt(cand) && c.tape.v[s].size() < before) {
              progress = true;
              continue;
            }
          }
          i = e;
        }
        if (chunk == 1)
          break;
      }
      // lower single values
      for (size_t i = 0; i < c.tape.v[s].size() && !out_of_time(); i++) {
        uint32_t x = c.tape.v[s][i];
        if (x == 0)
          continue;
        for (uint32_t y : {x / 2, x - 1}) {
          if (y >= x)
            continue;
          Ctx cand = c;
          cand.tape.v[s][i] = y;
          if (attempt(cand)) {
            progress = true;
            break;
          }
        }
      }
    }
  }
  Trial fin = trial(c, tmp, true, out);
  return fin.cls == cls ? 0 : 2;
}

static std::string esc(const std::string &s) {
  std::string o;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if ((unsigned char)ch < 32) {
      char b[8];
      snprintf(b, 8, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o;
}

static void describe(std::string &o, const Ctx &c) {
  char b[64];
  snprintf(b, 64, "seed %llu: ", (unsigned long long)c.seed);
  o = b;
  for (size_t i = 0; i < c.trace.size() && o.size() < 1800; i++) {
    o += c.trace[i];
    o += "; ";
  }
}

int sim_main(int argc, char **argv) {
  std::map<std::string, std::string> o;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2)
    o[argv[i]] = argv[i + 1];
  g_edge = (uint8_t *)mmap(nullptr, g_nguards + 2, PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::set_terminate(on_terminate);
  signal(SIGABRT, on_abort);
  signal(SIGALRM, on_hang);
  if (&__asan_set_death_callback)
    __asan_set_death_callback([] {
      strcpy(g_crash_cls, "crash/memory-error");
      on_death();
    });
  if (mode == "run") {
    uint64_t vseed = strtoull(o["--vseed"].c_str(), nullptr, 10);
    uint64_t from = strtoull(o["--from"].c_str(), nullptr, 10);
    uint64_t stride = strtoull(o["--stride"].c_str(), nullptr, 10);
    uint64_t count = strtoull(o["--count"].c_str(), nullptr, 10);
    double budget = atof(o["--time"].c_str());
    bool thorough = o["--tier"] == "thorough";
    std::string out = o["--out"];
    g_crash_file = out + ".viol";
    unlink(g_crash_file.c_str());
    std::set<std::string> known;
    {
      std::string k = o["--known"], cur;
      for (char ch : k + ",") {
        if (ch == ',') {
          if (!cur.empty())
            known.insert(cur);
          cur.clear();
        } else
          cur += ch;
      }
    }
    double t0 = now();
    uint64_t done = 0, nontriv = 0, known_hits = 0;
    std::set<uint64_t> shapes;
    std::vector<std::string> samples;
    std::string hashes;
    bool violated = false;
    struct Rec { // what a run hands back
      bool done, violated, nontrivial;
      uint64_t hash, shape;
      char cls[128], sample[2200];
    };
    const uint64_t batch = the_scenario.pristine ? 1 : 60;
    struct Recs {
      Rec r[60];
    };
    Recs &recs = *shared_new<Recs>();
    for (uint64_t b0 = from; b0 < count && !violated; b0 += stride * batch) {
      if (now() - t0 > budget)
        break;
      memset((void *)&recs, 0, sizeof recs);
      uint64_t want = 2 - std::min<uint64_t>(2, samples.size());
      fflush(nullptr);
      pid_t pid = fork();
      if (pid < 0)
        return 2;
      if (pid == 0) {
        alarm(60);
        std::vector<uint64_t> after;
        {
          Ctx c;
          c.prop = the_scenario.prop;
          c.thorough = thorough;
          prepare(c);
        }
        for (uint64_t k = 0; k < batch; k++) {
          uint64_t i = b0 + k * stride;
          if (i >= count || now() - t0 > budget)
            break;
          alarm(60);
          Rec &rec = recs.r[k];
          Ctx c;
          c.prop = the_scenario.prop;
          c.thorough = thorough;
          c.tracing = want > 0;
          c.after = after;
          seed_tape(c, vseed, i);
          RunResult r = run_once(c);
          g = nullptr;
          after.push_back(c.seed);
          rec.nontrivial = c.nontrivial;
          rec.hash = c.hash;
          rec.shape = c.shape;
          rec.violated = r.violated;
          strncpy(rec.cls, r.v.cls.c_str(), sizeof rec.cls - 1);
          if (want && c.nontrivial) {
            std::string d;
            describe(d, c);
            strncpy(rec.sample, d.c_str(), sizeof rec.sample - 1);
            want--;
          }
          rec.done = true;
          if (r.violated && !known.count(r.v.cls)) {
            int fd =
                open(g_crash_file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dump_violation(fd, c, r.v.cls.c_str(), r.v.detail.c_str());
            close(fd);
            break;
          }
        }
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      for (uint64_t k = 0; k < batch && recs.r[k].done; k++) {
        const Rec &rec = recs.r[k];
        uint64_t i = b0 + k * stride;
        done++;
        if (rec.nontrivial && shapes.insert(rec.shape).second)
          nontriv++;
        if (rec.sample[0])
          samples.push_back(rec.sample);
        if (i < 4096) {
          char b[48];
          snprintf(b, 48, "%llu %llu\n", (unsigned long long)i,
                   (unsigned long long)rec.hash);
          hashes += b;
        }
        if (rec.violated) {
          if (known.count(rec.cls))
            known_hits++;
          else
            violated = true;
        }
      }
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { // it died
        Ctx c;
        std::string cls;
        uint64_t h = 0;
        if (!load_replay(g_crash_file.c_str(), c, cls, h))
          return 3; // without a trace
        done++;
        if (known.count(cls)) { // the rest of the batch is skipped
          unlink(g_crash_file.c_str());
          known_hits++;
        } else
          violated = true;
      }
    }
    alarm(0);
    double wall = now() - t0;
    FILE *f = fopen(out.c_str(), "w");
    fprintf(f,
            "{\"runs\": %llu, \"nontrivial\": %llu, \"wall\": %.3f, "
            "\"ticks\": %llu, \"switches\": %ld, \"edges_hit\": %ld, "
            "\"edges_total\": %ld, \"known_hits\": %llu, \"violated\": %d,\n",
            (unsigned long long)done, (unsigned long long)nontriv, wall,
            (unsigned long long)stats.ticks, stats.switches, edges_hit(),
            edges_total(), (unsigned long long)known_hits, violated);
    fprintf(f, "\"rule\": \"%s\",\n", esc(the_scenario.rule).c_str());
    fprintf(f, "\"faults\": {");
    const char *sep = "";
    for (int k = 1; k < NFAULT; k++)
      if (stats.fault_fired[k]) {
        fprintf(f, "%s\"%s\": %ld", sep, fault_names[k], stats.fault_fired[k]);
        sep = ", ";
      }
    fprintf(f, "},\n\"sites\": {");
    sep = "";
    for (int k = 0; k < NSITE; k++)
      if (stats.site[k]) {
        fprintf(f, "%s\"%s\": %ld", sep, site_names[k], stats.site[k]);
        sep = ", ";
      }
    fprintf(f, "},\n\"probes\": {");
    sep = "";
    for (auto &p : stats.probe) {
      if (!p.name[0])
        break;
      fprintf(f, "%s\"%s\": %ld", sep, esc(p.name).c_str(), p.n);
      sep = ", ";
    }
    fprintf(f, "},\n\"samples\": [");
    sep = "";
    for (auto &s : samples) {
      fprintf(f, "%s\"%s\"", sep, esc(s).c_str());
      sep = ", ";
    }
    fprintf(f, "],\n\"edges\": \"");
    for (uint32_t i = 0; i < g_nguards; i += 4) {
      int x = 0;
      for (int b = 0; b < 4; b++)
        if (i + b < g_nguards && g_edge && g_edge[i + b + 1])
          x |= 1 << b;
      fputc("0123456789abcdef"[x], f);
    }
    fprintf(f, "\"}\n");
    fclose(f);
    FILE *hf = fopen((out + ".hashes").c_str(), "w");
    fputs(hashes.c_str(), hf);
    fclose(hf);
    FILE *sf = fopen((out + ".shapes").c_str(), "w");
    for (uint64_t s : shapes)
      fprintf(sf, "%llx\n", (unsigned long long)s);
    fclose(sf);
    return violated ? 1 : 0;
  }
  if (mode == "trace") { // one run by index, fully logged
    Ctx c;
    c.prop = the_scenario.prop;
    c.tracing = true;
    c.thorough = o["--tier"] == "thorough";
    seed_tape(c, strtoull(o["--vseed"].c_str(), nullptr, 10),
              strtoull(o["--index"].c_str(), nullptr, 10));
    RunResult r = run_once(c);
    for (auto &l : c.trace)
      fprintf(stderr, "%s\n", l.c_str());
    fprintf(stderr, "hash %llu nontrivial %d\n", (unsigned long long)c.hash,
            c.nontrivial);
    if (r.violated)
      fprintf(stderr, "VIOLATED %s: %s\n", r.v.cls.c_str(),
              r.v.detail.c_str());
    return r.violated;
  }
  if (mode == "replay") {
    Ctx c;
    std::string cls;
    uint64_t h = 0;
    if (!load_replay(o["--file"].c_str(), c, cls, h))
      return 2;
    if (c.prop != the_scenario.prop) {
      fprintf(stderr, "replay file is for %s\n", c.prop.c_str());
      return 2;
    }
    std::string tmp = o.count("--tmp") ? o["--tmp"] : o["--file"] + ".replay";
    Trial t = trial(c, tmp, o.count("--quiet") == 0,
                    o.count("--out") ? o["--out"].c_str() : nullptr);
    fprintf(stderr, "replay: class %s hash %llu (file: %s %llu)\n",
            t.cls.empty() ? "-" : t.cls.c_str(), (unsigned long long)t.hash,
            cls.c_str(), (unsigned long long)h);
    if (t.cls == cls && t.hash == h)
      return 1; // reproduced exactly
    return t.cls.empty() ? 0 : 3;
  }
  if (mode == "min")
    return minimise(o["--in"].c_str(), o["--out"].c_str(),
                    atof(o["--time"].c_str()));
  fprintf(stderr, "usage: run|trace|replay|min\n");
  return 2;
}
} // namespace sim

// --------------------------------------------------------------- link seams
using namespace sim;

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start,
                                                    uint32_t *stop) {
  if (start == stop || *start)
    return;
  for (uint32_t *x = start; x < stop; x++)
    *x = ++g_nguards;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
  uint32_t id = *guard;
  if (!g_edge)
    return;
  if (!g_edge[id])
    g_edge[id] = 1;
  if (++g_ticks == g_tick_limit)
    hang_exit();
  if (tl_impl && tl_slice > 0 && tl_nopreempt == 0 && --tl_slice == 0)
    do_yield();
}

extern "C" void *__wrap_malloc(size_t n) {
  if (alloc_event()) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = __real_malloc(n);
  alloc_done(p, n);
  return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) {
  if (alloc_event()) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = __real_calloc(a, b);
  if (p && A.active && !A.paused)
    A.live.insert(p);
  return p;
}
extern "C" void *__wrap_realloc(void *q, size_t n) {
  if (alloc_event()) {
    errno = ENOMEM;
    return nullptr;
  }
  bool tracked = q && A.live.n && A.live.erase(q);
  void *p = __real_realloc(q, n);
  if (p && ((A.active && !A.paused) || tracked))
    A.live.insert(p);
  return p;
}
extern "C" void __wrap_free(void *p) {
  free_event(p);
  __real_free(p);
}
extern "C" int __wrap___cxa_guard_acquire(void *gd) {
  tl_nopreempt++;
  int r = __real___cxa_guard_acquire(gd);
  if (!r)
    tl_nopreempt--;
  return r;
}
extern "C" void __wrap___cxa_guard_release(void *gd) {
  __real___cxa_guard_release(gd);
  tl_nopreempt--;
}
extern "C" void __wrap___cxa_guard_abort(void *gd) {
  __real___cxa_guard_abort(gd);
  tl_nopreempt--;
}
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  tl_nopreempt++;
  return __real_pthread_mutex_lock(m);
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int r = __real_pthread_mutex_unlock(m);
  tl_nopreempt--;
  return r;
}

static void *new_impl(size_t n) {
  if (alloc_event())
    throw std::bad_alloc();
  void *p = __real_malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  alloc_done(p, n);
  return p;
}
void *operator new(size_t n) { return new_impl(n); }
void *operator new[](size_t n) { return new_impl(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  try {
    return new_impl(n);
  } catch (...) {
    return nullptr;
  }
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  try {
    return new_impl(n);
  } catch (...) {
    return nullptr;
  }
}
void operator delete(void *p) noexcept {
  free_event(p);
  __real_free(p);
}
void operator delete[](void *p) noexcept {
  free_event(p);
  __real_free(p);
}
void operator delete(void *p, size_t) noexcept {
  free_event(p);
  __real_free(p);
}
void operator delete[](void *p, size_t) noexcept {
  free_event(p);
  __real_free(p);
}

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0";
}
int main(int argc, char **argv) {
  int r = sim::sim_main(argc, argv);
  fflush(nullptr);
  _exit(r);
}
