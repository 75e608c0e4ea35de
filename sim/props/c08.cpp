// C08: callbacks are called by the book, see the iteration they are called for,
// may do what they like, and do not change a solve; histories are faithful.
#include "common.hpp"
using namespace w;
using History = helpers::history_callback<double>;

struct Event {
  int id;
  std::size_t round;
};
struct Actor;
struct Script {
  enum What { NOTHING, REGISTER, CLEAR, THROW_RT, THROW_LOGIC, THROW_FOREIGN };
  long at = 0; // which of its calls
  What what = NOTHING;
};
struct Seen {
  VectorXs x, lam;
  double value, merit, prim, dual, alpha, dmerit;
  std::size_t iters, al;
  int flag;
};
static Seen see(const Workspace &w, const Results &r) {
  return {r.x_opt,       r.data_lams_opt, r.value,   r.merit,
          r.prim_infeas, r.dual_infeas,   w.alpha_opt, w.dmerit_dir,
          r.num_iters,   r.al_iters,      (int)r.converged};
}
static bool same_seen(const Seen &a, const Seen &b) {
  return bits(a.x, b.x) && bits(a.lam, b.lam) && same_bits(a.value, b.value) &&
         same_bits(a.merit, b.merit) && same_bits(a.prim, b.prim) &&
         same_bits(a.dual, b.dual) && a.iters == b.iters && a.al == b.al &&
         a.flag == b.flag;
}

struct Stage { // what the run knows about the callbacks
  Ctx *c = nullptr;
  Solver *s = nullptr;
  std::vector<Event> events;
  std::vector<std::pair<std::size_t, Seen>> rounds; // first view of each round
  std::vector<int> list;                            // the model
  // what happened in the current round
  bool cleared = false, threw = false;
  std::vector<int> fresh;
  bool busy = false;
  int next_id = 0, fault_id = 0;
  std::vector<std::weak_ptr<helpers::base_callback<double>>> born;
  std::vector<std::vector<Script>> spare; // scripts of late comers
  std::vector<shared_ptr<History>> hists; // the user's own references
  std::string bad;
};

struct Actor : helpers::base_callback<double> {
  Stage *st;
  int id;
  long n = 0;
  std::vector<Script> scripts;
  std::string canary = "alive and well, thank you";
  Actor(Stage *s, int i) : st(s), id(i) {}
  ~Actor() override { canary.assign(25, '#'); }
  void call(const Workspace &w, const Results &r) override;
};

struct Twin : History { // a history with an independent copy of what it is shown
  Stage *st;
  int id;
  bool pd, va, re;
  std::vector<Seen> copy;
  std::vector<std::vector<VectorXs>> blocks;
  Twin(Stage *s, int i, bool a, bool b, bool c)
      : History(a, b, c), st(s), id(i), pd(a), va(b), re(c) {}
  void call(const Workspace &w, const Results &r) override {
    if (st)
      st->events.push_back({id, r.num_iters});
    copy.push_back(see(w, r));
    std::vector<VectorXs> bl;
    for (auto &l : r.lams_opt)
      bl.push_back(l);
    blocks.push_back(bl);
    History::call(w, r);
  }
};

static shared_ptr<Actor> make_actor(Stage &st, std::vector<Script> sc) {
  auto a = std::make_shared<Actor>(&st, st.next_id++);
  a->scripts = std::move(sc);
  st.born.resize((size_t)a->id + 1);
  st.born[(size_t)a->id] = a;
  return a;
}

void Actor::call(const Workspace &w, const Results &r) {
  st->events.push_back({id, r.num_iters});
  if (st->busy)
    st->bad = "a callback was called inside a callback";
  if (&w != st->s->workspace_.get() || &r != st->s->results_.get())
    st->bad = "a callback was given objects that are not the solver's";
  Seen now = see(w, r);
  if (st->rounds.empty() || st->rounds.back().first != r.num_iters)
    st->rounds.push_back({r.num_iters, now});
  else if (!same_seen(st->rounds.back().second, now))
    st->bad = "callbacks of one iteration were shown different results";
  long k = n++;
  struct Busy {
    bool &b;
    explicit Busy(bool &x) : b(x) { b = true; }
    ~Busy() { b = false; }
  } busy(st->busy);
  for (auto &s : scripts)
    if (s.at == k) {
      switch (s.what) {
      case Script::NOTHING:
        break;
      case Script::REGISTER: {
        std::vector<Script> sc;
        if (!st->spare.empty()) {
          sc = st->spare.back();
          st->spare.pop_back();
        }
        auto a = make_actor(*st, sc);
        st->fresh.push_back(a->id);
        st->s->registerCallback(a); // the solver holds the only reference
        probe("registered inside a callback");
        break;
      }
      case Script::CLEAR:
        st->cleared = true;
        st->fresh.clear();
        st->s->clearCallbacks();
        probe("cleared inside a callback");
        break;
      case Script::THROW_RT:
        st->threw = true;
        fired(F_CB_THROW);
        throw InjRuntime(st->fault_id);
      case Script::THROW_LOGIC:
        st->threw = true;
        fired(F_CB_THROW);
        throw InjLogic(st->fault_id);
      case Script::THROW_FOREIGN:
        st->threw = true;
        fired(F_CB_THROW);
        throw InjOther{st->fault_id};
      }
      if (canary != "alive and well, thank you")
        st->bad = "a callback was destroyed while it was running";
    }
}

static std::vector<Script> gen_scripts(Ctx &c, bool allow_throw) {
  std::vector<Script> v;
  uint32_t n = c.choose(S_OPS, 3);
  for (uint32_t i = 0; i < n; i++) {
    Script s;
    s.at = c.choose(S_OPS, 4) == 3 ? (long)c.choose(S_OPS, 40)
                                   : (long)c.choose(S_OPS, 5);
    s.what = (Script::What)c.choose(S_OPS, allow_throw ? 6 : 3);
    v.push_back(s);
  }
  return v;
}

static void check_round(Ctx &c, Stage &st, std::vector<Event> ev, bool cut,
                        std::size_t round) {
  // `ev`: calls of this round, in order; st.list: registered when it began
  size_t i = 0, k = 0;
  for (; k < ev.size() && i < st.list.size(); k++, i++)
    if (ev[k].id != st.list[i]) {
      if (st.cleared)
        break;
      c.fail("order", "iteration %zu: callback %d called, expected %d", round,
             ev[k].id, st.list[i]);
    }
  if (i < st.list.size() && !st.cleared && !cut)
    c.fail("missed", "iteration %zu: %zu of %zu callbacks called", round, i,
           st.list.size());
  // anything else was registered in this very round
  for (; k < ev.size(); k++) {
    bool ok = false;
    for (int f : st.fresh)
      ok |= f == ev[k].id;
    if (!ok && !st.cleared)
      c.fail("order", "iteration %zu: unexpected call of callback %d", round,
             ev[k].id);
  }
}

static void verify_history(Ctx &c, const Twin &t, const ProbSpec &p) {
  const auto &h = t.storage;
  size_t n = t.copy.size();
  auto want = [&](const char *what, size_t got, bool on) {
    if (got != (on ? n : 0))
      c.fail("history-size", "%zu %s stored for %zu calls", got, what,
             on ? n : 0);
  };
  want("points", h.xs.size(), t.pd);
  want("multipliers", h.lams.size(), t.pd);
  want("multiplier views", h.lams_view.size(), t.pd);
  want("values", h.values.size(), t.va);
  want("primal residuals", h.prim_infeas.size(), t.re);
  want("dual residuals", h.dual_infeas.size(), t.re);
  want("step sizes", h.alphas.size(), true);
  want("slopes", h.dmerit_dir.size(), true);
  for (size_t i = 0; i < n; i++) {
    const Seen &s = t.copy[i];
    const char *bad = nullptr;
    if (t.pd) {
      if (!bits(h.xs[i], s.x))
        bad = "point";
      else if (!bits(h.lams[i], s.lam))
        bad = "multipliers";
      else if (h.lams_view[i].size() != p.cstrs.size())
        bad = "number of multiplier views";
      else
        for (size_t j = 0; j < p.cstrs.size(); j++)
          if (!bits(h.lams_view[i][j], t.blocks[i][j]))
            bad = "multiplier view";
    }
    if (t.va && !same_bits(h.values[i], s.value))
      bad = "value";
    if (t.re && (!same_bits(h.prim_infeas[i], s.prim) ||
                 !same_bits(h.dual_infeas[i], s.dual)))
      bad = "residual";
    if (!same_bits(h.alphas[i], s.alpha) ||
        !same_bits(h.dmerit_dir[i], s.dmerit))
      bad = "line-search record";
    if (bad)
      c.fail("history", "entry %zu of %zu: stored %s is not what was shown", i,
             n, bad);
  }
  if (n)
    probe("history entries verified", (long)n);
}

static void run(Ctx &c) {
  GenOpts go;
  go.max_n = 4;
  go.max_cstr = 3;
  ProbSpec p = gen_problem(c, go);
  c.log("%s", describe(p).c_str());
  Sink sink;
  auto wd = std::make_unique<World>(p);
  auto s = std::make_unique<Solver>(*wd->prob);
  OptSpec o = gen_opts(c, p.space);
  if (o.max_iters > 60)
    o.max_iters = 60;
  o.apply(*s);
  s->setup();
  Stage st;
  st.c = &c;
  st.s = s.get();
  std::vector<shared_ptr<Twin>> twins;
  std::vector<shared_ptr<Actor>> mine; // references the user keeps
  long calls = 0;
  int nsolve = c.range(S_OPS, 1, 3);
  for (uint32_t i = c.choose(S_OPS, 3); i > 0; i--)
    st.spare.push_back(gen_scripts(c, true));

  auto reg_actor = [&](bool scripted) {
    auto a = make_actor(st, scripted ? gen_scripts(c, true)
                                     : std::vector<Script>());
    st.list.push_back(a->id);
    s->registerCallback(a);
    if (c.choose(S_OPS, 2))
      mine.push_back(a);
    if (c.choose(S_OPS, 8) == 7) { // twice
      st.list.push_back(a->id);
      s->registerCallback(a);
    }
  };
  auto lifetimes = [&] {
    std::set<int> held(st.list.begin(), st.list.end());
    for (auto &a : mine)
      held.insert(a->id);
    for (size_t i = 0; i < st.born.size(); i++) {
      bool is_twin = false;
      for (auto &t : twins)
        is_twin |= t->id == (int)i;
      if (is_twin)
        continue;
      if (held.count((int)i) && st.born[i].expired())
        c.fail("lifetime", "callback %zu died while registered", i);
      if (!held.count((int)i) && !st.born[i].expired())
        c.fail("lifetime", "callback %zu is kept alive although it is not "
                           "registered",
               i);
    }
  };

  for (int n = 0; n < nsolve; n++) {
    // the user changes the line-up between solves
    for (uint32_t i = c.choose(S_OPS, 4); i > 0; i--) {
      switch (c.choose(S_OPS, 4)) {
      case 0:
        reg_actor(false);
        break;
      case 1:
        reg_actor(true);
        break;
      case 2: {
        uint32_t fl = c.choose(S_OPS, 8);
        auto t = std::make_shared<Twin>(&st, st.next_id++, !(fl & 1),
                                        !(fl & 2), !(fl & 4));
        st.born.resize((size_t)t->id + 1);
        st.born[(size_t)t->id] = t;
        st.list.push_back(t->id);
        s->registerCallback(t);
        twins.push_back(t);
        break;
      }
      case 3:
        if (c.choose(S_OPS, 2)) {
          s->clearCallbacks();
          st.list.clear();
        }
        break;
      }
    }
    if (n && c.choose(S_OPS, 2))
      s->setup();
    if (n == 0 && st.list.empty() && c.choose(S_OPS, 8) != 7)
      reg_actor(true);
    lifetimes();
    bool start_empty = st.list.empty(), ever_cleared = false;
    Inputs in = gen_inputs(c, p);
    bool bare = c.choose(S_OPS, 2) && o.hess != HessianApprox::BFGS;
    std::vector<Fault> faults;
    if (c.choose(S_FAULT, 3) == 2)
      faults.push_back(gen_fault(c, FM_THROWS | FM_VALUES, gen_at(c, 7), 500));
    st.events.clear();
    st.rounds.clear();
    st.fault_id = 1000 + n;

    // the same solve with nobody watching
    Snapshot alone;
    long alone_evals = 0;
    if (bare) {
      World w2(p);
      Solver s2(*w2.prob);
      o.apply(s2);
      s2.setup();
      Task t;
      t.faults = faults;
      TaskGuard tg(&t);
      Outcome q = attempt([&] { return s2.solve(in.x0, in.l0); });
      alone = snap(s2, q);
      alone_evals = t.evals;
    }

    Task t;
    t.faults = faults;
    Outcome r;
    std::vector<Event> ev;
    size_t done = 0; // events already attributed to finished rounds
    auto close_round = [&](bool cut) {
      if (done >= st.events.size())
        return;
      std::vector<Event> e(st.events.begin() + (long)done, st.events.end());
      done = st.events.size();
      check_round(c, st, e, cut, e[0].round);
      ever_cleared |= st.cleared;
      if (st.cleared)
        st.list.clear();
      for (int f : st.fresh)
        st.list.push_back(f);
      st.cleared = false;
      st.fresh.clear();
    };
    // user code runs between two rounds, except before the final one
    t.on_seam = [&](Site, long) { close_round(false); };
    {
      TaskGuard tg(&t);
      r = attempt([&] { return s->solve(in.x0, in.l0); });
    }
    if (!st.bad.empty())
      c.fail("protocol", "%s", st.bad.c_str());
    // what is left: the last step's round and/or the final one
    if (done < st.events.size()) {
      std::size_t first = st.events[done].round, last = st.events.back().round;
      if (first != last) {
        // the actions of both rounds are mixed: only check the order loosely
        std::vector<Event> a, b;
        for (size_t i = done; i < st.events.size(); i++)
          (st.events[i].round == first ? a : b).push_back(st.events[i]);
        if (st.fresh.empty() && !st.cleared) {
          check_round(c, st, a, false, first);
          check_round(c, st, b, st.threw, last);
        }
        done = st.events.size();
        ever_cleared |= st.cleared;
        if (st.cleared)
          st.list.clear();
        for (int f : st.fresh)
          st.list.push_back(f);
        st.cleared = false;
        st.fresh.clear();
      } else
        close_round(st.threw);
    }
    const Results &q = *s->results_;
    c.log("%s", describe(o).c_str());
    c.log("-> %s %s flag %d iters %zu events %zu registered %zu",
          outcome_name(r.kind), r.what.c_str(), (int)r.flag, q.num_iters,
          st.events.size(), st.list.size());
    hv(c, q.x_opt);
    for (auto &e : st.events) {
      c.h((uint64_t)e.id * 1000 + e.round);
      c.sh((uint64_t)e.id * 1000 + e.round);
    }
    calls += (long)st.events.size();
    c.sh((uint64_t)t.evals * 8 + (uint64_t)r.kind);
    c.h((uint64_t)t.evals);

    // one round per step, and a last one
    if (!start_empty && !ever_cleared && !st.threw) {
      std::set<std::size_t> got;
      for (auto &e : st.events)
        got.insert(e.round);
      std::size_t want = q.num_iters + (r.kind == Outcome::RETURNED);
      if (got.size() != want || (want && *got.rbegin() != want - 1))
        c.fail("rounds", "callbacks called for %zu iterations, %zu expected",
               got.size(), want);
    }
    std::size_t expect = 0;
    for (size_t i = 0; i < st.rounds.size(); i++) {
      std::size_t k = st.rounds[i].first;
      if (i && k < expect)
        c.fail("rounds", "iteration %zu shown after iteration %zu", k,
               expect - 1);
      expect = k + 1;
      const Seen &v = st.rounds[i].second;
      bool last = r.kind == Outcome::RETURNED && i + 1 == st.rounds.size() &&
                  k == q.num_iters;
      bool maybe_last = st.threw && i + 1 == st.rounds.size();
      if (!last && !maybe_last && v.flag != UNINIT)
        c.fail("flag", "flag %d shown while the solve was running", v.flag);
      if (last && v.flag != q.converged)
        c.fail("flag", "the final callback was shown flag %d, returned %d",
               v.flag, (int)q.converged);
      if (last && !(bits(v.x, q.x_opt) && bits(v.lam, q.data_lams_opt)))
        c.fail("final", "the final callback was shown another point");
      if (!last && !maybe_last && !(v.alpha > 0. && v.alpha <= 1.))
        c.fail("alpha", "step size %g shown after iteration %zu", v.alpha, k);
      if (v.al > q.al_iters)
        c.fail("counters", "outer iteration counter went back");
      if (!finite(v.x) || !finite(v.lam))
        c.fail("finite", "a callback was shown a non-finite iterate");
    }
    if (r.kind == Outcome::RETURNED && st.threw)
      c.fail("swallowed", "an exception thrown by a callback was swallowed");
    if (st.threw) {
      if (r.inj_id != st.fault_id)
        c.fail("swallowed", "the callback's exception came out as %s",
               outcome_name(r.kind));
      probe("a callback threw");
    }
    if (bare && !st.threw) {
      Snapshot now = snap(*s, r);
      std::string d = diff(alone, now);
      if (!d.empty() && !(n && alone.iters == 0))
        c.fail("observer-effect", "callbacks changed the solve: %s", d.c_str());
      if (alone_evals != t.evals)
        c.fail("observer-effect", "callbacks changed the evaluations: %ld "
                                  "without, %ld with",
               alone_evals, t.evals);
      probe("compared with an unobserved solve");
    }
    st.threw = false;
    lifetimes();
    if (c.choose(S_OPS, 4) == 3)
      mine.clear();
  }
  // histories outlive the solver and the problem
  s.reset();
  st.s = nullptr;
  st.list.clear();
  wd.reset();
  lifetimes();
  for (auto &tw : twins) {
    tw->st = nullptr;
    verify_history(c, *tw, p);
  }
  c.nontrivial = calls > 0;
}
sim::Registered sim::the_scenario = {
    "C08", run,
    "a case is a history of 1-3 solves with seeded callbacks that observe, "
    "record, register, clear, unregister themselves, throw, or are only held "
    "by the solver, under failures of user functions; non-trivial when a "
    "callback was called; distinct by the sequence of calls"};
