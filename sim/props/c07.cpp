// C07: every solve ends within its budgets and says how it ended.
#include "common.hpp"
using namespace w;

static std::string same(const Snapshot &a, const Snapshot &b) {
  return diff(a, b);
}

static void run(Ctx &c) {
  GenOpts go;
  ProbSpec p = gen_problem(c, go);
  c.log("%s", describe(p).c_str());
  World wd(p);
  Solver s(*wd.prob);
  auto options = [&] {
    OptSpec q = gen_opts(c, p.space);
    if (c.choose(S_CFG, 12) == 11) { // penalties below the rounding unit
      q.mu_lower = 1e-18;
      if (c.choose(S_CFG, 2))
        q.mu_init = 1e-17;
    }
    q.apply(s);
    return q;
  };
  OptSpec o = options();
  Sink sink;
  int id = 1;
  long nontriv = 0;

  // using a solver that was never set up
  if (c.choose(S_OPS, 6) == 5) {
    Inputs in = gen_inputs(c, p);
    for (int i = 0; i < 2; i++) {
      Task t;
      TaskGuard tg(&t);
      Outcome r = attempt([&] {
        if (i == 0)
          return s.solve(in.x0, in.l0);
        std::vector<VectorRef> ls;
        long at = 0;
        for (auto &q : p.cstrs) {
          ls.push_back(in.l0.segment(at, q.fn.nr));
          at += q.fn.nr;
        }
        return s.solve(in.x0, ls);
      });
      if (r.kind != Outcome::LIB_ERROR)
        c.fail("no-setup", "solve() before setup(): %s", outcome_name(r.kind));
      if (t.evals)
        c.fail("no-setup", "user code ran before the missing setup() was "
                           "reported");
    }
    probe("solve before setup");
    nontriv++;
  }
  s.setup();
  int nsolve = c.range(S_OPS, 1, 3);
  for (int n = 0; n < nsolve; n++) {
    if (n && c.choose(S_OPS, 2)) {
      o = options();
      s.setup();
    }
    static const std::size_t mi[] = {100, 20, 7, 1, 0, 300};
    if (c.choose(S_CFG, 2))
      s.max_iters = o.max_iters = mi[c.choose(S_CFG, 6)];
    static const std::size_t ma[] = {1000, 3, 1, 0, 40};
    if (c.choose(S_CFG, 3) == 1)
      s.max_al_iters = o.max_al = ma[c.choose(S_CFG, 5)];
    static const double tl[] = {1e-6, 0., 1e-14, 1e300, 1.};
    if (c.choose(S_CFG, 4) == 3)
      s.target_tol = o.tol = tl[c.choose(S_CFG, 5)];
    Inputs in = gen_inputs(c, p);
    if (c.choose(S_DATA, 12) == 11)
      in.x0 *= 1e4;

    // wrong number of multipliers: refused, nothing touched
    if (c.choose(S_OPS, 4) == 3) {
      Outcome before_o;
      before_o.flag = s.results_->converged;
      Snapshot before = snap(s, before_o);
      std::vector<VectorRef> ls;
      VectorXs junk = VectorXs::Ones(3);
      size_t k = c.choose(S_OPS, 4);
      if (k >= p.cstrs.size())
        k++;
      for (size_t i = 0; i < k; i++)
        ls.push_back(junk);
      Task t;
      TaskGuard tg(&t);
      Outcome r = attempt([&] { return s.solve(in.x0, ls); });
      if (r.kind != Outcome::LIB_ERROR)
        c.fail("multiplier-count", "%zu multipliers for %zu constraints: %s", k,
               p.cstrs.size(), outcome_name(r.kind));
      Outcome after_o;
      after_o.flag = s.results_->converged;
      std::string d = same(before, snap(s, after_o));
      if (!d.empty() || t.evals)
        c.fail("multiplier-count", "the refused call changed %s", d.c_str());
      probe("wrong multiplier count");
      nontriv++;
    }

    Task t;
    uint32_t nf = c.choose(S_FAULT, 4);
    bool throws = false, lies = false;
    for (uint32_t i = 0; i + 1 < nf; i++) {
      Fault f = gen_fault(c, FM_ALL | FM_LIE, gen_at(c), id++);
      if (c.choose(S_FAULT, 3) == 2) {
        f.kind = F_LIE;
        static const long rp[] = {1, 10, 1000, 10000000};
        f.repeat = rp[c.choose(S_FAULT, 4)];
        if (c.choose(S_FAULT, 4) == 3) // huge values
          f.arg = (f.arg & (HUGE_LIE - 1)) | HUGE_LIE |
                  c.choose(S_FAULT, 16) << 28;
      }
      t.faults.push_back(f);
    }
    auto rec = std::make_shared<Recorder>();
    long calls = 0;
    std::string bad;
    VectorXs x_at0;
    rec->extra = [&](const Workspace &, const Results &q) {
      calls++;
      if (q.num_iters + 1 < (std::size_t)calls && bad.empty())
        bad = "iteration counter behind the callbacks";
      if (q.num_iters > o.max_iters || q.al_iters > o.max_al)
        bad = "counter beyond its budget during the solve";
    };
    s.clearCallbacks();
    s.registerCallback(rec);
    // seams crossed by one evaluation of the problem
    long per_eval[NSITE], per_der[NSITE];
    {
      Task m;
      TaskGuard tg(&m);
      Workspace ws(*wd.prob);
      VectorXs x = p.xf;
      wd.prob->evaluate(x, ws);
      memcpy(per_eval, m.site_count, sizeof per_eval);
      wd.prob->computeDerivatives(x, ws);
      for (int i = 0; i < NSITE; i++)
        per_der[i] = m.site_count[i] - per_eval[i];
    }
    long nfail = 0;
    t.on_fault = [&](Site site, long, const Fault &f) {
      if (f.kind == F_EXC_RUNTIME && site != SITE_CALLBACK)
        nfail++;
      if (f.kind == F_LIE)
        lies = true;
      else
        throws = true;
    };
    Outcome r;
    {
      TaskGuard tg(&t);
      r = attempt([&] { return s.solve(in.x0, in.l0); });
    }
    const Results &q = *s.results_;
    c.log("%s", describe(o).c_str());
    c.log("-> %s %s flag %d iters %zu/%zu al %zu/%zu evals %ld",
          outcome_name(r.kind), r.what.c_str(), (int)r.flag, q.num_iters,
          o.max_iters, q.al_iters, o.max_al, t.evals);
    hv(c, q.x_opt);
    c.h(q.num_iters);
    c.h((uint64_t)t.evals);
    c.sh((uint64_t)t.evals * 8 + (uint64_t)r.flag + 1);
    c.sh((uint64_t)r.kind);
    c.sh(q.num_iters * 131 + q.al_iters);
    if (t.evals)
      nontriv++;
    if (!bad.empty())
      c.fail("counters", "%s", bad.c_str());
    if (q.num_iters > o.max_iters)
      c.fail("max-iters", "%zu iterations, budget %zu", q.num_iters,
             o.max_iters);
    if (q.al_iters > o.max_al)
      c.fail("max-al-iters", "%zu outer iterations, budget %zu", q.al_iters,
             o.max_al);
    bool worked = o.max_iters && o.max_al;
    if (worked && !(q.rho <= o.rho * (1. + 1e-12)))
      c.fail("prox-range", "proximal parameter %g beyond the initial %g", q.rho,
             o.rho);
    if (worked && !(q.mu <= std::max(o.mu_init, o.mu_lower) * (1. + 1e-12) &&
                     q.mu >= std::min(o.mu_lower, o.mu_init) * (1. - 1e-12)))
      c.fail("penalty-range", "penalty %g outside [%g, %g]", q.mu, o.mu_lower,
             o.mu_init);
    // work is bounded by the counters
    long iters = (long)q.num_iters, al = (long)q.al_iters;
    bool returned = r.kind == Outcome::RETURNED;
    long passes = iters + al + 1;
    if (per_der[SITE_COST_GRAD] > 0) {
      long got = t.site_count[SITE_COST_GRAD];
      if (got > passes * per_der[SITE_COST_GRAD])
        c.fail("passes", "%ld gradient evaluations for %ld iterations, %ld "
                         "outer iterations",
               got, iters, al);
    }
    if (per_eval[SITE_COST_CALL] > 0) {
      // per iteration: max_num_steps + 1 successful trials, each after at most
      // log2(1 / alpha_min) failing ones, which are injected
      long trials = (iters + 1) * ((long)o.ls.max_num_steps + 1) + nfail;
      long calls_per_pass = per_eval[SITE_COST_CALL] + per_der[SITE_COST_CALL];
      long hess = 8 * per_eval[SITE_COST_CALL]; // finite differences, Hessians
      (void)hess;
      long got = t.site_count[SITE_COST_CALL];
      long lim = passes * calls_per_pass + trials * per_eval[SITE_COST_CALL];
      if (p.cost.kind == CostSpec::QUAD || p.cost.kind == CostSpec::SMOOTH)
        if (got > lim)
          c.fail("trials", "%ld objective evaluations for %ld iterations "
                           "(at most %ld expected)",
                 got, iters, lim);
    }
    if (!returned) {
      probe("aborted");
      continue;
    }
    if (r.flag != q.converged)
      c.fail("flag", "returned %d, stored %d", (int)r.flag, (int)q.converged);
    if (r.flag != SUCCESS && r.flag != MAX_ITERS_REACHED && r.flag != UNINIT)
      c.fail("flag", "flag %d", (int)r.flag);
    if (r.flag == MAX_ITERS_REACHED && q.num_iters != o.max_iters)
      c.fail("flag", "iteration limit reported after %zu of %zu iterations",
             q.num_iters, o.max_iters);
    if (r.flag == UNINIT && o.max_iters != 0 && q.al_iters != o.max_al)
      c.fail("flag", "no verdict after %zu of %zu outer iterations", q.al_iters,
             o.max_al);
    if (r.flag == UNINIT && o.max_iters != 0 && q.num_iters == o.max_iters)
      c.fail("flag", "the iteration limit was hit but not reported");
    if (calls != iters + 1)
      c.fail("counters", "%ld callbacks for %ld iterations", calls, iters);
    if (o.max_iters == 0 || o.max_al == 0) {
      if (t.evals != 1) // the final callback
        c.fail("zero-budget", "%ld evaluations with a zero budget", t.evals - 1);
      if (!bits(q.x_opt, in.x0) || !bits(q.data_lams_opt, in.l0))
        c.fail("zero-budget", "the initial guess was changed");
      if (r.flag != UNINIT)
        c.fail("zero-budget", "flag %d without any work", (int)r.flag);
      probe("zero budget");
    }
    probe(r.flag == SUCCESS             ? "success"
          : r.flag == MAX_ITERS_REACHED ? "iteration limit"
                                        : "outer limit");
    if (lies)
      probe("returned despite garbage");
    (void)throws;
  }
  c.nontrivial = nontriv > 0;
}
sim::Registered sim::the_scenario = {
    "C07", run,
    "a case is a history of 1-3 solves with seeded budgets (down to zero), user "
    "functions that throw, return NaN/inf or endless finite garbage, and misuse "
    "(no setup, wrong multiplier count); non-trivial when user code ran or a "
    "misuse was tried; distinct by outcome, counters and evaluation counts"};
