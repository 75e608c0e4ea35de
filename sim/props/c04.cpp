// C04: a set-up solver is as good as a new one, whatever it went through.
#include "common.hpp"
using namespace w;

struct Part { // what add-one-constraint needs
  polymorphic<Set> set;
  shared_ptr<Fn> fn;
};

struct Run {
  Snapshot s;
  long evals = 0;
};

static Run measure(Ctx &, Solver &s, const Inputs &in, bool lams = true) {
  Run r;
  auto rec = std::make_shared<Recorder>();
  Snapshot tr;
  rec->into = &tr;
  s.clearCallbacks();
  s.registerCallback(rec);
  Task t;
  TaskGuard tg(&t);
  Outcome o = attempt([&] {
    return lams ? s.solve(in.x0, in.l0) : s.solve(in.x0);
  });
  r.s = snap(s, o);
  r.s.traj = tr.traj;
  r.s.scal = tr.scal;
  r.evals = t.evals;
  s.clearCallbacks();
  return r;
}

// what a set-up solver shows before it solves anything
static std::vector<double> display(const Solver &s) {
  const Results &q = *s.results_;
  std::vector<double> v = {q.merit, q.value, q.mu, q.rho, q.prim_infeas,
                           q.dual_infeas, (double)q.num_iters,
                           (double)q.al_iters, (double)q.converged};
  auto add = [&](const VectorXs &x) {
    v.push_back((double)x.size());
    v.insert(v.end(), x.data(), x.data() + x.size());
  };
  add(q.x_opt);
  add(q.data_lams_opt);
  add(q.constraint_violations);
  for (auto &l : q.lams_opt)
    add(l);
  return v;
}

static void run(Ctx &c) {
  GenOpts go;
  ProbSpec p = gen_problem(c, go);
  c.log("%s", describe(p).c_str());
  // the problem may grow while the solver lives
  size_t have = p.cstrs.size();
  if (!p.cstrs.empty() && c.choose(S_OPS, 4) == 3)
    have = c.choose(S_OPS, (uint32_t)p.cstrs.size());
  ProbSpec part = p;
  part.cstrs.resize(have);
  Sink sink;
  uint32_t fill = c.choose(S_CFG, 3);
  struct Fill {
    ~Fill() { set_heap_fill(-1); }
  } restore_fill;
  set_heap_fill(fill == 1 ? 0xff : fill == 2 ? 0x41 : -1);
  if (fill)
    fired(F_DIRTY_HEAP);
  World wd(part);
  auto sp = std::make_unique<Solver>(*wd.prob);
  OptSpec o = gen_opts(c, p.space), configured = o;
  bool ready = false;
  OptSpec atsetup = o;
  size_t setup_n = 0;
  int nops = c.range(S_OPS, 1, 6), id = 1;
  long events = 0;
  Outcome lastout;
  bool last_ok = false, last_solved = false;
  auto setup = [&](bool tolerate) {
    o.apply(*sp);
    Outcome q = attempt([&] {
      sp->setup();
      return SUCCESS;
    });
    if (q.kind == Outcome::RETURNED) {
      ready = true;
      atsetup = o;
      setup_n = have;
    } else if (!tolerate)
      c.fail("setup-raised", "setup() raised %s", q.what.c_str());
    last_solved = last_ok = false;
  };
  for (int n = 0; n < nops; n++) {
    uint32_t op = c.choose(S_OPS, 12);
    if (!ready || setup_n != have)
      setup(false);
    if (op <= 5) { // a solve, possibly hit by faults
      Inputs in = gen_inputs(c, p);
      in.l0.conservativeResize(total_dim(part));
      Task t;
      uint32_t nf = c.choose(S_FAULT, 4);
      for (uint32_t i = 0; i + 1 < nf; i++)
        t.faults.push_back(gen_fault(c, FM_ALL, gen_at(c), id++));
      auto rec = std::make_shared<Recorder>();
      if (c.choose(S_OPS, 2))
        sp->registerCallback(rec);
      TaskGuard tg(&t);
      lastout = attempt([&] { return sp->solve(in.x0, in.l0); });
      sp->clearCallbacks();
      events++;
      last_solved = true;
      last_ok = lastout.kind == Outcome::RETURNED && lastout.flag == SUCCESS;
      c.log("solve: %s flag %d iters %zu", outcome_name(lastout.kind),
            (int)lastout.flag, sp->results_->num_iters);
      c.sh((uint64_t)lastout.kind * 8 + (uint64_t)lastout.flag);
      c.sh((uint64_t)t.evals);
    } else if (op == 6) { // memory runs out
      Inputs in = gen_inputs(c, p);
      in.l0.conservativeResize(total_dim(part));
      long k = gen_at(c, 11);
      Task t;
      TaskGuard tg(&t);
      AllocScope as;
      as.fail_at(k, 1 + (long)c.choose(S_FAULT, 3));
      lastout = attempt([&] { return sp->solve(in.x0, in.l0); });
      as.fail_at(-1);
      events++;
      last_solved = true;
      last_ok = false;
      c.log("solve short of memory: %s", outcome_name(lastout.kind));
      c.sh(100 + (uint64_t)lastout.kind);
    } else if (op == 7) { // crash: only the problem survives
      sp = std::make_unique<Solver>(*wd.prob);
      ready = false;
      last_solved = false;
      fired(F_ABANDON);
      events++;
      c.log("solver destroyed");
      c.sh(7);
    } else if (op == 8) {
      o = gen_opts(c, p.space);
      setup(false);
      events++;
      c.log("reconfigured: %s", describe(o).c_str());
      c.sh(8);
    } else if (op == 9) { // options only
      OptSpec q = gen_opts(c, p.space);
      q.ldlt = atsetup.ldlt;
      if ((q.hess == HessianApprox::BFGS) != (atsetup.hess == HessianApprox::BFGS))
        q.hess = o.hess;
      o = q;
      o.apply(*sp);
      events++;
      c.log("options: %s", describe(o).c_str());
      c.sh(9);
    } else if (op == 10) { // a setup that fails
      OptSpec q = o;
      if (p.space.nx() != p.space.ndx()) {
        q.hess = HessianApprox::BFGS;
        q.apply(*sp);
        Outcome e = attempt([&] {
          sp->setup();
          return SUCCESS;
        });
        if (e.kind == Outcome::RETURNED)
          c.fail("bfgs-manifold", "BFGS accepted on a manifold");
        o.apply(*sp);
        ready = false;
        last_solved = false;
        events++;
        c.log("setup refused");
        c.sh(10);
      } else {
        o.apply(*sp);
        AllocScope as;
        as.fail_at(gen_at(c, 6));
        Outcome e = attempt([&] {
          sp->setup();
          return SUCCESS;
        });
        as.fail_at(-1);
        ready = false;
        last_solved = false;
        events++;
        c.log("setup short of memory: %s", outcome_name(e.kind));
        c.sh(11);
      }
    } else { // grow the problem
      if (have < p.cstrs.size()) {
        const CstrSpec &q = p.cstrs[have];
        wd.prob->addConstraint(Cstr(build_fn(q.fn, p.space, wd.keep),
                                    build_set(q.set)));
        part.cstrs.push_back(q);
        have++;
        last_solved = false;
        events++;
        c.log("constraint %zu added", have);
        c.sh(12);
      }
    }
  }
  // now the solve that counts
  bool plain = c.choose(S_OPS, 2) == 1 && ready && setup_n == have &&
               atsetup.hess != HessianApprox::BFGS &&
               o.hess != HessianApprox::BFGS;
  Inputs in = gen_inputs(c, p);
  in.l0.conservativeResize(total_dim(part));
  bool warm = c.choose(S_OPS, 3) == 2 && plain && last_solved && last_ok;
  if (warm) {
    in.x0 = sp->results_->x_opt;
    in.l0 = sp->results_->data_lams_opt;
    if (!finite(in.x0) || !finite(in.l0))
      warm = false;
  }
  if (plain && c.choose(S_OPS, 2)) {
    OptSpec q = gen_opts(c, p.space);
    if (q.hess == HessianApprox::BFGS)
      q.hess = HessianApprox::IDENTITY;
    o = q;
  }
  if (!plain) {
    if (c.choose(S_OPS, 2))
      o = gen_opts(c, p.space);
    setup(false);
  }
  o.ldlt = atsetup.ldlt;
  o.apply(*sp);
  c.log("final (%s): %s", plain ? "no setup" : "setup", describe(o).c_str());
  std::vector<double> shown;
  if (!plain)
    shown = display(*sp);
  Run a = measure(c, *sp, in, !warm);
  set_heap_fill(fill == 1 ? -1 : fill == 2 ? 0xff : 0x41);
  World wf(part);
  Solver f(*wf.prob);
  o.apply(f);
  f.setup();
  { // nothing uninitialised is on display before the first solve
    const Results &q = *f.results_;
    const Workspace &ws = *f.workspace_;
    for (double v : {q.merit, q.value, q.mu, q.rho, q.prim_infeas,
                     q.dual_infeas, infn(q.constraint_violations),
                     infn(q.data_lams_opt), ws.alpha_opt, ws.dmerit_dir,
                     ws.objective_value})
      if (v != 0.)
        c.fail("uninitialised", "a fresh solver shows %.9g before any solve", v);
  }
  if (!plain) {
    std::vector<double> fresh = display(f);
    bool same = shown.size() == fresh.size();
    for (size_t i = 0; same && i < fresh.size(); i++)
      same = same_bits(shown[i], fresh[i]);
    if (!same)
      c.fail("not-reset", "after setup() the results are not those of a newly "
                          "set-up solver");
  }
  Run b = measure(c, f, in);
  set_heap_fill(-1);
  hash_snap(c, a.s);
  c.log("old %s flag %d iters %zu evals %ld / new %s flag %d iters %zu evals "
        "%ld",
        outcome_name(a.s.out.kind), (int)a.s.out.flag, a.s.iters, a.evals,
        outcome_name(b.s.out.kind), (int)b.s.out.flag, b.s.iters, b.evals);
  std::string d = diff(a.s, b.s);
  if (d.empty() && a.evals != b.evals)
    d = "number of user function evaluations";
  c.sh(a.s.iters);
  c.sh((uint64_t)a.evals);
  c.sh((uint64_t)a.s.out.kind);
  if (!d.empty())
    c.fail(warm ? "warm-start" : plain ? "carried-over" : "not-fresh",
           "differs from a fresh solver: %s", d.c_str());
  if (warm)
    probe("warm start compared");
  probe(plain ? "reused without setup" : "set up again");
  c.nontrivial = events > 0;
}
sim::Registered sim::the_scenario = {
    "C04", run,
    "a case is a history of 1-6 events on one solver (clean and faulty solves, "
    "allocation failures, crashes of the solver, reconfigurations, refused "
    "setups, constraints added to the problem) followed by one solve compared "
    "bit by bit, trajectory included, with a brand-new solver and problem in "
    "differently dirtied memory; non-trivial when at least one event happened; "
    "distinct by events, outcomes, iteration and evaluation counts"};
