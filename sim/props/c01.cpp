// C01: a reported success is a solution, whatever came before on this solver.
#include "common.hpp"
using namespace w;

static void run(Ctx &c) {
  GenOpts go;
  ProbSpec p = gen_problem(c, go);
  c.log("%s", describe(p).c_str());
  World wd(p);
  Solver s(*wd.prob);
  OptSpec o = gen_opts(c, p.space);
  o.apply(s);
  s.setup();
  Sink sink;
  Task t;
  TaskGuard tg(&t);
  int nsolve = c.range(S_OPS, 1, 4);
  int id = 1;
  bool claimed = false, eventful = false;
  Inputs in = gen_inputs(c, p);
  for (int n = 0; n < nsolve; n++) {
    if (n > 0) {
      uint32_t what = c.choose(S_OPS, 8);
      if (what == 1 || what == 2) { // reconfigure from scratch
        o = gen_opts(c, p.space);
        o.apply(s);
        s.setup();
        c.log("setup");
        fired(F_ABANDON);
      } else if (what == 3) { // options that do not size anything
        OptSpec q = gen_opts(c, p.space);
        q.ldlt = o.ldlt;
        if (q.hess == HessianApprox::BFGS || o.hess == HessianApprox::BFGS)
          q.hess = o.hess;
        o = q;
        o.apply(s);
        c.log("options changed");
      } else if (what == 4) {
        s.setup();
        c.log("setup");
      }
      if (c.choose(S_OPS, 2) == 1)
        in = gen_inputs(c, p);
      else if (c.choose(S_OPS, 2) == 1) { // warm start from the result
        in.x0 = s.results_->x_opt;
        in.l0 = s.results_->data_lams_opt;
        if (!finite(in.x0) || !finite(in.l0))
          in = gen_inputs(c, p);
      }
    }
    c.log("%s", describe(o).c_str());
    t = Task();
    uint32_t nf = c.choose(S_FAULT, 4);
    for (uint32_t i = 0; i + 1 < nf; i++)
      t.faults.push_back(gen_fault(c, FM_ALL & ~FM_CB, gen_at(c), id++));
    bool vec = c.choose(S_OPS, 4) == 3;
    bool keep_lams = c.choose(S_OPS, 8) == 7;
    Outcome r = attempt([&] {
      if (keep_lams && n > 0)
        return s.solve(in.x0);
      if (vec) {
        std::vector<VectorRef> ls;
        long at = 0;
        for (auto &q : p.cstrs) {
          ls.push_back(in.l0.segment(at, q.fn.nr));
          at += q.fn.nr;
        }
        return s.solve(in.x0, ls);
      }
      return s.solve(in.x0, in.l0);
    });
    bool faulty = false;
    for (auto &f : t.faults)
      faulty |= f.fired;
    eventful |= faulty || n > 0;
    probe(faulty ? (r.kind ? "faulty solve aborted" : "faulty solve returned")
                 : (r.kind ? "clean solve raised" : "clean solve returned"));
    const Results &q = *s.results_;
    c.log("-> %s flag %d iters %zu prim %.17g dual %.17g", outcome_name(r.kind),
          (int)r.flag, q.num_iters, q.prim_infeas, q.dual_infeas);
    hv(c, q.x_opt);
    hv(c, q.data_lams_opt);
    c.sh((uint64_t)r.kind * 8 + (uint64_t)r.flag);
    c.sh((uint64_t)t.evals);
    c.sh(q.num_iters);
    if (r.kind != Outcome::RETURNED)
      continue;
    if (q.converged != r.flag)
      c.fail("flag-mismatch", "solve returned %d, results say %d", (int)r.flag,
             (int)q.converged);
    if (r.flag != SUCCESS)
      continue;
    claimed = true;
    probe(faulty ? "success despite faults" : "success");
    std::string e = check_success(p, q, o.tol, q.mu);
    if (!e.empty())
      c.fail("false-success", "%s", e.c_str());
    e = check_reported(p, q, q.mu);
    if (!e.empty())
      c.fail("false-report", "%s", e.c_str());
    if (!(q.mu >= o.mu_lower * 0.999999 &&
          q.mu <= std::max(o.mu_init, o.mu_lower) * 1.000001))
      c.fail("penalty-range", "penalty %g outside [%g, %g]", q.mu, o.mu_lower,
             o.mu_init);
  }
  c.nontrivial = claimed && eventful;
}
sim::Registered sim::the_scenario = {
    "C01", run,
    "a case is one history of 1-4 solves on one solver over a generated problem "
    "with seeded faults, reconfigurations and warm starts; non-trivial when at "
    "least one success was reported and checked against the reference KKT "
    "conditions in a history with a fired fault or an earlier solve; distinct "
    "by outcome, evaluation and iteration counts of every solve"};
