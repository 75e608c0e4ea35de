// C02: progress. Once faults stop, a set-up solver solves convex problems
// within a bounded number of iterations.
#include "common.hpp"
#include <Eigen/SVD>
using namespace w;

static bool only_eq(const SetSpec &s) {
  if (s.kind == SetSpec::PROD) {
    for (auto &q : s.parts)
      if (!only_eq(q))
        return false;
    return true;
  }
  return s.kind == SetSpec::EQ;
}

// keep the constraints that are well away from being dependent
static void condition(ProbSpec &p) {
  while (!p.cstrs.empty()) {
    int m = total_dim(p), n = p.space.ndx();
    MatrixXs J(m, n);
    int at = 0;
    for (auto &q : p.cstrs) {
      J.middleRows(at, q.fn.nr) = ref_fn(q.fn, p.space).jac(p.xf);
      at += q.fn.nr;
    }
    if (m <= n && Eigen::JacobiSVD<MatrixXs>(J).singularValues()[m - 1] > 0.1)
      return;
    p.cstrs.pop_back();
  }
}

static void run(Ctx &c) {
  GenOpts go;
  go.convex_only = true;
  go.euclidean_only = c.choose(S_PROB, 4) != 3;
  go.no_seam_manifold = true;
  ProbSpec p = gen_problem(c, go);
  condition(p);
  c.log("%s", describe(p).c_str());
  World wd(p);
  Solver s(*wd.prob);
  Sink sink;
  Task t;
  TaskGuard tg(&t);
  int id = 1;
  OptSpec o = gen_opts(c, p.space);
  o.apply(s);
  s.setup();
  // the troubled past
  int before = (int)c.choose(S_OPS, 4);
  for (int n = 0; n < before; n++) {
    if (c.choose(S_OPS, 3) == 2) {
      o = gen_opts(c, p.space);
      o.apply(s);
      if (c.choose(S_OPS, 4) != 3)
        s.setup();
    }
    Inputs in = gen_inputs(c, p);
    t = Task();
    bool oom = false;
    uint32_t nf = c.choose(S_FAULT, 3);
    for (uint32_t i = 0; i < nf; i++)
      t.faults.push_back(gen_fault(c, FM_ALL | FM_LIE, gen_at(c), id++));
    oom = c.choose(S_FAULT, 4) == 3;
    long at = oom ? gen_at(c, 9) : 0;
    Outcome r = attempt([&] {
      AllocScope a;
      if (oom)
        a.fail_at(at);
      return s.solve(in.x0, in.l0);
    });
    c.log("past %d: %s", n, outcome_name(r.kind));
    probe(r.kind ? "earlier solve aborted" : "earlier solve returned");
  }
  // then quiet: documented settings of a well-posed solve
  o = gen_opts(c, p.space);
  if (o.hess == HessianApprox::BFGS || o.hess == HessianApprox::IDENTITY)
    o.hess = HessianApprox::EXACT;
  o.max_iters = 500;
  o.max_al = 1000;
  o.tol = std::max(o.tol, 1e-6);
  if (o.ls.alpha_min > 1e-6)
    o.ls.alpha_min = 1e-6;
  if (o.ls.max_num_steps < 20)
    o.ls.max_num_steps = 20;
  if (o.mu_lower > 1e-5)
    o.mu_lower = 1e-5;
  bool eq = true, l1 = false;
  for (auto &q : p.cstrs) {
    eq &= only_eq(q.set);
    l1 |= has_l1(q.set);
  }
  if (l1) { // kinks: the first penalty must not be tiny, steps may be short
    o.mu_init = std::max(o.mu_init, 0.1);
    o.max_iters = 1000;
  }
  // the classic system is not a Newton system of the merit function when
  // there are inequalities
  if (!eq)
    o.kkt = KKT_PRIMAL_DUAL;
  o.apply(s);
  s.setup();
  Inputs in = gen_inputs(c, p);
  t = Task();
  auto cb = std::make_shared<Recorder>();
  cb->with_seam = false;
  cb->extra = [&](const Workspace &ws, const Results &q) {
    c.log("iter %zu outer %zu step %.3g prim %.4g dual %.4g merit %.12g",
          q.num_iters, q.al_iters, ws.alpha_opt, q.prim_infeas, q.dual_infeas,
          q.merit);
  };
  s.registerCallback(cb);
  Outcome r = attempt([&] { return s.solve(in.x0, in.l0); });
  const Results &q = *s.results_;
  c.log("%s", describe(o).c_str());
  c.log("-> %s %s flag %d iters %zu al %zu prim %.3g dual %.3g",
        outcome_name(r.kind), r.what.c_str(), (int)r.flag, q.num_iters,
        q.al_iters, q.prim_infeas, q.dual_infeas);
  if (r.kind)
    c.fail("raised", "a fault-free solve of a convex problem raised %s %s",
           outcome_name(r.kind), r.what.c_str());
  if (r.flag != SUCCESS)
    c.fail("no-progress",
           "a fault-free solve of a convex problem ended with flag %d after "
           "%zu iterations, %zu outer (infeasibility %.3g primal, %.3g dual)",
           (int)r.flag, q.num_iters, q.al_iters, q.prim_infeas, q.dual_infeas);
  probe(q.num_iters > 100 ? "took more than 100 iterations"
        : q.num_iters > 20 ? "took more than 20 iterations"
                           : "took at most 20 iterations");
  hash_snap(c, snap(s, r));
  c.sh(q.num_iters);
  c.sh(q.al_iters);
  c.sh((uint64_t)before);
  c.nontrivial = before > 0 && q.num_iters > 0;
}
Registered sim::the_scenario = {
    "C02", run,
    "a case is a strongly convex problem with affine constraints, a history of "
    "0-3 solves with random options under injected faults, then a setup() and "
    "a fault-free solve; non-trivial when there was a past and the last solve "
    "took a step; distinct by iteration counts and history length"};
