// C03: failing user code is surfaced or contained, never absorbed.
#include "common.hpp"
#include <unordered_map>
using namespace w;

static uint64_t hx(const double *d, long n) {
  uint64_t h = 1469598103934665603ull;
  for (long i = 0; i < n; i++) {
    uint64_t u;
    memcpy(&u, d + i, 8);
    for (int b = 0; b < 8; b++) {
      h ^= (u >> (8 * b)) & 255;
      h *= 1099511628211ull;
    }
  }
  return h;
}
static uint64_t hstate(const Results &r) {
  return hx(r.x_opt.data(), r.x_opt.size()) * 31 +
         hx(r.data_lams_opt.data(), r.data_lams_opt.size());
}
static bool value_site(Site s) {
  return s == SITE_COST_CALL || s == SITE_FN_CALL || s == SITE_INTEGRATE ||
         s == SITE_DIFFERENCE;
}

static bool uses_residual(const CostSpec &q) {
  if (q.kind == CostSpec::RESID)
    return true;
  for (auto &r : q.parts)
    if (uses_residual(r))
      return true;
  return false;
}

static bool uses_compose(const ProbSpec &p) {
  for (auto &q : p.cstrs)
    if (q.fn.kind == FnSpec::COMPOSE)
      return true;
  return false;
}

static void run(Ctx &c) {
  GenOpts go;
  ProbSpec p = gen_problem(c, go);
  OptSpec o = gen_opts(c, p.space);
  c.log("%s", describe(p).c_str());
  c.log("%s", describe(o).c_str());
  Inputs in = gen_inputs(c, p);
  Sink sink;

  // fault-free twin: what happens when, and with which iterate stored
  std::vector<uint8_t> sites;
  std::vector<uint64_t> states;
  Snapshot twin;
  {
    World wd(p);
    Solver s(*wd.prob);
    o.apply(s);
    s.setup();
    auto rec = std::make_shared<Recorder>();
    rec->into = &twin;
    s.registerCallback(rec);
    Task t;
    t.on_seam = [&](Site site, long) {
      if (sites.size() < 60000) {
        sites.push_back((uint8_t)site);
        states.push_back(hstate(*s.results_));
      }
    };
    TaskGuard tg(&t);
    Snapshot q = snap(s, attempt([&] { return s.solve(in.x0, in.l0); }));
    q.traj = twin.traj;
    q.scal = twin.scal;
    twin = q;
  }
  if (sites.empty())
    return;

  // where: any evaluation, or one of a chosen kind
  long at = 0;
  uint32_t how = c.choose(S_FAULT, 4);
  if (how == 0)
    at = (long)c.choose(S_FAULT, (uint32_t)std::min<size_t>(sites.size(), 64));
  else if (how == 1)
    at = (long)c.choose(S_FAULT, (uint32_t)sites.size());
  else {
    uint8_t kind = sites[c.choose(S_FAULT, (uint32_t)sites.size())];
    if (how == 3) {
      bool seen[NSITE] = {};
      std::vector<uint8_t> ks;
      for (uint8_t k : sites)
        if (!seen[k]) {
          seen[k] = true;
          ks.push_back(k);
        }
      kind = ks[c.choose(S_FAULT, (uint32_t)ks.size())];
    }
    std::vector<long> w;
    for (size_t i = 0; i < sites.size(); i++)
      if (sites[i] == kind)
        w.push_back((long)i);
    at = w[c.choose(S_FAULT, (uint32_t)w.size())];
  }
  Fault f = gen_fault(c, FM_ALL & ~FM_CB, at, 1);
  bool throws = f.kind == F_EXC_RUNTIME || f.kind == F_EXC_LOGIC ||
                f.kind == F_EXC_OTHER;

  World wd(p);
  Solver s(*wd.prob);
  o.apply(s);
  s.setup();
  const Results &r = *s.results_;
  Task t;
  t.faults.push_back(f);
  struct Hit {
    bool any = false, main_phase = false, sure = false;
    Site site = SITE_OTHER;
    long k = -1, cb = -1;
    uint64_t state = 0;
  } first;
  long ncb = 0;
  std::unordered_map<uint64_t, int> seen; // 1 clean, 2 bad, since last callback
  VectorXs prev = in.x0, prev_l = in.l0;
  bool null_step = false, moved = false;
  std::string bad;
  std::string bad_cls;
  auto flag_bad = [&](const char *cls, const std::string &d) {
    if (bad.empty()) {
      bad_cls = cls;
      bad = d;
    }
  };
  Task *tp = &t;
  t.on_seam = [&](Site site, long k) {
    if (site == SITE_COST_CALL || site == SITE_FN_CALL)
      if (tp->sx) {
        int &v = seen[hx(tp->sx, tp->sn)];
        if (!v)
          v = 1;
      }
    (void)k;
  };
  t.on_fault = [&](Site site, long k, const Fault &ff) {
    // a user function evaluated where the iterate stands: not a trial step
    bool here = tp->sx && tp->sn == r.x_opt.size() &&
                !memcmp(tp->sx, r.x_opt.data(), sizeof(double) * tp->sn);
    double step = s.workspace_->prim_step.size()
                      ? infn(s.workspace_->prim_step) * o.ls.alpha_min
                      : 0.;
    bool sure = here && (ncb == 0 || step > 1e-12 * (1. + infn(r.x_opt)));
    if (ncb == 0 && here) // first iteration: before any step was computed
      sure = infn(s.workspace_->pd_step) == 0. || step > 1e-12;
    if (!first.any) {
      first.any = true;
      first.site = site;
      first.k = k;
      first.cb = ncb;
      first.main_phase = here;
      first.sure = sure;
      first.state = hstate(r);
    }
    if (!throws && site == SITE_INTEGRATE)
      moved = true; // the space itself no longer says where the trial is
    if (site == SITE_CALLBACK) // the iterate it is shown was accepted
      prev = r.x_opt;
    if (tp->sx && (throws ? value_site(site) : site == SITE_COST_CALL))
      if (site == SITE_COST_CALL || site == SITE_FN_CALL)
        seen[hx(tp->sx, tp->sn)] = 2;
    (void)ff;
  };
  auto rec = std::make_shared<Recorder>();
  Snapshot got;
  rec->into = &got;
  rec->extra = [&](const Workspace &ws, const Results &q) {
    ncb++;
    if (!finite(q.x_opt) || !finite(q.data_lams_opt))
      flag_bad("non-finite-iterate", "callback saw a non-finite iterate");
    null_step = bits(prev, q.x_opt);
    if (!null_step && !moved) {
      auto it = seen.find(hx(q.x_opt.data(), q.x_opt.size()));
      if (it == seen.end())
        flag_bad("unevaluated-step",
                 "accepted iterate " + vs(q.x_opt) +
                     " was never evaluated before it was accepted");
      else if (it->second == 2)
        flag_bad("failed-step-accepted", "the step to " + vs(q.x_opt) +
                                             " was accepted although its "
                                             "evaluation failed");
    }
    seen.clear();
    prev = q.x_opt;
    prev_l = q.data_lams_opt;
    (void)ws;
  };
  s.registerCallback(rec);
  Outcome out;
  {
    TaskGuard tg(&t);
    out = attempt([&] { return s.solve(in.x0, in.l0); });
  }
  Snapshot end = snap(s, out);
  c.log("fault %s x%ld at evaluation %ld (%s%s) of %zu: %s %s flag %d after %zu "
        "iterations",
        fault_names[f.kind], f.repeat, at,
        first.any ? site_names[first.site] : "-",
        first.main_phase ? ", at the iterate" : "", sites.size(),
        outcome_name(out.kind), out.what.c_str(), (int)out.flag, r.num_iters);
  hash_snap(c, end);
  for (auto &v : got.traj)
    hv(c, v);
  c.sh((uint64_t)f.kind);
  c.sh((uint64_t)first.site);
  c.sh((uint64_t)out.kind);
  c.sh((uint64_t)t.evals);
  c.sh((uint64_t)at);
  if (!bad.empty())
    c.fail(bad_cls, "%s", bad.c_str());
  if (!first.any) {
    // a value fault aimed at a callback does nothing
    return;
  }
  c.nontrivial = true;
  // identical up to the fault
  if ((size_t)first.k < states.size() && states[first.k] != first.state)
    c.fail("diverged-before-fault",
           "the stored iterate differs from the fault-free run at evaluation "
           "%ld",
           first.k);
  bool aborted = out.kind != Outcome::RETURNED;
  if (!finite(end.x) || !finite(end.lam))
    c.fail("non-finite-iterate", "stored iterate x=%s lam=%s",
           vs(end.x).c_str(), vs(end.lam).c_str());
  if (throws) {
    Outcome::Kind want = f.kind == F_EXC_RUNTIME ? Outcome::RUNTIME
                         : f.kind == F_EXC_LOGIC ? Outcome::LOGIC
                                                 : Outcome::OTHER_INJ;
    bool must = !value_site(first.site) || f.kind != F_EXC_RUNTIME ||
                (first.sure && (first.site == SITE_COST_CALL ||
                                first.site == SITE_FN_CALL));
    if (out.kind == want && out.inj_id == 1 && t.evals == first.k + f.repeat &&
        f.repeat > 1)
      ; // surfaced once the step could not shrink any further
    if (must) {
      probe("must surface");
      if (out.kind != want || out.inj_id != 1)
        c.fail("error-absorbed", "%s thrown by %s at evaluation %ld: %s",
               fault_names[f.kind], site_names[first.site], first.k,
               outcome_name(out.kind));
      if (t.evals != first.k + 1)
        c.fail("error-late",
               "%ld evaluations after the failing one before it surfaced",
               t.evals - first.k - 1);
      if (hstate(r) != first.state)
        c.fail("abort-state", "the stored iterate changed while the error "
                              "propagated");
    } else
      probe(aborted ? "optional: surfaced" : "optional: backtracked");
    if (aborted && out.kind != want && out.kind != Outcome::LIB_ERROR)
      c.fail("error-replaced", "%s became %s", fault_names[f.kind],
             outcome_name(out.kind));
  } else {
    probe(aborted ? "value fault: raised" : "value fault: survived");
    // (residual costs, compositions and differentiated functions are also
    // evaluated for derivatives that may not depend on the corrupted value,
    // and for Hessians, which a converging iteration does not use)
    bool must = first.sure &&
                (first.site == SITE_COST_CALL || first.site == SITE_COST_GRAD ||
                 ((first.site == SITE_FN_CALL || first.site == SITE_FN_JAC) &&
                  !has_fd(p) && !uses_residual(p.cost) && !uses_compose(p)));
    if (must && out.kind != Outcome::LIB_ERROR)
      c.fail("nonfinite-absorbed",
             "%s from %s at the current iterate, evaluation %ld: %s flag %d",
             fault_names[f.kind], site_names[first.site], first.k,
             outcome_name(out.kind), (int)out.flag);
    if (must && ncb != first.cb)
      c.fail("nonfinite-late", "a step was accepted after the %s",
             site_names[first.site]);
    if (aborted && out.kind != Outcome::LIB_ERROR)
      c.fail("value-fault-outcome", "%s: %s %s", fault_names[f.kind],
             outcome_name(out.kind), out.what.c_str());
  }
  if (aborted && !bits(end.x, prev))
    c.fail("abort-state",
           "after the abort the stored iterate %s is not the last accepted one "
           "%s",
           vs(end.x).c_str(), vs(prev).c_str());
  if (!aborted && out.flag == SUCCESS) {
    std::string e = check_success(p, r, o.tol, r.mu);
    if (!e.empty())
      c.fail("false-success", "%s", e.c_str());
    e = check_reported(p, r, r.mu);
    if (!e.empty())
      c.fail("false-report", "%s", e.c_str());
  }
  if (!aborted && out.flag == SUCCESS && ncb != (long)r.num_iters + 1)
    c.fail("callbacks", "%ld callbacks for %zu iterations", ncb, r.num_iters);
}
sim::Registered sim::the_scenario = {
    "C03", run,
    "a case is one solve of a generated problem with one seeded fault (an "
    "exception of three kinds, NaN, infinity or one NaN entry, possibly over "
    "several consecutive evaluations) at a chosen evaluation, compared with a "
    "fault-free twin; non-trivial when the fault fired; distinct by fault kind, "
    "place, outcome and evaluation counts"};
