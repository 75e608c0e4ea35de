// C12: quasi-Newton Hessians. After any history the approximation is the one
// the visited points define: symmetric, positive, secant, and never poisoned.
#include "common.hpp"
#include "proxsuite-nlp/bfgs-strategy.hpp"
#include <Eigen/Eigenvalues>
using namespace w;
using MatL = Eigen::Matrix<long double, -1, -1>;
using VecL = Eigen::Matrix<long double, -1, 1>;

// The reference: one step from the previous approximation, in long double.
struct Model {
  MatrixXs H;
  VectorXs x, g;
  bool init = false;
  bool psd = true;
  bool clean = true;  // H was symmetric positive before the last step
  bool huge = false;  // overflows are not the subject
  // what the last step did
  enum { INIT, SKIPPED, UPDATED, UNCLEAR } last = INIT;
  double bound = 0.; // size of the terms of the update
  VectorXs s, y;

  template <bool Inverse> void step(const VectorXs &nx, const VectorXs &ng) {
    if (!init) {
      init = true;
      last = INIT;
    } else {
      s = nx - x;
      y = ng - g;
      VecL sl = s.cast<long double>(), yl = y.cast<long double>();
      long double sy = sl.dot(yl);
      if (!s.allFinite() || !y.allFinite()) {
        last = SKIPPED; // nothing can be learnt from that
      } else if (std::abs((double)sy) <= 1e-10 * s.norm() * y.norm() ||
                 s.norm() * y.norm() < 1e-200)
        last = s.isZero(0.) || y.isZero(0.) ? SKIPPED : UNCLEAR;
      else if (sy < 0)
        last = SKIPPED;
      else {
        last = UPDATED;
        clean = (H - H.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * H.norm() &&
                Eigen::SelfAdjointEigenSolver<MatrixXs>(H, Eigen::EigenvaluesOnly)
                        .eigenvalues()[0] > 0.;
        if (Inverse)
          std::swap(sl, yl);
        long n = s.size();
        MatL V = MatL::Identity(n, n) - yl * sl.transpose() / sy;
        MatL A = V * H.cast<long double>() * V.transpose();
        MatL B = yl * yl.transpose() / sy;
        bound = 1. + (double)(V.squaredNorm() *
                                  H.cast<long double>().norm() +
                              B.norm());
        H = (A + B).cast<double>();
      }
    }
    for (const VectorXs *v : {&nx, &ng})
      for (long i = 0; i < v->size(); i++)
        huge |= std::isfinite((*v)[i]) && std::abs((*v)[i]) > 1e50;
    for (long i = 0; i < H.size(); i++)
      huge |= std::abs(H.data()[i]) > 1e50;
    psd = last == UPDATED || last == INIT;
    x = nx;
    g = ng;
  }
  // compare with the actual approximation, then go on from there
  template <bool Inverse> void check(Ctx &c, const MatrixXs &act) {
    if (huge)
      return;
    if (last == UNCLEAR) {
      if (act.allFinite())
        H = act;
      else
        c.fail("poisoned", "an update that is hardly defined left entries that "
                           "are not finite");
      return;
    }
    if (!act.allFinite())
      c.fail("poisoned", "the approximation has entries that are not finite");
    if (last != UPDATED) {
      for (long i = 0; i < act.size(); i++)
        if (!same_bits(act.data()[i], H.data()[i]))
          c.fail("skipped-update",
                 "the approximation changed without positive curvature");
      return;
    }
    double err = (act - H).cwiseAbs().maxCoeff();
    if (!(err <= 1e-10 * bound))
      c.fail("wrong-update",
             "the approximation is off by %g after an update of size %g", err,
             bound);
    if (clean && !((act - act.transpose()).cwiseAbs().maxCoeff() <= 1e-10 * bound))
      c.fail("not-symmetric", "the approximation is not symmetric");
    VectorXs res = Inverse ? VectorXs(act * y - s) : VectorXs(act * s - y);
    double scale = bound * (Inverse ? y.norm() : s.norm()) + s.norm() + y.norm();
    if (!(res.cwiseAbs().maxCoeff() <= 1e-10 * scale))
      c.fail("secant", "the approximation misses the last change of the "
                       "gradient by %g",
             res.cwiseAbs().maxCoeff());
    Eigen::SelfAdjointEigenSolver<MatrixXs> es(act, Eigen::EigenvaluesOnly);
    if (clean && !(es.eigenvalues()[0] >= -1e-9 * bound))
      c.fail("not-positive", "the approximation has the eigenvalue %g",
             es.eigenvalues()[0]);
    H = act;
  }
};

// ------------------------------------------------ the strategy on its own
template <BFGSType T> static void unit(Ctx &c) {
  constexpr bool Inv = T == BFGSType::InverseHessian;
  using Strat = BFGSStrategy<double, T>;
  Sink sink;
  int n = c.range(S_CFG, 1, 5);
  struct Obj {
    std::unique_ptr<Strat> b;
    MatrixXs H;
    Model m;
    MatrixXs A; // the true Hessian
    VectorXs x;
  } o[3];
  int steps = c.range(S_OPS, 3, c.thorough ? 60 : 40);
  int good = 0, bad = 0;
  for (int k = 0; k < steps; k++) {
    int i = c.range(S_OPS, 0, 2), j = c.range(S_OPS, 0, 2);
    int op = (int)c.choose(S_OPS, 12);
    Obj &q = o[i];
    c.sh(op);
    if (!q.b)
      op = 0;
    if (op == 0) {
      if (c.choose(S_OPS, 8) == 7) { // used before it has a size
        Strat e;
        bool threw = false;
        VectorXs z = VectorXs::Zero(n);
        try {
          e.init(z, z);
        } catch (const std::runtime_error &) {
          threw = true;
        }
        if (!threw || e.isValid())
          c.fail("unusable", "a strategy without dimension was initialised");
      }
      q.b = std::make_unique<Strat>(n);
      MatrixXs M(n, n);
      for (long a = 0; a < M.size(); a++)
        M.data()[a] = c.real(S_DATA, 2.);
      q.A = M * M.transpose() + c.pos(S_DATA, 0.05, 2.) * MatrixXs::Identity(n, n);
      q.H = MatrixXs::Identity(n, n);
      q.m = Model();
      q.m.H = q.H;
      q.x = VectorXs::Zero(n);
      continue;
    }
    if (op == 1) { // copy
      o[j].b = std::make_unique<Strat>(*q.b);
      if (i != j) {
        o[j].H = q.H;
        o[j].m = q.m;
        o[j].A = q.A;
        o[j].x = q.x;
      }
      continue;
    }
    if (op == 2 && o[j].b && i != j) { // assign, move
      if (c.choose(S_OPS, 2))
        *q.b = *o[j].b;
      else {
        *q.b = std::move(*o[j].b);
        o[j].b.reset();
      }
      q.H = o[j].H;
      q.m = o[j].m;
      q.A = o[j].A;
      q.x = o[j].x;
      continue;
    }
    VectorXs nx = q.x, g;
    if (op != 3) // 3: same point again
      for (int a = 0; a < n; a++)
        nx[a] += c.real(S_DATA, 2.);
    g = q.A * nx;
    if (op == 4) // concave along the way
      g = -g;
    if (op == 5 || op == 6) {
      Action a{c.choose(S_FAULT, 3) == 0   ? F_NAN
               : c.choose(S_FAULT, 2) == 0 ? F_INF
                                           : F_NAN_ONE,
               c.choose(S_FAULT, 64)};
      corrupt(a, op == 5 ? g.data() : nx.data(), n);
      fired(a.kind);
      bad++;
    }
    if (op == 7) {
      for (int a = 0; a < n; a++)
        g[a] = lie(c.choose(S_FAULT, 64), a);
      fired(F_LIE);
    }
    if (op == 8) { // start again from here
      q.b->init(nx, g);
      q.m.x = nx;
      q.m.g = g;
      q.m.init = true;
    } else {
      bool was = q.m.init;
      q.b->update(nx, g, q.H);
      q.m.template step<Inv>(nx, g);
      c.log("update %d: %s", i,
            q.m.last == Model::INIT      ? "init"
            : q.m.last == Model::SKIPPED ? "skipped"
            : q.m.last == Model::UPDATED ? "updated"
                                         : "unclear");
      q.m.template check<Inv>(c, q.H);
      if (was && q.m.last != Model::UNCLEAR && q.b->is_psd != q.m.psd)
        c.fail("flag", "is_psd is %d after an update that was %s",
               (int)q.b->is_psd, q.m.psd ? "made" : "skipped");
      good += q.m.last == Model::UPDATED;
      if (q.m.last == Model::UPDATED)
        probe("curvature pair accepted");
      else if (q.m.last == Model::SKIPPED)
        probe("curvature pair rejected");
    }
    if (nx.allFinite())
      q.x = nx;
    for (long a = 0; a < q.H.size(); a++)
      c.hd(q.H.data()[a]);
  }
  c.nontrivial = good > 1 && bad > 0;
}

// ------------------------------------------------ inside the solver
struct Tap : Cost { // the gradients handed to the solver
  PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
  shared_ptr<Cost> in;
  mutable std::vector<std::pair<VectorXs, VectorXs>> seen;
  explicit Tap(shared_ptr<Cost> c) : Cost(c->nx(), c->ndx()), in(c) {}
  using Cost::computeGradient;
  using Cost::computeHessian;
  double call(const ConstVectorRef &x) const override { return in->call(x); }
  void computeGradient(const ConstVectorRef &x, VectorRef out) const override {
    in->computeGradient(x, out);
    AllocPause p;
    seen.emplace_back(x, out);
  }
  void computeHessian(const ConstVectorRef &x, MatrixRef out) const override {
    in->computeHessian(x, out);
  }
};

static void solver(Ctx &c) {
  GenOpts go;
  go.euclidean_only = true;
  go.no_seam_manifold = true;
  go.convex_only = c.choose(S_PROB, 3) != 2;
  ProbSpec p = gen_problem(c, go);
  if (c.choose(S_PROB, 2) == 0)
    p.cstrs.clear();
  c.log("%s", describe(p).c_str());
  World wd(p);
  auto tap = std::make_shared<Tap>(wd.prob->cost_);
  wd.prob->cost_ = tap;
  Solver s(*wd.prob);
  Sink sink;
  Task t;
  TaskGuard tg(&t);
  int id = 1, nd = p.space.ndx();
  long checked = 0, faulty = 0, updates = 0;
  Model m;
  bool known = false; // m.x, m.g are what the strategy holds
  auto fresh = [&](OptSpec o) {
    o.hess = HessianApprox::BFGS;
    o.max_iters = std::min<std::size_t>(o.max_iters, 60);
    o.apply(s);
    s.setup();
    m = Model();
    m.H = MatrixXs::Identity(nd, nd);
    known = true;
    tap->seen.clear();
    for (long a = 0; a < nd * nd; a++)
      if (s.workspace_->objective_hessian.data()[a] != m.H.data()[a])
        c.fail("start", "setup() did not start from the identity");
  };
  fresh(gen_opts(c, p.space));
  auto cb = std::make_shared<Recorder>();
  cb->with_seam = false;
  cb->extra = [&](const Workspace &ws, const Results &q) {
    const MatrixXs H = ws.objective_hessian;
    c.log("iter %zu step %.3g merit %.6g", q.num_iters, ws.alpha_opt, q.merit);
    if (known) {
      bool clear = true, upd = false;
      for (auto &e : tap->seen) {
        if (m.init && m.x == e.first) { // evaluated again
          m.g = e.second;
          continue;
        }
        m.step<false>(e.first, e.second);
        clear &= m.last != Model::UNCLEAR && !(upd && m.last == Model::UPDATED);
        upd |= m.last == Model::UPDATED;
      }
      m.last = !clear ? Model::UNCLEAR : upd ? Model::UPDATED : Model::SKIPPED;
      if (upd && clear && tap->seen.size() > 1)
        probe("point evaluated again within an iteration");
      m.check<false>(c, H);
      checked++;
      updates += upd;
    } else {
      if (!m.huge && !H.allFinite())
        c.fail("poisoned", "the approximation has entries that are not finite "
                           "after an earlier solve was aborted");
      m.H = H;
      if (!tap->seen.empty()) {
        m.x = tap->seen.back().first;
        m.g = tap->seen.back().second;
        m.init = true;
        known = true;
      }
    }
    tap->seen.clear();
    for (long a = 0; a < H.size(); a++)
      c.hd(H.data()[a]);
  };
  s.registerCallback(cb);
  int n = c.range(S_OPS, 1, c.thorough ? 6 : 4);
  for (int k = 0; k < n; k++) {
    if (k && c.choose(S_OPS, 3) == 2)
      fresh(gen_opts(c, p.space));
    Inputs in = gen_inputs(c, p);
    t = Task();
    uint32_t nf = c.choose(S_FAULT, 3);
    for (uint32_t i = 0; i < nf; i++) {
      Fault f = gen_fault(c, FM_THROWS | FM_VALUES | FM_LIE, gen_at(c, 7), id++);
      f.repeat = std::min(f.repeat, 2l);
      t.faults.push_back(f);
    }
    Outcome r = attempt([&] { return s.solve(in.x0, in.l0); });
    bool fired_any = false;
    for (auto &f : t.faults)
      fired_any |= f.fired;
    faulty += fired_any;
    c.log("solve %d: %s flag %d, %zu iterations", k, outcome_name(r.kind),
          (int)r.flag, s.results_->num_iters);
    c.h(r.kind);
    if (r.kind)
      for (auto &e : tap->seen)
        m.huge |= e.second.allFinite() && e.second.norm() > 1e50;
    if (!m.huge && !s.workspace_->objective_hessian.allFinite())
      c.fail("poisoned",
             "the approximation has entries that are not finite after a solve "
             "that %s",
             outcome_name(r.kind));
    if (r.kind) { // it may or may not have seen the last point
      known = false;
      tap->seen.clear();
      probe("solve with BFGS aborted");
    }
    c.sh(s.results_->num_iters);
  }
  probe("solver updates checked", checked);
  c.nontrivial = updates > 1 && faulty > 0;
}

static void run(Ctx &c) {
  switch (c.choose(S_CFG, 4)) {
  case 0:
    return unit<BFGSType::Hessian>(c);
  case 1:
    return unit<BFGSType::InverseHessian>(c);
  default:
    return solver(c);
  }
}
Registered sim::the_scenario = {
    "C12", run,
    "a case is a history of updates, copies and re-initialisations of BFGS "
    "strategies fed good, concave and garbage curvature, or a history of "
    "solves with the BFGS Hessian under faults; non-trivial when at least two "
    "updates were accepted and a fault hit; distinct by operations and "
    "iteration counts"};
