// C06: the line search honours its contract under failing evaluations, and the
// merit function it is run on is the one documented.
#include "common.hpp"
#include <proxsuite-nlp/linesearch-armijo.hpp>
using namespace w;

// ---------------------------------------------------- the search on its own
struct Ray { // phi(a), exact slope at 0
  double c0, c1, c2, c3, sw, sp, sa, s = 1.;
  double operator()(double a) const {
    return c0 + s * (a * (c1 + a * (c2 + a * c3)) + sa * std::sin(sw * a + sp));
  }
  double slope0() const { return s * (c1 + sa * sw * std::cos(sp)); }
};

struct Ev {
  double a, v;
  int kind; // 0 value, 1 runtime, 2 logic, 3 foreign
};
// Where the next trial must be, given the successful ones so far: the minimiser
// of the polynomial through phi(0), phi'(0) and the last (two) trials, kept in
// the contraction interval.
static void check_trials(Ctx &c, const std::vector<Ev> &ev, const LSOptions &o,
                         double phi0, double dphi0) {
  std::vector<const Ev *> good;
  for (size_t i = 0; i + 1 < ev.size(); i++) {
    const Ev &e = ev[i];
    double nx = ev[i + 1].a;
    if (e.kind) {
      if (e.kind == 1 && nx != std::max(0.5 * e.a, o.alpha_min))
        c.fail("halving", "after a failing trial at %.17g the next is %.17g",
               e.a, nx);
      continue;
    }
    good.push_back(&e);
    double lo = o.contraction_min * e.a, hi = o.contraction_max * e.a;
    auto is = [&](double want) {
      want = std::max(want, o.alpha_min);
      return std::abs(nx - want) <= 1e-5 * want;
    };
    if (o.interp_type == LSInterpolation::BISECTION) {
      if (!is(0.5 * e.a))
        c.fail("bisection", "after %.17g the next trial is %.17g", e.a, nx);
      continue;
    }
    if (!(nx <= hi * (1. + 1e-12)) && nx > o.alpha_min)
      c.fail("contraction", "trial %.17g after %.17g, contraction at most %g",
             nx, e.a, o.contraction_max);
    if (!(nx >= lo * (1. - 1e-12)))
      c.fail("contraction", "trial %.17g after %.17g, contraction at least %g",
             nx, e.a, o.contraction_min);
    typedef long double L;
    const Ev *f = good.size() > 1 ? good[good.size() - 2] : nullptr;
    if (!std::isfinite(e.v) || (f && !std::isfinite(f->v)))
      continue;
    L a0 = e.a, y0 = (L)e.v - phi0 - a0 * dphi0, c2, c3 = 0., want;
    L noise = 1e-15L * (1. + std::abs(e.v) + std::abs(phi0));
    if (o.interp_type == LSInterpolation::CUBIC && f) {
      L a1 = f->a, y1 = (L)f->v - phi0 - a1 * dphi0;
      noise += 1e-15L * std::abs(f->v);
      if (!(a0 <= 0.97L * a1)) // nearly the same point twice
        continue;
      c3 = (y0 / (a0 * a0) - y1 / (a1 * a1)) / (a0 - a1);
      c2 = y0 / (a0 * a0) - c3 * a0;
      L nc = noise / (a0 * a0), n3 = nc / (a1 - a0) * 2;
      L disc = c2 * c2 - 3 * c3 * dphi0;
      if (!(std::abs(c3) > 1e8L * n3) || !(std::abs(c2) > 1e8L * nc))
        continue;
      if (!(disc > 1e-6L * c2 * c2))
        continue;
      L num = -c2 + sqrtl(disc);
      if (!(std::abs(num) > 1e-6L * std::abs(c2)))
        continue;
      want = num / (3 * c3);
    } else {
      c2 = y0 / (a0 * a0);
      if (!(std::abs(c2) > 1e8L * noise / (a0 * a0)))
        continue;
      want = -dphi0 / (2 * c2);
    }
    auto pol = [&](L a) { return a * (dphi0 + a * (c2 + a * c3)); };
    if (std::abs(want - lo) < 1e-5L * lo || std::abs(want - hi) < 1e-5L * hi)
      continue;
    if (want < lo || want > hi) {
      L pl = pol(lo), ph = pol(hi);
      if (std::abs(pl - ph) <= 1e-6L * (std::abs(pl) + std::abs(ph)) +
                                   1e-14L * std::abs(phi0))
        continue;
      want = pl < ph ? lo : hi;
    }
    probe(f && o.interp_type == LSInterpolation::CUBIC ? "cubic trials checked"
                                                       : "quadratic trials checked");
    if (!is((double)want))
      c.fail("interpolation",
             "after the trial at %.17g the next is %.17g, the minimiser of the "
             "interpolant within the bounds is %.17g",
             e.a, nx, (double)want);
  }
}

static void standalone(Ctx &c) {
  LSOptions o;
  static const LSInterpolation li[] = {LSInterpolation::CUBIC,
                                       LSInterpolation::QUADRATIC,
                                       LSInterpolation::BISECTION};
  o.interp_type = li[c.choose(S_CFG, 3)];
  static const double am[] = {1e-6, 1e-3, 1e-2, 1e-8, 0.3};
  o.alpha_min = am[c.choose(S_CFG, 5)];
  static const std::size_t ms[] = {20, 5, 1, 40, 0};
  o.max_num_steps = ms[c.choose(S_CFG, 5)];
  static const double c1s[] = {1e-4, 1e-2, 0.3};
  o.armijo_c1 = c1s[c.choose(S_CFG, 3)];
  if (c.choose(S_CFG, 3) == 1) {
    o.contraction_min = c.pos(S_CFG, 0.1, 0.6);
    o.contraction_max = c.pos(S_CFG, 0.61, 0.95);
  }
  ArmijoLinesearch<double> ls(o);
  int nrun = c.range(S_OPS, 1, 4);
  long total = 0;
  for (int n = 0; n < nrun; n++) {
    Ray f;
    f.c0 = c.real(S_PROB, 5.);
    f.c1 = -c.pos(S_PROB, 1e-3, 5.);
    f.c2 = c.real(S_PROB, 1.) * std::pow(10., c.range(S_PROB, 0, 5));
    f.c3 = c.choose(S_PROB, 2) ? c.real(S_PROB, 50.) : 0.;
    f.sa = c.choose(S_PROB, 2) ? c.real(S_PROB, 3.) : 0.;
    f.sw = c.pos(S_PROB, 0.5, 40.);
    f.sp = c.real(S_PROB, 3.);
    if (c.choose(S_PROB, 6) == 5)
      f.c1 *= -1.; // not a descent direction
    if (c.choose(S_PROB, 3) == 2) { // small variations of a large value
      f.s = std::pow(10., -c.range(S_PROB, 0, 9));
      f.c0 *= std::pow(10., c.range(S_PROB, 0, 4));
    }
    double phi0 = f(0.), dphi0 = f.slope0();
    if (c.choose(S_PROB, 12) == 11)
      dphi0 = 1e-15;
    // faults: each trial may fail
    uint32_t mode = c.choose(S_FAULT, 5);
    std::vector<Ev> ev;
    auto phi = [&](double a) -> double {
      AllocPause ap;
      if (ev.size() > 2000)
        c.fail("unbounded", "more than 2000 evaluations in one line search");
      Ev e{a, f(a), 0};
      if (mode) {
        uint32_t k = c.choose(S_FAULT, mode == 4 ? 4 : 12);
        if (mode == 1 || mode == 4) {
          if (k >= (mode == 4 ? 1u : 6u))
            e.kind = 1;
        } else if (mode == 2) {
          if (k == 11)
            e.v = kNaN;
          else if (k == 10)
            e.v = kInf;
          else if (k >= 7)
            e.kind = 1;
        } else if (mode == 3) {
          if (k == 11)
            e.kind = 2;
          else if (k == 10)
            e.kind = 3;
          else if (k >= 8)
            e.kind = 1;
          else if (k == 7)
            e.v = kNaN;
        }
      }
      ev.push_back(e);
      c.hd(a);
      if (e.v != e.v)
        fired(F_NAN);
      else if (!std::isfinite(e.v))
        fired(F_INF);
      int id = (int)ev.size();
      if (e.kind == 1) {
        fired(F_EXC_RUNTIME);
        throw InjRuntime(id);
      }
      if (e.kind == 2) {
        fired(F_EXC_LOGIC);
        throw InjLogic(id);
      }
      if (e.kind == 3) {
        fired(F_EXC_OTHER);
        throw InjOther{id};
      }
      return e.v;
    };
    if (c.choose(S_OPS, 4) == 3) {
      o.armijo_c1 = c1s[c.choose(S_CFG, 3)];
      ls.setOptions(o);
    }
    double alpha = c.real(S_PROB, 3.), ret = 0.;
    Outcome out = attempt([&] {
      ret = ls.run(phi, phi0, dphi0, alpha);
      return SUCCESS;
    });
    total += (long)ev.size();
    std::string hist;
    for (size_t i = 0; i < ev.size() && i < 12; i++) {
      char b[64];
      snprintf(b, 64, " %.6g:%s%.6g", ev[i].a,
               ev[i].kind ? "throw " : "", ev[i].v);
      hist += b;
    }
    c.log("phi0 %.9g dphi0 %.9g c1 %g amin %g max %zu %s -> alpha %.17g phi "
          "%.17g %s trials%s",
          phi0, dphi0, o.armijo_c1, o.alpha_min, o.max_num_steps,
          mode ? "faulty" : "clean", alpha, ret, outcome_name(out.kind),
          hist.c_str());
    c.sh(ev.size() * 16 + mode);
    c.sh((uint64_t)out.kind);
    if (ev.empty())
      c.fail("no-evaluation", "no step was evaluated");
    if (ev[0].a != 1.)
      c.fail("first-step", "first trial step is %g, not the full step",
             ev[0].a);
    long ok = 0, thrown = 0;
    for (size_t i = 0; i < ev.size(); i++) {
      ev[i].kind ? thrown++ : ok++;
      if (!(ev[i].a >= o.alpha_min && ev[i].a <= 1.))
        c.fail("step-range", "trial step %.17g outside [%g, 1]", ev[i].a,
               o.alpha_min);
      if (i && !(ev[i].a < ev[i - 1].a ||
                 (ev[i].a == ev[i - 1].a && ev[i].a == o.alpha_min)))
        c.fail("not-decreasing", "trial %.17g after %.17g", ev[i].a,
               ev[i - 1].a);
      if (ev[i].kind >= 2 && i + 1 != ev.size())
        c.fail("error-absorbed", "the search went on after an error that is "
                                 "not a runtime_error");
    }
    check_trials(c, ev, o, phi0, dphi0);
    if (ok > (long)o.max_num_steps + 1)
      c.fail("too-many-steps", "%ld successful trials with a budget of %zu", ok,
             o.max_num_steps);
    const Ev &last = ev.back();
    if (out.kind != Outcome::RETURNED) {
      Outcome::Kind want = last.kind == 1   ? Outcome::RUNTIME
                           : last.kind == 2 ? Outcome::LOGIC
                           : last.kind == 3 ? Outcome::OTHER_INJ
                                            : Outcome::RETURNED;
      if (out.kind != want || out.inj_id != (int)ev.size())
        c.fail("error-replaced", "search ended with %s", outcome_name(out.kind));
      if (last.kind == 1 && last.a > o.alpha_min)
        c.fail("gave-up-early",
               "a failing trial at %.17g above the minimum step ended the "
               "search",
               last.a);
      c.nontrivial = true;
      continue;
    }
    if (thrown || n > 0)
      c.nontrivial = true;
    // the step returned was evaluated, successfully, with that value
    const Ev *acc = nullptr;
    for (auto &e : ev)
      if (e.a == alpha && e.kind == 0)
        acc = &e;
    if (!acc)
      c.fail("failed-step-accepted",
             "returned step %.17g was not successfully evaluated", alpha);
    if (!same_bits(ret, acc->v))
      c.fail("wrong-value", "returned value %.17g, the function gave %.17g at "
                            "that step",
             ret, acc->v);
    if (std::abs(dphi0) < o.dphi_thresh)
      continue;
    auto margin = [&](const Ev &e) {
      return e.v - phi0 - o.armijo_c1 * e.a * dphi0;
    };
    double eps = 1e-15 * (std::abs(phi0) + std::abs(acc->v) + std::abs(dphi0));
    bool exhausted = alpha <= o.alpha_min || ok == (long)o.max_num_steps + 1;
    if (!exhausted && !(margin(*acc) <= eps))
      c.fail("no-decrease",
             "accepted step %.17g misses the sufficient decrease by %g", alpha,
             margin(*acc));
    for (auto &e : ev)
      if (e.kind == 0 && &e != acc && margin(e) < -eps && std::isfinite(e.v))
        c.fail("skipped-good-step",
               "step %.17g gave sufficient decrease but was not taken", e.a);
    if (exhausted)
      probe("search exhausted");
    if (thrown)
      probe("accepted after failures");
  }
}

// ------------------------------------------------ the search inside a solve
static double moreau(const SetSpec &s, const VectorXs &z, double mu) {
  VectorXs pz = ref_prox(s, z, mu);
  return ref_set_value(s, pz) + (z - pz).squaredNorm() / (2. * mu);
}
static double ref_merit(const ProbSpec &p, const VectorXs &x,
                        const VectorXs &lam, const VectorXs &lam_prev,
                        const VectorXs &x_prev, double mu, double rho) {
  double m = ref_cost(p.cost, p.space).val(x)[0];
  long at = 0;
  for (auto &q : p.cstrs) {
    int nr = q.fn.nr;
    VectorXs v = ref_fn(q.fn, p.space).val(x);
    VectorXs l = lam.segment(at, nr);
    VectorXs z = v + mu * (lam_prev.segment(at, nr) - 0.5 * l);
    m += moreau(q.set, z, 0.5 * mu) + mu / 4. * l.squaredNorm();
    at += nr;
  }
  if (rho > 0.)
    m += 0.5 * rho * p.space.minus(x, x_prev).squaredNorm();
  return m;
}
static double ref_dmerit(const ProbSpec &p, const VectorXs &x,
                         const VectorXs &lam, const VectorXs &lam_prev,
                         const VectorXs &x_prev, double mu, double rho,
                         const VectorXs &dx, const VectorXs &dl,
                         double &scale) {
  VectorXs gr = ref_cost(p.cost, p.space).jac(x).row(0).transpose();
  double d = gr.dot(dx);
  scale = std::abs(d) + gr.norm() * dx.norm();
  long at = 0;
  for (auto &q : p.cstrs) {
    int nr = q.fn.nr;
    Ref f = ref_fn(q.fn, p.space);
    VectorXs v = f.val(x);
    VectorXs l = lam.segment(at, nr);
    VectorXs z = v + mu * (lam_prev.segment(at, nr) - 0.5 * l);
    VectorXs lp = (2. / mu) * (z - ref_prox(q.set, z, 0.5 * mu));
    MatrixXs J = f.jac(x);
    VectorXs Jdx = J * dx;
    d += lp.dot(Jdx);
    d += 0.5 * mu * (l - lp).dot(dl.segment(at, nr));
    scale += lp.norm() * J.norm() * dx.norm() +
             (z.norm() / mu + lp.norm()) * Jdx.norm() +
             (z.norm() + mu * l.norm()) * dl.segment(at, nr).norm();
    at += nr;
  }
  if (rho > 0.) {
    // the weight is a multiple of the identity on the tangent space
    VectorXs e = p.space.minus(x, x_prev);
    d += rho * e.dot(dx);
    scale += rho * e.norm() * dx.norm();
  }
  return d;
}

// the conditions a subproblem is solved for, on a vector space: gradient of
// the Lagrangian with the proximal term, and the multipliers' fixed point
static VectorXs ref_conditions(const ProbSpec &p, KktSystem kkt,
                               const VectorXs &x, const VectorXs &lam,
                               const VectorXs &lam_prev,
                               const VectorXs &x_prev, double mu, double rho,
                               double &scale) {
  VectorXs g = ref_cost(p.cost, p.space).jac(x).row(0).transpose();
  scale += infn(g);
  VectorXs r(g.size() + lam.size());
  long at = 0;
  for (auto &q : p.cstrs) {
    int nr = q.fn.nr;
    Ref f = ref_fn(q.fn, p.space);
    VectorXs l = lam.segment(at, nr), z = f.val(x) + mu * lam_prev.segment(at, nr);
    MatrixXs J = f.jac(x);
    g += J.transpose() * l;
    scale += infn(z) + infn(l) * J.norm();
    if (kkt == KKT_CLASSIC) {
      r.segment(g.size() + at, nr) = z - ref_prox(q.set, z, mu) - mu * l;
    } else {
      z -= 0.5 * mu * l;
      r.segment(g.size() + at, nr) =
          z - ref_prox(q.set, z, 0.5 * mu) - 0.5 * mu * l;
    }
    at += nr;
  }
  g += rho * (x - x_prev);
  scale += rho * (infn(x) + infn(x_prev));
  r.head(g.size()) = g;
  return r;
}

static void in_solver(Ctx &c) {
  GenOpts go;
  go.allow_fd = false;
  bool newton = c.choose(S_CFG, 2);
  if (newton)
    go.convex_only = go.euclidean_only = true;
  ProbSpec p = gen_problem(c, go);
  World wd(p);
  Solver s(*wd.prob);
  auto options = [&] {
    OptSpec q = gen_opts(c, p.space);
    if (newton)
      q.hess = HessianApprox::EXACT;
    return q;
  };
  OptSpec o = options();
  o.apply(s);
  s.setup();
  Sink sink;
  c.log("%s", describe(p).c_str());
  int nsolve = c.range(S_OPS, 1, 3);
  long steps = 0, failed = 0, newtons = 0;
  struct Seen {
    VectorXs x, lam;
  } old;
  std::string bad, bad_cls;
  std::string last_bad, last_cls; // found at the latest callback
  bool spoiled = false;
  auto rec = std::make_shared<Recorder>();
  rec->extra = [&](const Workspace &ws, const Results &q) {
    if (bad.empty() && !last_bad.empty()) {
      bad = last_bad;
      bad_cls = last_cls;
    }
    last_bad.clear();
    if (spoiled)
      return;
    auto note = [&](const char *cls, const char *fmt, auto... a) {
      if (!last_bad.empty())
        return;
      char b[400];
      snprintf(b, sizeof b, fmt, a...);
      last_bad = b;
      last_cls = cls;
    };
    double mu = q.mu, rho = q.rho, al = ws.alpha_opt;
    VectorXs dx = ws.prim_step, dl = ws.dual_step;
    VectorXs x = q.x_opt, lam = q.data_lams_opt, lp = ws.data_lams_prev;
    if (!finite(x) || !finite(lam) || !finite(dx) || !finite(dl))
      return;
    // (far away, sines of huge arguments are not comparable)
    if (infn(x) + infn(dx) > 1e7 || infn(lam) + infn(lp) + infn(dl) > 1e12)
      return;
    steps++;
    // the step taken
    VectorXs xe = p.space.plus(old.x, al * dx), le = old.lam + al * dl;
    double sx = 1. + infn(old.x) + al * infn(dx),
           sl = 1. + infn(old.lam) + al * infn(dl);
    if (!(infn(x - xe) <= 1e-9 * sx) || !(infn(lam - le) <= 1e-9 * sl))
      note("step", "new iterate is not the old one plus %.6g times the step",
           al);
    if (!(al >= o.ls.alpha_min * (1. - 1e-12) && al <= 1.))
      note("step-range", "accepted step size %.17g", al);
    double m0 = ref_merit(p, old.x, old.lam, lp, ws.x_prev, mu, rho);
    double m1 = ref_merit(p, x, lam, lp, ws.x_prev, mu, rho);
    double sm = 1. + std::abs(m1) + std::abs(m0) +
                (lam.squaredNorm() + lp.squaredNorm()) * mu;
    {
      KKT k = ref_kkt(p, x, lam, mu);
      sm += std::abs(k.value) + k.c.squaredNorm() / mu;
    }
    if (!(std::abs(q.merit - m1) <= 1e-8 * sm))
      note("merit", "merit reported %.12g, is %.12g", q.merit, m1);
    double sd = 0.;
    double d = ref_dmerit(p, old.x, old.lam, lp, ws.x_prev, mu, rho, dx, dl, sd);
    if (!(std::abs(d - ws.dmerit_dir) <= 1e-8 * (1. + sd)))
      note("merit-slope", "directional derivative reported %.12g, is %.12g",
           ws.dmerit_dir, d);
    if (newton && mu >= 1e-5) {
      // positive definite Hessian: no regularisation, the step is Newton's
      const double h = 1e-3;
      double sc = 0.;
      auto at = [&](double a) {
        return ref_conditions(p, o.kkt, old.x + a * dx, old.lam + a * dl, lp,
                              ws.x_prev, mu, rho, sc);
      };
      VectorXs r0 = at(0.), rp = at(h), rm = at(-h);
      double tol = 1e-10 * sc;
      if (infn(rp + rm - 2. * r0) <= tol) { // away from kinks
        VectorXs e = (rp - rm) / (2. * h) + r0;
        newtons++;
        if (!(infn(e) <= 1e-6 * sc))
          note("direction",
               "the step is not Newton's: the conditions (%.6g) would be left "
               "at %.6g, scale %.6g", infn(r0), infn(e), sc);
      }
    }
    bool exhausted =
        al <= o.ls.alpha_min * 1.0001 ||
        al <= std::pow(o.ls.contraction_max, (double)o.ls.max_num_steps) * 1.0001;
    if (!exhausted && std::abs(d) > 1e-9 * (1. + sd) &&
        !(m1 - m0 <= o.ls.armijo_c1 * al * d + 1e-8 * sm))
      note("no-decrease",
           "accepted step %.6g: merit %.12g -> %.12g, slope %.6g", al, m0, m1,
           d);
  };
  s.registerCallback(rec);
  for (int n = 0; n < nsolve; n++) {
    if (n && c.choose(S_OPS, 2)) {
      o = options();
      o.apply(s);
      s.setup();
    }
    c.log("%s", describe(o).c_str());
    Inputs in = gen_inputs(c, p);
    Task t;
    uint32_t nf = c.choose(S_FAULT, 5);
    for (uint32_t i = 0; i + 1 < nf; i++)
      t.faults.push_back(
          gen_fault(c, FM_RUNTIME | FM_NAN | FM_INF, gen_at(c), 1));
    old.x = in.x0;
    old.lam = in.l0;
    // value faults spoil the iteration they hit
    bool hit = false;
    t.on_seam = [&](Site site, long) {
      if (site == SITE_CALLBACK) {
        spoiled = hit;
        hit = false;
        return;
      }
      old.x = s.results_->x_opt;
      old.lam = s.results_->data_lams_opt;
    };
    t.on_fault = [&](Site site, long, const Fault &f) {
      failed++;
      if (f.kind != F_EXC_RUNTIME)
        hit = true;
      (void)site;
    };
    last_bad.clear();
    Outcome out;
    {
      TaskGuard tg(&t);
      out = attempt([&] { return s.solve(in.x0, in.l0); });
    }
    const Results &q = *s.results_;
    c.log("-> %s flag %d iters %zu merit %.17g", outcome_name(out.kind),
          (int)out.flag, q.num_iters, q.merit);
    c.sh(q.num_iters * 64 + (uint64_t)t.evals);
    c.sh((uint64_t)out.kind);
    // the last callback of a completed solve follows no step
    if (out.kind != Outcome::RETURNED && bad.empty() && !last_bad.empty()) {
      bad = last_bad;
      bad_cls = last_cls;
    }
    last_bad.clear();
    if (!bad.empty())
      c.fail(bad_cls, "%s", bad.c_str());
  }
  probe("steps checked", steps);
  probe("Newton directions checked", newtons);
  c.nontrivial = steps > 0;
  (void)failed;
}

static void run(Ctx &c) {
  if (c.choose(S_CFG, 3) == 1)
    in_solver(c);
  else
    standalone(c);
}
sim::Registered sim::the_scenario = {
    "C06", run,
    "a case is a history of 1-4 line searches on one object along generated "
    "rays with trials that throw or return NaN/inf by seeded choice, or 1-3 "
    "faulty solves whose every accepted step is compared with a reference merit "
    "function; non-trivial when a failing trial, a reused object or a solver "
    "step was checked; distinct by trial/evaluation counts and outcomes"};
