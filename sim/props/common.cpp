#include "common.hpp"
namespace w {
static double fn_scale(const KKT &k, const VectorXs &x, const VectorXs &lam) {
  double s = 1. + std::abs(k.value) + infn(k.grad) + infn(k.c) + infn(lam) +
             infn(x);
  if (k.J.size())
    s += k.J.cwiseAbs().maxCoeff() * (1. + infn(lam));
  return s;
}
static double distance(const SetSpec &s, const VectorXs &z) {
  double d = 0.;
  switch (s.kind) {
  case SetSpec::L1:
    return 0.;
  case SetSpec::PROD: {
    long k = 0;
    for (size_t i = 0; i < s.parts.size(); i++) {
      d = std::max(d, distance(s.parts[i], z.segment(k, s.sizes[i])));
      k += s.sizes[i];
    }
    return d;
  }
  default:
    return infn(VectorXs(z - ref_prox(s, z, 1.)));
  }
}
std::string check_success(const ProbSpec &p, const Results &r, double tol,
                          double mu) {
  char b[300];
  VectorXs x = r.x_opt, lam = r.data_lams_opt;
  if (!finite(x) || !finite(lam))
    return "reports success at a non-finite point";
  KKT k = ref_kkt(p, x, lam, mu);
  double s = fn_scale(k, x, lam);
  double slack = 1e-11 * s;
  double dslack = slack + (has_fd(p) ? 1e-3 * s : 0.);
  if (!(k.prim <= tol * (1. + 1e-9) + slack)) {
    snprintf(b, sizeof b,
             "success with primal residual %.6g > tol %g (reported %.6g)",
             k.prim, tol, r.prim_infeas);
    return b;
  }
  if (!(k.dual <= tol * (1. + 1e-9) + dslack)) {
    snprintf(b, sizeof b,
             "success with dual residual %.6g > tol %g (reported %.6g)", k.dual,
             tol, r.dual_infeas);
    return b;
  }
  long at = 0;
  for (auto &q : p.cstrs) {
    double d = distance(q.set, k.c.segment(at, q.fn.nr));
    if (!(d <= tol * (1. + 1e-9) + slack)) {
      snprintf(b, sizeof b, "success with a constraint %.6g outside its set",
               d);
      return b;
    }
    at += q.fn.nr;
  }
  if (!on_space(p.space, x, 1e-6))
    return "success at a point that is not on the space";
  return "";
}
std::string check_reported(const ProbSpec &p, const Results &r, double mu) {
  char b[300];
  VectorXs x = r.x_opt, lam = r.data_lams_opt;
  KKT k = ref_kkt(p, x, lam, mu);
  double s = fn_scale(k, x, lam);
  double eps = 1e-9 * s, deps = eps + (has_fd(p) ? 1e-3 * s : 0.);
  auto off = [](double a, double b, double e) {
    return !(std::abs(a - b) <= e);
  };
  if (off(r.value, k.value, eps)) {
    snprintf(b, sizeof b, "reported cost %.9g, is %.9g", r.value, k.value);
    return b;
  }
  if (off(r.prim_infeas, k.prim, eps)) {
    snprintf(b, sizeof b, "reported primal residual %.9g, is %.9g",
             r.prim_infeas, k.prim);
    return b;
  }
  if (off(r.dual_infeas, k.dual, deps)) {
    snprintf(b, sizeof b, "reported dual residual %.9g, is %.9g",
             r.dual_infeas, k.dual);
    return b;
  }
  for (size_t i = 0; i < p.cstrs.size(); i++)
    if (off(r.constraint_violations[(long)i], k.viol[(long)i], eps)) {
      snprintf(b, sizeof b, "reported violation %.9g of constraint %zu, is %.9g",
               r.constraint_violations[(long)i], i, k.viol[(long)i]);
      return b;
    }
  return "";
}
} // namespace w
