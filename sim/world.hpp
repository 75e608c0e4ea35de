// Simulated world: optimisation problems, spaces and user code whose every
// evaluation crosses a seam, plus an independent reference for what they mean.
#pragma once
#include "core.hpp"

#include <cmath>
#include <limits>

#include <proxsuite-nlp/prox-solver.hpp>
#include <proxsuite-nlp/cost-sum.hpp>
#include <proxsuite-nlp/function-ops.hpp>
#include <proxsuite-nlp/helpers/history-callback.hpp>
#include <proxsuite-nlp/modelling/autodiff/finite-difference.hpp>
#include <proxsuite-nlp/modelling/constraints.hpp>
#include <proxsuite-nlp/modelling/constraints/box-constraint.hpp>
#include <proxsuite-nlp/modelling/constraints/constraint-set-product.hpp>
#include <proxsuite-nlp/modelling/constraints/equality-constraint.hpp>
#include <proxsuite-nlp/modelling/constraints/l1-penalty.hpp>
#include <proxsuite-nlp/modelling/constraints/negative-orthant.hpp>
#include <proxsuite-nlp/modelling/costs/quadratic-residual.hpp>
#include <proxsuite-nlp/modelling/costs/squared-distance.hpp>
#include <proxsuite-nlp/modelling/residuals/linear.hpp>
#include <proxsuite-nlp/modelling/residuals/state-residual.hpp>
#include <proxsuite-nlp/modelling/spaces/cartesian-product.hpp>
#include <proxsuite-nlp/modelling/spaces/tangent-bundle.hpp>
#include <proxsuite-nlp/modelling/spaces/vector-space.hpp>

namespace w {
using namespace proxsuite::nlp;
using namespace sim;
PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
using Manifold = ManifoldAbstractTpl<double>;
using Cost = CostFunctionBaseTpl<double>;
using Fn = C2FunctionTpl<double>;
using Set = ConstraintSetTpl<double>;
using Cstr = ConstraintObjectTpl<double>;
using Problem = ProblemTpl<double>;
using Solver = ProxNLPSolverTpl<double>;
using Workspace = WorkspaceTpl<double>;
using Results = ResultsTpl<double>;
using LSOptions = Linesearch<double>::Options;
constexpr double kInf = std::numeric_limits<double>::infinity();
constexpr double kNaN = std::numeric_limits<double>::quiet_NaN();

// --------------------------------------------------------------- spaces
struct BlockSpec {
  enum Kind { RN, S1, TRN, TS1 } kind = RN;
  int n = 1; // dimension of the RN parts
  int nx() const {
    return kind == RN ? n : kind == S1 ? 2 : kind == TRN ? 2 * n : 3;
  }
  int ndx() const {
    return kind == RN ? n : kind == S1 ? 1 : kind == TRN ? 2 * n : 2;
  }
};

constexpr uint32_t HUGE_LIE = 1u << 27; // and its size in the bits above
inline double lie(uint32_t arg, long i) {
  uint64_t z = ((uint64_t)arg + 1) * 0x9e3779b97f4a7c15ull + (uint64_t)i * 77;
  z ^= z >> 29;
  z *= 0xbf58476d1ce4e5b9ull;
  z ^= z >> 32;
  double m = std::pow(10., (double)((int)(z % 10) - 3));
  if (arg & HUGE_LIE)
    m *= 1e25 * std::pow(10., (double)(arg >> 28) * 18.);
  return ((z >> 8) & 1 ? -1. : 1.) * m * (double)((z >> 9) % 1000) / 1000.;
}

// The unit circle, written by a user of the library.
struct S1Space : ManifoldAbstractTpl<double> {
  PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
  int nx() const override { return 2; }
  int ndx() const override { return 1; }
  VectorXs neutral() const override {
    VectorXs e(2);
    e << 1., 0.;
    return e;
  }
  VectorXs rand() const override { return neutral(); }
  bool isNormalized(const ConstVectorRef &x) const override {
    return x.size() == 2 && std::abs(x.norm() - 1.) < 1e-6;
  }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &,
                           MatrixRef, int) const override {}

protected:
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v,
                      VectorRef out) const override {
    Action a = seam(SITE_INTEGRATE, x.data(), 2);
    double s = std::sin(v[0]), c = std::cos(v[0]);
    double x0 = x[0], x1 = x[1];
    out[0] = c * x0 - s * x1;
    out[1] = s * x0 + c * x1;
    if (a.kind)
      out[a.arg % 2] = a.kind == F_LIE   ? lie(a.arg, 0)
                       : a.kind == F_INF ? kInf
                                         : kNaN;
  }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &,
                       MatrixRef J, int) const override {
    J.setIdentity();
  }
  void difference_impl(const ConstVectorRef &x0, const ConstVectorRef &x1,
                       VectorRef out) const override {
    Action a = seam(SITE_DIFFERENCE, x1.data(), 2);
    out[0] = std::atan2(x0[0] * x1[1] - x0[1] * x1[0],
                        x0[0] * x1[0] + x0[1] * x1[1]);
    if (a.kind)
      out[0] = a.kind == F_LIE   ? lie(a.arg, 0)
               : a.kind == F_INF ? kInf
                                 : kNaN;
  }
  void Jdifference_impl(const ConstVectorRef &, const ConstVectorRef &,
                        MatrixRef J, int arg) const override {
    J(0, 0) = arg == 0 ? -1. : 1.;
  }
};

struct SpaceSpec {
  std::vector<BlockSpec> blocks;
  int nx() const {
    int r = 0;
    for (auto &b : blocks)
      r += b.nx();
    return r;
  }
  int ndx() const {
    int r = 0;
    for (auto &b : blocks)
      r += b.ndx();
    return r;
  }
  bool euclidean() const {
    for (auto &b : blocks)
      if (b.kind == BlockSpec::S1 || b.kind == BlockSpec::TS1)
        return false;
    return true;
  }
  // reference operations (independent of the library)
  VectorXs plus(const VectorXs &x, const VectorXs &v) const;
  VectorXs minus(const VectorXs &x1, const VectorXs &x0) const;
  MatrixXs tangent(const VectorXs &x) const; // d(x (+) v)/dv at 0, nx x ndx
  // second-order term: sum_i g_i d2x_i/dv2
  MatrixXs curvature(const VectorXs &x, const VectorXs &g) const;
  polymorphic<Manifold> make() const;
};

// --------------------------------------------------------------- closed forms
struct Smooth {
  MatrixXs Q; // symmetric or empty
  VectorXs a;
  double c = 0.;
  struct Sin {
    double w;
    VectorXs u;
    double p;
  };
  struct Quart {
    double w;
    VectorXs u;
    double q;
  };
  std::vector<Sin> sins;
  std::vector<Quart> quarts;
  double val(const ConstVectorRef &x) const;
  VectorXs grad(const ConstVectorRef &x) const;
  MatrixXs hess(const ConstVectorRef &x) const;
};

// reference semantics of a (vector) function on the space
struct Ref {
  int nr = 0;
  std::function<VectorXs(const VectorXs &)> val;
  std::function<MatrixXs(const VectorXs &)> jac;
  std::function<MatrixXs(const VectorXs &, const VectorXs &)> vhp; // may be 0
};

inline void corrupt(Action a, double *d, long n) {
  if (!a.kind || n == 0)
    return;
  if (a.kind == F_LIE) {
    for (long i = 0; i < n; i++)
      d[i] = lie(a.arg, i);
    return;
  }
  double bad = a.kind == F_INF ? ((a.arg & 1) ? -kInf : kInf) : kNaN;
  if (a.kind == F_NAN_ONE)
    d[(a.arg >> 1) % n] = kNaN;
  else
    for (long i = 0; i < n; i++)
      d[i] = bad;
}

// user functions: closed forms restricted to the space
struct PureFn : Fn {
  PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
  SpaceSpec sp;
  std::vector<Smooth> f;
  PureFn(const SpaceSpec &sp, std::vector<Smooth> f)
      : Fn(sp.nx(), sp.ndx(), (int)f.size()), sp(sp), f(std::move(f)) {}
  VectorXs operator()(const ConstVectorRef &x) const override;
  using Fn::computeJacobian;
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override;
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v,
                            MatrixRef H) const override;
};

// user code around any function: the seam
struct SeamFn : Fn {
  PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
  shared_ptr<Fn> in;
  explicit SeamFn(shared_ptr<Fn> f) : Fn(f->nx(), f->ndx(), f->nr()), in(f) {}
  VectorXs operator()(const ConstVectorRef &x) const override {
    Action a = seam(SITE_FN_CALL, x.data(), x.size());
    VectorXs r = (*in)(x);
    corrupt(a, r.data(), r.size());
    return r;
  }
  using Fn::computeJacobian;
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    Action a = seam(SITE_FN_JAC, x.data(), x.size());
    in->computeJacobian(x, J);
    poke(a, J);
  }
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v,
                            MatrixRef H) const override {
    Action a = seam(SITE_FN_VHP, x.data(), x.size());
    in->vectorHessianProduct(x, v, H);
    poke(a, H);
  }
  static void poke(Action a, MatrixRef J) {
    if (!a.kind || J.size() == 0)
      return;
    if (a.kind == F_LIE) {
      for (long i = 0; i < J.size(); i++)
        J(i % J.rows(), i / J.rows()) = lie(a.arg, i);
      return;
    }
    double bad = a.kind == F_INF ? ((a.arg & 1) ? -kInf : kInf) : kNaN;
    long k = (a.arg >> 1) % J.size();
    if (a.kind == F_NAN_ONE)
      J(k % J.rows(), k / J.rows()) = kNaN;
    else
      J.setConstant(bad);
  }
};

struct SeamCost : Cost {
  PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
  shared_ptr<Cost> in;
  explicit SeamCost(shared_ptr<Cost> c) : Cost(c->nx(), c->ndx()), in(c) {}
  using Cost::computeGradient;
  using Cost::computeHessian;
  double call(const ConstVectorRef &x) const override {
    Action a = seam(SITE_COST_CALL, x.data(), x.size());
    double v = in->call(x);
    corrupt(a, &v, 1);
    return v;
  }
  void computeGradient(const ConstVectorRef &x, VectorRef out) const override {
    Action a = seam(SITE_COST_GRAD, x.data(), x.size());
    in->computeGradient(x, out);
    corrupt(a, out.data(), out.size());
  }
  void computeHessian(const ConstVectorRef &x, MatrixRef out) const override {
    Action a = seam(SITE_COST_HESS, x.data(), x.size());
    in->computeHessian(x, out);
    SeamFn::poke(a, out);
  }
};

// --------------------------------------------------------------- specs
struct FnSpec {
  enum Kind {
    AFFINE,    // user closed form, affine in the ambient coordinates
    SMOOTH,    // user closed form, nonlinear
    LINEAR,    // LinearFunctionTpl (vector spaces)
    LIN_DIFF,  // LinearFunctionDifferenceToPoint
    DIFF,      // ManifoldDifferenceToPoint
    COMPOSE,   // user outer function o ManifoldDifferenceToPoint
    FD,        // finite_difference_wrapper<TOC2> over user code
    COST_AS_FN // QuadraticDistanceCost used as a function
  } kind = AFFINE;
  int nr = 1;
  std::vector<Smooth> f;
  MatrixXs A;
  VectorXs b, target;
};

struct CostSpec {
  enum Kind {
    QUAD,     // user convex quadratic
    SMOOTH,   // user nonlinear
    DIST,     // QuadraticDistanceCost
    RESID,    // QuadraticResidualCost over a function
    SUM,      // CostSum
    FROM_FN   // func_to_cost
  } kind = QUAD;
  Smooth f;
  MatrixXs W;
  VectorXs target, slope;
  double constant = 0.;
  bool gn = true;
  FnSpec fn;
  std::vector<CostSpec> parts;
  std::vector<double> weights;
};

struct SetSpec {
  enum Kind { EQ, NEG, BOX, L1, PROD } kind = EQ;
  VectorXs lo, hi;
  std::vector<SetSpec> parts;
  std::vector<int> sizes;
  bool curved = false;
};

struct CstrSpec {
  FnSpec fn;
  SetSpec set;
};

struct ProbSpec {
  SpaceSpec space;
  CostSpec cost;
  std::vector<CstrSpec> cstrs;
  VectorXs xf; // a feasible point, by construction (may be loose)
};

struct OptSpec {
  LDLTChoice ldlt = LDLTChoice::BUNCHKAUFMAN;
  HessianApprox hess = HessianApprox::GAUSS_NEWTON;
  KktSystem kkt = KKT_CLASSIC;
  MultiplierUpdateMode mul = MultiplierUpdateMode::NEWTON;
  double tol = 1e-6, mu_init = 1e-2, rho = 0., mu_lower = 1e-9;
  VerboseLevel verbose = QUIET;
  std::size_t max_iters = 100, max_al = 1000, max_ref = 5;
  double kkt_tol = 1e-13;
  LSOptions ls;
  BCLParamsTpl<double> bcl;
  void apply(Solver &s) const;
};

// --------------------------------------------------------------- generation
struct GenOpts {
  bool euclidean_only = false;
  bool convex_only = false;  // strongly convex cost, affine constraints
  bool allow_fd = true;
  bool allow_l1 = true;
  bool allow_prod = true;
  bool big = true;       // sometimes more than 32 unknowns
  int max_n = 6;
  int max_cstr = 4;
  bool no_seam_manifold = false; // no user-written manifold
  bool lib_costs = true;
};
SpaceSpec gen_space(Ctx &c, const GenOpts &o);
ProbSpec gen_problem(Ctx &c, const GenOpts &o);
Smooth gen_smooth(Ctx &c, int nx);
SetSpec gen_set(Ctx &c, const GenOpts &o, int nr, int depth, bool &anchored);
CstrSpec gen_cstr(Ctx &c, const GenOpts &o, const SpaceSpec &sp,
                  const VectorXs &xf);
CostSpec gen_cost(Ctx &c, const GenOpts &o, const SpaceSpec &sp, int depth = 0);
FnSpec gen_fn(Ctx &c, const GenOpts &o, const SpaceSpec &sp, int nr);
VectorXs gen_point(Ctx &c, Stream s, const SpaceSpec &sp, double lim);
VectorXs gen_vec(Ctx &c, Stream s, int n, double lim);
MatrixXs gen_mat(Ctx &c, Stream s, int r, int k, double lim);
MatrixXs gen_spd(Ctx &c, Stream s, int n, double lo);
OptSpec gen_opts(Ctx &c, const SpaceSpec &sp, bool wild = true);
std::string describe(const ProbSpec &p);
std::string describe(const OptSpec &o);

// --------------------------------------------------------------- building
struct Keep { // objects the library only refers to
  std::vector<shared_ptr<void>> v;
  template <class T> shared_ptr<T> add(shared_ptr<T> p) {
    v.push_back(p);
    return p;
  }
};
shared_ptr<Fn> build_fn(const FnSpec &, const SpaceSpec &, Keep &,
                        bool seams = true);
shared_ptr<Cost> build_cost(const CostSpec &, const SpaceSpec &, Keep &,
                            bool seams = true);
polymorphic<Set> build_set(const SetSpec &);
Ref ref_fn(const FnSpec &, const SpaceSpec &);
Ref ref_cost(const CostSpec &, const SpaceSpec &);
// independent proximal maps
VectorXs ref_prox(const SetSpec &, const VectorXs &z, double mu);
double ref_set_value(const SetSpec &, const VectorXs &z); // L1 part only
int set_dim(const SetSpec &, int nr);

struct World {
  ProbSpec spec;
  Keep keep;
  std::unique_ptr<Problem> prob;
  explicit World(const ProbSpec &s, bool seams = true);
};

// --------------------------------------------------------------- reference KKT
struct KKT {
  double value = 0., prim = 0., dual = 0.;
  VectorXs viol; // per constraint block
  VectorXs grad, c;
  MatrixXs J;
};
KKT ref_kkt(const ProbSpec &p, const VectorXs &x, const VectorXs &lam,
            double mu);

int total_dim(const ProbSpec &p);

inline double infn(const VectorXs &v) {
  double m = 0.;
  for (long i = 0; i < v.size(); i++) {
    double a = std::abs(v[i]);
    if (!(a <= m))
      m = a; // NaN sticks
    if (m != m)
      return m;
  }
  return m;
}
inline bool finite(const VectorXs &v) {
  for (long i = 0; i < v.size(); i++)
    if (!std::isfinite(v[i]))
      return false;
  return true;
}
inline bool bits(const VectorXs &a, const VectorXs &b) {
  if (a.size() != b.size())
    return false;
  for (long i = 0; i < a.size(); i++)
    if (!same_bits(a[i], b[i]))
      return false;
  return true;
}
inline void hv(Ctx &c, const VectorXs &v) {
  for (long i = 0; i < v.size(); i++)
    c.hd(v[i]);
}
inline std::string vs(const VectorXs &v) {
  std::string s = "[";
  char b[40];
  for (long i = 0; i < v.size() && i < 12; i++) {
    snprintf(b, 40, "%s%.9g", i ? "," : "", v[i]);
    s += b;
  }
  return s + (v.size() > 12 ? ",...]" : "]");
}

// How a call into the library ended.
struct Outcome {
  enum Kind { RETURNED, RUNTIME, LOGIC, OTHER_INJ, LIB_ERROR, STD_OTHER,
              BAD_ALLOC, UNKNOWN } kind = RETURNED;
  int inj_id = -1;
  ConvergenceFlag flag = UNINIT;
  std::string what;
};
const char *outcome_name(Outcome::Kind k);
template <class F> Outcome attempt(F &&f) {
  Outcome o;
  try {
    o.flag = f();
    return o;
  } catch (const Violation &) {
    throw;
  } catch (const InjRuntime &e) {
    o.kind = Outcome::RUNTIME;
    o.inj_id = e.id;
    if (typeid(e) != typeid(InjRuntime))
      o.kind = Outcome::UNKNOWN;
  } catch (const InjLogic &e) {
    o.kind = Outcome::LOGIC;
    o.inj_id = e.id;
  } catch (const InjOther &e) {
    o.kind = Outcome::OTHER_INJ;
    o.inj_id = e.id;
  } catch (const std::bad_alloc &) {
    o.kind = Outcome::BAD_ALLOC;
  } catch (const RuntimeError &e) {
    AllocPause p;
    o.kind = Outcome::LIB_ERROR;
    o.what = e.what();
  } catch (const std::exception &e) {
    AllocPause p;
    o.kind = Outcome::STD_OTHER;
    o.what = e.what();
  } catch (...) {
    o.kind = Outcome::UNKNOWN;
  }
  return o;
}

// Everything observable about a finished solve, for bitwise comparison.
struct Snapshot {
  Outcome out;
  VectorXs x, lam;
  double value = 0, merit = 0, prim = 0, dual = 0, mu = 0, rho = 0;
  std::size_t iters = 0, al = 0;
  int converged = -1;
  std::vector<VectorXs> traj; // (x, lam) at every callback
  std::vector<double> scal;   // scalars at every callback
};
Snapshot snap(const Solver &s, const Outcome &o);
// empty when identical, else what differs
std::string diff(const Snapshot &a, const Snapshot &b, bool with_merit = true);
void hash_snap(Ctx &c, const Snapshot &s);

// A callback that records what it was shown.
struct Recorder : helpers::base_callback<double> {
  Snapshot *into = nullptr;
  long calls = 0;
  std::function<void(const Workspace &, const Results &)> extra;
  bool with_seam = true;
  void call(const Workspace &ws, const Results &r) override {
    if (with_seam)
      seam(SITE_CALLBACK);
    AllocPause p;
    calls++;
    if (into) {
      VectorXs v(r.x_opt.size() + r.data_lams_opt.size());
      v << r.x_opt, r.data_lams_opt;
      into->traj.push_back(v);
      into->scal.push_back(r.value);
      into->scal.push_back(r.merit);
      into->scal.push_back(r.prim_infeas);
      into->scal.push_back(r.dual_infeas);
      into->scal.push_back(ws.alpha_opt);
      into->scal.push_back((double)r.num_iters);
    }
    if (extra)
      extra(ws, r);
  }
};

} // namespace w
